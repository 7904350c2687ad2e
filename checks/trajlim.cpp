// C15: the trajectory point limiter: generated multi-joint states, points and limits against direct invariants and a
// per-joint model of the documented procedure.
#include "joint_limits/joint_saturation_limiter.hpp"
#include "pbt.hpp"
#include "trajectory_msgs/msg/joint_trajectory_point.hpp"
using namespace pbt;
using Point = trajectory_msgs::msg::JointTrajectoryPoint;
using Limiter = joint_limits::JointSaturationLimiter<Point>;
using Vec = std::vector<double>;

static const double ZERO = 1e-10;
static bool edgy = false;  // a decision was taken too close to a threshold to compare exactly
static bool less(double a, double b)
{
  if (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= 1e-9 * (std::fabs(a) + std::fabs(b)) + 1e-13) edgy = true;
  return a < b;
}
struct Joint
{
  joint_limits::JointLimits l;
  double cp, cv;     // current
  double p, v, a;    // desired, then limited
  bool brake = false, limited = false;
};
static double acc_limit(const Joint & j, double a, bool & has)
{
  bool dec = (a < 0 && j.cv > 0) || (a > 0 && j.cv < 0);
  has = true;
  if (dec && j.l.has_deceleration_limits) return j.l.max_deceleration;
  if (j.l.has_acceleration_limits) return j.l.max_acceleration;
  has = false;
  return 0;
}
static void limit_joint(Joint & j, bool hp, bool hv, double dt)
{
  auto & l = j.l;
  if (hp)
  {
    if (l.has_position_limits)
    {
      double p = std::clamp(j.p, l.min_position, l.max_position);
      if (p != j.p) j.p = p, j.limited = true;
    }
    // a velocity of zero means "not given" when there is a position to derive it from
    if (less(ZERO, std::fabs(j.p - j.cp)) && std::fabs(j.v) <= ZERO) j.v = (j.p - j.cp) / dt;
  }
  if (l.has_velocity_limits && less(l.max_velocity, std::fabs(j.v)))
  {
    j.v = std::copysign(l.max_velocity, j.v);
    j.limited = true;
    if (hp) j.p = j.cp + j.v * dt;
    j.a = (j.v - j.cv) / dt;
  }
  if (l.has_acceleration_limits || l.has_deceleration_limits)
  {
    if (std::fabs(j.a) <= ZERO) j.a = (j.v - j.cv) / dt;
    less(0, j.a);
    bool has;
    double m = acc_limit(j, j.a, has);
    if (has && less(m, std::fabs(j.a)))
    {
      j.a = std::copysign(m, j.a);
      j.limited = true;
      j.v = j.cv + j.a * dt;
      if (hp) j.p = j.cp + j.cv * dt + 0.5 * j.a * dt * dt;
    }
  }
  if (!l.has_position_limits) return;
  if (hv && !hp)
  {
    double ahead = j.cp + j.v * dt;
    if (less(ahead, l.min_position) || less(l.max_position, ahead))
    {
      j.v = (std::clamp(ahead, l.min_position, l.max_position) - j.cp) / dt;
      if (l.has_velocity_limits) j.v = std::clamp(j.v, -l.max_velocity, l.max_velocity);
      j.limited = true;
    }
  }
  // it has to be possible to stop in front of the limit
  double dec = l.has_deceleration_limits ? l.max_deceleration : l.has_acceleration_limits ? l.max_acceleration : std::fabs(j.v / dt);
  less(0, std::fabs(j.v));
  if (j.v == 0) return;
  double room = j.v > 0 ? l.max_position - j.cp : j.cp - l.min_position;
  double stop = j.v * j.v / (2 * dec);
  if (less(room, stop)) j.brake = true;
  else if (j.v > 0 ? less(room, 2 * stop) : less(room, -2 * stop)) j.brake = true;
  if (j.brake) j.limited = true;
}

static double lim(Case & c)
{
  switch (c.weighted({6, 3, 1, 1}))
  {
    case 0: return 0.5 * c.range(1, 12);
    case 1: return c.real(0.01, 5);
    case 2: return c.real(100, 1e5);
    default: return 0.001;
  }
}
static Vec values(Case & c, size_t n, const std::function<double(size_t)> & one)
{
  Vec v;
  for (size_t i = 0; i < n; ++i) v.push_back(one(i));
  return v;
}
static std::string show(const Point & p)
{
  std::string r;
  auto add = [&](const char * n, const auto & v)
  {
    r += std::string(" ") + n + "[";
    for (double x : v) r += num(x) + " ";
    r += "]";
  };
  add("p", p.positions), add("v", p.velocities), add("a", p.accelerations), add("e", p.effort);
  return r;
}
static bool near(double a, double b, double scale)
{
  if (a == b || (std::isnan(a) && std::isnan(b))) return true;
  return std::fabs(a - b) <= 1e-8 * (1 + scale + std::fabs(b));
}
static bool bits(const Vec & a, const Vec & b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), 8 * a.size())); }

static void test_point(Case & c)
{
  size_t n = 1 + static_cast<size_t>(c.more(1.2));
  std::vector<std::string> names;
  std::vector<joint_limits::JointLimits> L(n);
  bool any_acc = c.coin(), any_pos = c.chance(80);
  for (size_t i = 0; i < n; ++i)
  {
    names.push_back("j" + std::to_string(i));
    auto & l = L[i];
    double ctr = c.coin() ? 0 : c.real(-2, 2);
    if ((l.has_position_limits = any_pos && c.chance(80))) l.min_position = ctr - lim(c), l.max_position = ctr + lim(c);
    if ((l.has_velocity_limits = c.chance(75))) l.max_velocity = lim(c);
    if ((l.has_acceleration_limits = any_acc && c.chance(60))) l.max_acceleration = lim(c);
    if ((l.has_deceleration_limits = any_acc && c.chance(50))) l.max_deceleration = lim(c);
    c.note("%s: pos %d [%s, %s] vel %d %s acc %d %s dec %d %s", names[i].c_str(), l.has_position_limits, num(l.min_position).c_str(), num(l.max_position).c_str(), l.has_velocity_limits, num(l.max_velocity).c_str(), l.has_acceleration_limits, num(l.max_acceleration).c_str(), l.has_deceleration_limits, num(l.max_deceleration).c_str());
  }
  Limiter limiter;
  joint_limits::JointLimiterInterface<Point> & itf = limiter;
  if (!itf.init(names, L, {}, nullptr, nullptr)) return c.fail("init", "init failed");
  if (c.chance(2))
  {
    Limiter bad;
    auto wrong = L;
    wrong.pop_back();
    c.check(!static_cast<joint_limits::JointLimiterInterface<Point> &>(bad).init(names, wrong, {}, nullptr, nullptr), "init", "missing limits were accepted");
  }
  int steps = 1 + c.more(1.5);
  Point cur;
  for (int s = 0; s < steps; ++s)
  {
    double dt = c.pick<double>({0.01, 0.1, 0.1, 0.25, 1.0});
    if (c.chance(3)) dt = c.pick<double>({0, -1});
    rclcpp::Duration period = rclcpp::Duration::from_seconds(dt);
    dt = period.seconds();
    bool gentle = c.coin();
    auto pos_near = [&](size_t i) -> double
    {
      if (!L[i].has_position_limits) return c.coin() ? 0.5 * c.range(-6, 6) : c.real(-5, 5);
      double lo = L[i].min_position, hi = L[i].max_position;
      switch (c.weighted({6, 2, 1}))
      {
        case 0: return lo + (hi - lo) * c.real(0, 1);
        case 1: return c.pick<double>({lo, hi}) + c.pick<double>({0, 0.01, -0.01, 0.1, -0.1});
        default: return c.real(lo - 2, hi + 2);
      }
    };
    cur.positions = values(c, n, pos_near);
    cur.velocities = values(c, n, [&](size_t i) { double m = L[i].has_velocity_limits ? L[i].max_velocity : 3; return c.weighted({2, 5, 1}) == 0 ? 0.0 : c.chance(90) ? m * c.real(-1, 1) : c.real(-8, 8); });
    Point want;
    bool hp = c.chance(70), hv = c.chance(hp ? 50 : 92), ha = c.chance(40);
    bool consistent = c.chance(60);
    Vec v = values(c, n, [&](size_t i)
    {
      double m = L[i].has_velocity_limits ? L[i].max_velocity : 3;
      double x = gentle ? m * 0.5 * c.real(-1, 1) : m * c.real(-2.5, 2.5);
      if (gentle && (L[i].has_acceleration_limits || L[i].has_deceleration_limits)) x = cur.velocities[i] + c.real(-1, 1) * dt * std::min(L[i].has_acceleration_limits ? L[i].max_acceleration : 1e3, L[i].has_deceleration_limits ? L[i].max_deceleration : 1e3);
      return c.chance(8) ? 0.0 : x;
    });
    if (hp) want.positions = values(c, n, [&](size_t i) { return consistent ? cur.positions[i] + v[i] * dt : pos_near(i); });
    if (hv) want.velocities = consistent ? v : values(c, n, [&](size_t i) { return c.chance(15) ? 0.0 : v[i] * c.real(-2, 2); });
    if (ha) want.accelerations = values(c, n, [&](size_t i) { return consistent ? (v[i] - cur.velocities[i]) / dt : c.chance(15) ? 0.0 : c.real(-12, 12); });
    bool bad = false;
    if (c.chance(6))
    {
      // missing or wrongly sized fields
      auto cut = [&](Vec & x) { c.coin() ? x.clear() : c.coin() ? x.push_back(1) : x.pop_back(); };
      switch (c.range(0, 3))
      {
        case 0: cut(cur.positions); break;
        case 1: if (!want.positions.empty()) cut(want.positions); break;
        case 2: if (!want.velocities.empty()) cut(want.velocities); break;
        case 3: cur.velocities.clear(); break;
      }
      c.label("wrongly sized field");
    }
    if (c.chance(5)) cur.velocities.clear();
    if (c.chance(10)) want.effort = values(c, n, [&](size_t) { return c.real(-9, 9); });
    const bool has_p = want.positions.size() == n, has_v = want.velocities.size() == n, has_a = want.accelerations.size() == n;
    const bool cp = cur.positions.size() == n, cv = cur.velocities.size() == n;
    bad = dt <= 0 || !cp || !(has_p || has_v);
    const Point in = want;
    const Point cur_in = cur;
    c.note("dt %s current%s desired%s", num(dt).c_str(), show(cur).c_str(), show(want).c_str());
    bool limited = itf.enforce(cur, want, period);
    c.note(" -> %d%s", limited, show(want).c_str());
    c.check(bits(cur.positions, cur_in.positions) && bits(cur.velocities, cur_in.velocities), "state", "the current state was changed");
    c.check(bits(want.effort, in.effort) && want.time_from_start == in.time_from_start, "other", "an unrelated field changed");
    if (bad)
    {
      c.check(!limited && bits(want.positions, in.positions) && bits(want.velocities, in.velocities) && bits(want.accelerations, in.accelerations), "refuse", "an unusable point was not left alone");
      c.label("unusable point");
      continue;
    }
    c.check(want.positions.size() == in.positions.size() && want.velocities.size() == in.velocities.size() && want.accelerations.size() == in.accelerations.size(), "size", "a field changed its size");
    if (!has_p) c.check(bits(want.positions, in.positions), "size", "a wrongly sized field changed");
    if (!has_v) c.check(bits(want.velocities, in.velocities), "size", "a wrongly sized field changed");
    if (!has_a) c.check(bits(want.accelerations, in.accelerations), "size", "a wrongly sized field changed");
    // ------------------------------------------------------------ model
    std::vector<Joint> J(n);
    edgy = false;
    bool brake = false, model_limited = false;
    for (size_t i = 0; i < n; ++i)
    {
      J[i] = {L[i], cur.positions[i], cv ? cur.velocities[i] : 0, has_p ? in.positions[i] : 0, has_v ? in.velocities[i] : 0, has_a ? in.accelerations[i] : 0};
      limit_joint(J[i], has_p, has_v, dt);
      brake = brake || J[i].brake;
      model_limited = model_limited || J[i].limited;
    }
    if (brake)
      for (auto & j : J)
      {
        // all joints slow down together
        j.a = -j.cv / dt;
        double m = j.l.has_deceleration_limits ? j.l.max_deceleration : j.l.has_acceleration_limits ? j.l.max_acceleration : std::fabs(j.a);
        j.a = std::copysign(std::min(std::fabs(j.a), m), j.a);
        if (has_v) j.v = j.cv + j.a * dt;
        if (has_p) j.p = j.cp + j.cv * dt + 0.5 * j.a * dt * dt;
      }
    bool exact = !edgy;
    for (size_t i = 0; i < n; ++i)
    {
      auto & j = J[i];
      auto & l = L[i];
      double scale = std::fabs(j.cp) + std::fabs(j.cv) + std::fabs(j.cp / dt);
      // -------------------------------------------------------- invariants
      if (has_p && l.has_position_limits)
        c.checkf(want.positions[i] >= std::min(l.min_position, j.cp) && want.positions[i] <= std::max(l.max_position, j.cp), "position limit", "%s: position %s", names[i].c_str(), num(want.positions[i]).c_str());
      if (has_v && l.has_velocity_limits)
      {
        bool accl = l.has_acceleration_limits || l.has_deceleration_limits;
        double m = std::max(l.max_velocity, accl ? std::fabs(j.cv) : 0.0);
        c.checkf(std::fabs(want.velocities[i]) <= m, "velocity limit", "%s: velocity %s", names[i].c_str(), num(want.velocities[i]).c_str());
      }
      if (has_p && !has_v && !has_a && l.has_velocity_limits && std::fabs(j.cv) <= l.max_velocity)
        c.checkf(std::fabs(want.positions[i] - j.cp) <= l.max_velocity * dt + 1e-9 * (1 + std::fabs(j.cp)), "step", "%s: position step %s", names[i].c_str(), num(want.positions[i] - j.cp).c_str());
      if (has_a)
      {
        bool has;
        double m = acc_limit(j, want.accelerations[i], has);
        if (has) c.checkf(std::fabs(want.accelerations[i]) <= m * (1 + 1e-12), "acceleration limit", "%s: acceleration %s", names[i].c_str(), num(want.accelerations[i]).c_str());
      }
      if (has_v && !has_p && !has_a && !l.has_position_limits)
      {
        double a = (want.velocities[i] - j.cv) / dt;
        bool has;
        double m = acc_limit(j, a, has);
        if (has && std::fabs(a) > 1e-9 * scale) c.checkf(std::fabs(a) <= m + 1e-8 * (1 + scale + std::fabs(j.cv) / dt), "velocity step", "%s: velocity changes from %s to %s", names[i].c_str(), num(j.cv).c_str(), num(want.velocities[i]).c_str());
      }
      // -------------------------------------------------------- exact
      if (exact)
      {
        if (has_p && l.has_position_limits)
        {
          double p = std::clamp(j.p, std::min(l.min_position, j.cp), std::max(l.max_position, j.cp));
          if (p != j.p) model_limited = true;
          j.p = p;
        }
        if (has_v && l.has_velocity_limits)
        {
          double m = std::max(l.max_velocity, std::fabs(j.cv));
          double w = std::clamp(j.v, -m, m);
          if (w != j.v) model_limited = true;
          j.v = w;
        }
        if (has_p) c.checkf(near(want.positions[i], j.p, scale), "position", "%s: position %s, expected %s", names[i].c_str(), num(want.positions[i]).c_str(), num(j.p).c_str());
        if (has_v) c.checkf(near(want.velocities[i], j.v, scale + std::fabs(j.p / dt)), "velocity", "%s: velocity %s, expected %s", names[i].c_str(), num(want.velocities[i]).c_str(), num(j.v).c_str());
        if (has_a) c.checkf(near(want.accelerations[i], j.a, (scale + std::fabs(j.p)) / dt / dt), "acceleration", "%s: acceleration %s, expected %s", names[i].c_str(), num(want.accelerations[i]).c_str(), num(j.a).c_str());
      }
    }
    if (exact)
    {
      c.checkf(limited == model_limited, "flag", "reported %s", limited ? "limited although all limits are respected" : "not limited although a limit is exceeded");
      if (!limited)
      {
        bool same = true;
        for (size_t i = 0; i < n; ++i)
        {
          if (has_p && want.positions[i] != in.positions[i]) same = false;
          if (has_v && std::fabs(in.velocities[i]) > ZERO && want.velocities[i] != in.velocities[i]) same = false;
          if (has_a && std::fabs(in.accelerations[i]) > ZERO && want.accelerations[i] != in.accelerations[i]) same = false;
        }
        c.check(same, "unchanged", "a point inside the limits was changed");
      }
    }
    else c.label("too close to a threshold");
    c.label(brake ? "braking" : limited ? "limited" : "passed");
    c.nontrivial(n > 1 || limited);
  }
}
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C15";
  o.rule = "more than one joint or a limited point, with fields of the right size";
  o.quick_cases = 600000;
  o.thorough_cases = 20000000;
  o.assumptions = {"limits are positive, the lower position limit lies below the upper one", "a velocity or acceleration of zero counts as not given where it can be derived, as the limiter documents"};
  return run(argc, argv, o, {{"point", 1, test_point}});
}
