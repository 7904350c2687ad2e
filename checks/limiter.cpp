// C13 (range limiter) and C14 (soft limiter): generated histories of commands and states of one joint, checked step by
// step against an interval model of the documented limits and against direct safety invariants.
#include "joint_limits/joint_saturation_limiter.hpp"
#include "joint_limits/joint_soft_limiter.hpp"
#include "pbt.hpp"
using namespace pbt;
using Data = joint_limits::JointControlInterfacesData;
using Opt = std::optional<double>;
static const double INF = std::numeric_limits<double>::infinity();

struct Iv
{
  double lo, hi;
};
// the part of P nearest to R (their intersection when they meet)
static Iv into(const Iv & P, const Iv & R)
{
  Iv r{std::clamp(R.lo, P.lo, P.hi), std::clamp(R.hi, P.lo, P.hi)};
  return r;
}
static bool fin(const Opt & v) { return v && std::isfinite(*v); }
static bool known(const Opt & v) { return v && !std::isnan(*v); }

struct Env
{
  joint_limits::JointLimits l;
  joint_limits::SoftJointLimits s;
  bool soft_pos() const { return std::isfinite(s.min_position) && std::isfinite(s.max_position) && s.max_position - s.min_position > 1e-10; }
  bool soft_all() const { return soft_pos() && std::isfinite(s.k_position) && std::fabs(s.k_position) > 1e-10; }
};
struct Thrown {};

// ---- hard bounds, from the documentation of joint_limits_helpers.hpp
static Iv pos_range(const Env & e) { return e.l.has_position_limits ? Iv{e.l.min_position, e.l.max_position} : Iv{-INF, INF}; }
static Iv pos_bounds(const Env & e, const Data & act, const Data & prev, double dt)
{
  Iv P = pos_range(e);
  if (e.l.has_position_limits && known(act.position) && (*act.position > P.hi + 0.0087 || *act.position < P.lo - 0.0087)) throw Thrown();
  if (!e.l.has_velocity_limits) return P;
  double v = e.l.max_velocity;
  if (e.l.has_acceleration_limits && !(act.velocity && std::isnan(*act.velocity)))
    v = std::min(v, (act.velocity ? std::fabs(*act.velocity) : 0.0) + e.l.max_acceleration * dt);
  const Opt & ref = fin(prev.position) ? prev.position : act.position;
  if (!fin(ref)) return P;
  return into(P, Iv{*ref - v * dt, *ref + v * dt});
}
static Iv vel_bounds(const Env & e, double want, const Data & act, const Data & prev, double dt)
{
  if (!e.l.has_velocity_limits) return {-INF, INF};
  double m = e.l.max_velocity;
  Iv V{-m, m};
  if (e.l.has_position_limits && known(act.position))
  {
    double p = *act.position, tol = 0.002;
    V = {std::clamp((e.l.min_position - p) / dt, -m, m), std::clamp((e.l.max_position - p) / dt, -m, m)};
    if (p > e.l.max_position && (p > e.l.max_position + tol || want >= 0)) V = {0, 0};
    if (p < e.l.min_position && (p < e.l.min_position - tol || want <= 0)) V = {0, 0};
  }
  if (e.l.has_acceleration_limits && fin(prev.velocity))
  {
    double d = e.l.max_acceleration * dt;
    Iv R = into(Iv{-m, m}, Iv{*prev.velocity - d, *prev.velocity + d});
    V = {std::max(V.lo, R.lo), std::min(V.hi, R.hi)};
    if (V.lo > V.hi) std::swap(V.lo, V.hi);  // not reachable in one period: anything between the two
  }
  return V;
}
static Iv eff_bounds(const Env & e, const Data & act)
{
  if (!e.l.has_effort_limits) return {-INF, INF};
  Iv E{-e.l.max_effort, e.l.max_effort};
  bool low = false, high = false;
  if (e.l.has_position_limits && act.position && act.velocity)
  {
    low = *act.position <= e.l.min_position && *act.velocity <= 0;
    high = *act.position >= e.l.max_position && *act.velocity >= 0;
  }
  if (e.l.has_velocity_limits && act.velocity)
  {
    low = low || *act.velocity < -e.l.max_velocity;
    high = high || *act.velocity > e.l.max_velocity;
  }
  if (low) E.lo = 0;
  if (high) E.hi = 0;
  return E;
}
static Iv acc_bounds(const Env & e, double want, const Data & act)
{
  bool braking = act.velocity && ((want < 0 && *act.velocity > 0) || (want > 0 && *act.velocity < 0));
  if (e.l.has_deceleration_limits && braking) return {-e.l.max_deceleration, e.l.max_deceleration};
  if (e.l.has_acceleration_limits) return {-e.l.max_acceleration, e.l.max_acceleration};
  return {-INF, INF};
}
static Iv jerk_bounds(const Env & e) { return e.l.has_jerk_limits ? Iv{-e.l.max_jerk, e.l.max_jerk} : Iv{-INF, INF}; }

// ---- soft velocity range
static Iv soft_vel(const Env & e, const Data & act, const Data & prev)
{
  if (!e.l.has_velocity_limits) return {-INF, INF};
  double m = e.l.max_velocity;
  Iv S{-m, m};
  const Opt & p = fin(prev.position) ? prev.position : act.position;
  if (!e.l.has_position_limits || !e.soft_all() || !fin(p)) return S;
  S = {std::clamp(-e.s.k_position * (*p - e.s.min_position), -m, m), std::clamp(-e.s.k_position * (*p - e.s.max_position), -m, m)};
  double a = known(act.position) ? *act.position : *p;
  if (std::isfinite(a) && (a < e.l.min_position - 0.002 || a > e.l.max_position + 0.002)) return {0, 0};
  if (a < e.s.min_position || a > e.s.max_position)
  {
    double r = M_PI / 180;
    S = {std::copysign(r, S.lo), std::copysign(r, S.hi)};
  }
  return S;
}
struct Bounds
{
  std::map<std::string, Iv> b;
};
static const std::vector<std::pair<std::string, Opt Data::*>> FIELDS = {{"position", &Data::position}, {"velocity", &Data::velocity}, {"effort", &Data::effort}, {"acceleration", &Data::acceleration}, {"jerk", &Data::jerk}};

static void seed_prev(const Data & act, const Data & want, Data & prev)
{
  if (prev.has_data()) return;
  for (auto & [n, f] : FIELDS)
    if (want.*f)
    {
      if (fin(act.*f)) prev.*f = act.*f;
      else if (fin(want.*f)) prev.*f = want.*f;
    }
}
static bool near(double a, double b)
{
  if (a == b || (std::isnan(a) && std::isnan(b))) return true;
  return std::fabs(a - b) <= 1e-9 * (1 + std::max(std::fabs(a), std::fabs(b)));
}
static std::string show(const Data & d)
{
  std::string r;
  for (auto & [n, f] : FIELDS)
    if (d.*f) r += " " + n.substr(0, 3) + "=" + num(*(d.*f));
  return r;
}
static double lim(Case & c, bool zero = true)
{
  switch (c.weighted({6, 3, 1, 1}))
  {
    case 0: return 0.25 * c.range(1, 12);
    case 1: return c.real(0.01, 5);
    case 2: return c.real(100, 1e6);
    default: return zero ? 0.0 : 0.5;
  }
}
static Opt state(Case & c, const std::vector<double> & marks, int present)
{
  if (!c.chance(present)) return std::nullopt;
  switch (c.weighted({5, 5, 3, 1, 1}))
  {
    case 0: return c.pick(marks) + c.pick<double>({0, 0, 0.001, -0.001, 0.0019, -0.0019, 0.0021, -0.0021, 0.005, -0.005, 0.0086, -0.0086, 0.0088, -0.0088, 0.1, -0.1, 1, -1});
    case 1: return 0.25 * c.range(-12, 12);
    case 2: return c.real(-4, 4);
    case 3: return c.pick<double>({NAN, INFINITY, -INFINITY});
    default: return c.real(-100, 100);
  }
}

static void history(Case & c, bool soft)
{
  Env e;
  auto & l = e.l;
  double center = c.coin() ? 0 : c.real(-2, 2);
  l.min_position = center - lim(c, false);
  l.max_position = center + lim(c, false);
  l.max_velocity = lim(c);
  l.max_acceleration = lim(c);
  l.max_deceleration = lim(c);
  l.max_jerk = lim(c);
  l.max_effort = lim(c);
  l.has_position_limits = c.chance(80);
  l.has_velocity_limits = c.chance(80);
  l.has_acceleration_limits = c.chance(50);
  l.has_deceleration_limits = c.chance(50);
  l.has_jerk_limits = c.chance(60);
  l.has_effort_limits = c.chance(70);
  // values of limits that are switched off are absent or arbitrary
  if (c.coin())
  {
    if (!l.has_position_limits) l.min_position = l.max_position = NAN;
    if (!l.has_velocity_limits) l.max_velocity = NAN;
    if (!l.has_acceleration_limits) l.max_acceleration = NAN;
    if (!l.has_deceleration_limits) l.max_deceleration = NAN;
    if (!l.has_jerk_limits) l.max_jerk = NAN;
    if (!l.has_effort_limits) l.max_effort = NAN;
  }
  std::vector<joint_limits::SoftJointLimits> sv;
  bool inside_soft_valid = false;
  if (soft && c.chance(92))
  {
    double lo = std::isnan(l.min_position) ? -1 : l.min_position, hi = std::isnan(l.max_position) ? 1 : l.max_position;
    if (c.chance(85))
    {
      double w = hi - lo;
      e.s.min_position = lo + w * 0.125 * c.range(0, 3);
      e.s.max_position = hi - w * 0.125 * c.range(0, 3);
      inside_soft_valid = true;
    }
    else if (c.coin())
    {
      e.s.min_position = c.real(-6, 6);
      e.s.max_position = c.coin() ? c.real(-6, 6) : INF;
    }
    if (c.chance(80)) e.s.k_position = c.pick<double>({0, 0.5, 1, 2, 10, 100});
    if (c.chance(70)) e.s.k_velocity = c.pick<double>({0, 0.5, 1, 5, 300});
    sv.push_back(e.s);
    c.note("soft [%s, %s] kp %s kv %s", num(e.s.min_position).c_str(), num(e.s.max_position).c_str(), num(e.s.k_position).c_str(), num(e.s.k_velocity).c_str());
  }
  c.note("limits pos %d [%s, %s] vel %d %s acc %d %s dec %d %s jerk %d %s eff %d %s", l.has_position_limits, num(l.min_position).c_str(), num(l.max_position).c_str(), l.has_velocity_limits, num(l.max_velocity).c_str(), l.has_acceleration_limits, num(l.max_acceleration).c_str(), l.has_deceleration_limits, num(l.max_deceleration).c_str(), l.has_jerk_limits, num(l.max_jerk).c_str(), l.has_effort_limits, num(l.max_effort).c_str());
  std::unique_ptr<joint_limits::JointLimiterInterface<Data>> lim_;
  if (soft) lim_ = std::make_unique<joint_limits::JointSoftLimiter>();
  else lim_ = std::make_unique<joint_limits::JointSaturationLimiter<Data>>();
  if (c.chance(3))
  {
    bool two = lim_->init({"a", "b"}, {l, l}, sv, nullptr, nullptr);
    c.check(!two, "init", "a limiter for two joints was accepted");
    c.check(!lim_->init({"a"}, {}, sv, nullptr, nullptr), "init", "a limiter without limits was accepted");
  }
  if (!lim_->init({"j"}, {l}, sv, nullptr, nullptr)) return c.fail("init", "init of a single joint failed");

  std::vector<double> marks{0};
  if (l.has_position_limits) marks = {l.min_position, l.max_position, l.min_position, l.max_position, center};
  if (e.soft_pos()) marks.push_back(e.s.min_position), marks.push_back(e.s.max_position);
  std::vector<double> vmarks{0, 0, 1};
  if (l.has_velocity_limits) vmarks = {0, l.max_velocity, -l.max_velocity};
  Data prev;
  unsigned modes = static_cast<unsigned>(c.range(1, 31));
  int steps = 1 + c.more(4);
  bool follow = c.chance(60);  // the joint follows its command
  double inside = c.chance(70);
  Opt last_pos;
  for (int i = 0; i < steps; ++i)
  {
    if (c.chance(4))
    {
      c.note("reset");
      lim_->reset_internals();
      prev = Data();
    }
    if (c.chance(5))
    {
      Data d;
      d.joint_name = "j";
      for (auto & [n, f] : FIELDS)
        if (c.chance(40)) d.*f = state(c, n == "position" ? marks : vmarks, 100);
      c.note("configure%s", show(d).c_str());
      lim_->configure(d);
      prev = d;
    }
    if (c.chance(10)) modes = static_cast<unsigned>(c.range(1, 31));
    double dt = c.pick<double>({0.001, 0.01, 0.01, 0.1, 0.1, 0.5, 1.0});
    if (c.chance(4)) dt = c.pick<double>({0, -0.1, -1});
    else if (c.chance(20)) dt = static_cast<double>(c.range(1, 2000)) / 1000.0;
    rclcpp::Duration period = rclcpp::Duration::from_seconds(dt);
    dt = period.seconds();
    Data act, want;
    act.joint_name = want.joint_name = "j";
    act.position = state(c, marks, 85);
    if (inside && l.has_position_limits && act.position && !(*act.position >= l.min_position && *act.position <= l.max_position)) act.position = c.real(l.min_position, l.max_position);
    if (follow && last_pos && c.chance(90)) act.position = last_pos;
    act.velocity = state(c, vmarks, 70);
    act.effort = state(c, vmarks, 20);
    act.acceleration = state(c, vmarks, 20);
    if (c.chance(10)) act.jerk = state(c, vmarks, 100);
    for (size_t k = 0; k < FIELDS.size(); ++k)
      if (modes >> k & 1)
      {
        auto f = FIELDS[k].second;
        want.*f = state(c, k == 0 ? marks : std::vector<double>{0, k == 1 && l.has_velocity_limits ? l.max_velocity : 1, k == 2 && l.has_effort_limits ? l.max_effort : 1, k == 3 && l.has_acceleration_limits ? l.max_acceleration : 1, -1}, 100);
        if (k == 0 && c.chance(30)) want.*f = (prev.position ? *prev.position : 0) + c.real(-0.3, 0.3);
      }
    const Data before = want;
    const Data prev_in = prev;
    c.note("dt %s actual%s want%s", num(dt).c_str(), show(act).c_str(), show(want).c_str());
    bool threw = false, limited = false;
    try
    {
      limited = lim_->enforce(act, want, period);
    }
    catch (const std::runtime_error &)
    {
      threw = true;
    }
    c.note(" -> %s%s", threw ? "exception" : limited ? "limited" : "passed", show(want).c_str());
    auto unchanged = [&]
    {
      for (auto & [n, f] : FIELDS)
        if ((want.*f).has_value() != (before.*f).has_value() || (want.*f && std::memcmp(&*(want.*f), &*(before.*f), 8))) return false;
      return true;
    };
    if (dt <= 0)
    {
      c.check(!threw && !limited && unchanged(), "period", "a non-positive period was not refused");
      continue;
    }
    // ---------------------------------------------------------------- model
    seed_prev(act, before, prev);
    std::map<std::string, Iv> b;
    bool expect_throw = false;
    try
    {
      Iv S = soft ? soft_vel(e, act, prev) : Iv{-INF, INF};
      if (known(before.position))
      {
        Iv P = pos_bounds(e, act, prev, dt);
        if (soft)
        {
          Iv Q = e.soft_pos() ? Iv{e.s.min_position, e.s.max_position} : Iv{-INF, INF};
          const Opt & p = fin(prev.position) ? prev.position : act.position;
          if (e.l.has_velocity_limits && fin(p)) Q = into(Q, Iv{*p + S.lo * dt, *p + S.hi * dt});
          Iv both{std::max(Q.lo, P.lo), std::min(Q.hi, P.hi)};
          // no common position: the soft bound, but never beyond the hard one
          P = both.lo <= both.hi ? both : into(pos_range(e), Q);
          if (both.lo > both.hi) c.label("soft and reachable range disjoint");
        }
        b["position"] = P;
      }
      if (known(before.velocity))
      {
        Iv V = vel_bounds(e, *before.velocity, act, prev, dt);
        if (soft)
        {
          if (e.l.has_velocity_limits && e.l.has_acceleration_limits && fin(act.velocity))
          {
            double d = e.l.max_acceleration * dt;
            S = into(S, Iv{*act.velocity - d, *act.velocity + d});
          }
          S = into(V, S);
          V = S;
        }
        b["velocity"] = V;
      }
      if (known(before.effort))
      {
        Iv E = eff_bounds(e, act);
        if (soft && e.l.has_effort_limits && e.l.has_velocity_limits && std::isfinite(e.s.k_velocity) && fin(act.velocity))
          E = into(E, Iv{-e.s.k_velocity * (*act.velocity - S.lo), -e.s.k_velocity * (*act.velocity - S.hi)});
        b["effort"] = E;
      }
      if (known(before.acceleration)) b["acceleration"] = acc_bounds(e, *before.acceleration, act);
      if (known(before.jerk)) b["jerk"] = jerk_bounds(e);
    }
    catch (const Thrown &)
    {
      expect_throw = true;
    }
    c.checkf(threw == expect_throw, "exception", "position far outside the limits: %s", threw ? "unexpected exception" : "no exception");
    if (threw != expect_throw) return;
    if (threw)
    {
      c.check(unchanged(), "exception", "the command was changed although enforcement failed");
      c.label("exception");
      continue;
    }
    bool changed = false;
    for (auto & [n, f] : FIELDS)
    {
      c.checkf((want.*f).has_value() == (before.*f).has_value(), "presence", "%s command appeared or disappeared", n.c_str());
      if (!(before.*f)) continue;
      double in = *(before.*f), out = *(want.*f);
      if (std::isnan(in))
      {
        c.checkf(std::isnan(out), "nan", "%s: not-a-number command became %s", n.c_str(), num(out).c_str());
        continue;
      }
      c.checkf(!std::isnan(out) && !(std::isfinite(in) && !std::isfinite(out)), "finite", "%s: finite command became %s", n.c_str(), num(out).c_str());
      double ref = std::clamp(in, b[n].lo, b[n].hi);
      c.checkf(near(out, ref), n.c_str(), "%s: %s became %s, expected %s (bounds [%s, %s])", n.c_str(), num(in).c_str(), num(out).c_str(), num(ref).c_str(), num(b[n].lo).c_str(), num(b[n].hi).c_str());
      if (out != in) changed = true;
      if (out != in) c.label(n + " limited");
    }
    c.checkf(changed == limited, "flag", "reported %s but the command %s", limited ? "limited" : "not limited", changed ? "changed" : "did not change");
    // ---------------------------------------------------------------- safety, independent of the model
    if (known(before.position) && l.has_position_limits)
      c.checkf(*want.position >= l.min_position && *want.position <= l.max_position, "position limit", "position %s outside of the limits", num(*want.position).c_str());
    if (known(before.position) && l.has_velocity_limits && !soft)
    {
      const Opt & r = fin(prev_in.position) ? prev_in.position : act.position;
      if (fin(r) && l.has_position_limits && *r >= l.min_position && *r <= l.max_position && (prev_in.position || !prev_in.has_data()))
        c.checkf(std::fabs(*want.position - *r) <= l.max_velocity * dt * (1 + 1e-9) + 1e-12 * (1 + std::fabs(*r)), "step", "position step %s in %s s", num(*want.position - *r).c_str(), num(dt).c_str());
    }
    if (known(before.velocity) && l.has_velocity_limits)
      c.checkf(std::fabs(*want.velocity) <= l.max_velocity, "velocity limit", "velocity %s exceeds the limit", num(*want.velocity).c_str());
    if (known(before.effort) && l.has_effort_limits) c.checkf(std::fabs(*want.effort) <= l.max_effort, "effort limit", "effort %s exceeds the limit", num(*want.effort).c_str());
    if (known(before.jerk) && l.has_jerk_limits) c.checkf(std::fabs(*want.jerk) <= l.max_jerk, "jerk limit", "jerk %s exceeds the limit", num(*want.jerk).c_str());
    if (soft && inside_soft_valid && e.soft_pos() && known(before.position) && l.has_position_limits)
      c.checkf(*want.position >= e.s.min_position - 1e-12 && *want.position <= e.s.max_position + 1e-12, "soft position", "position %s outside of the soft range", num(*want.position).c_str());
    if (soft && e.soft_all() && known(before.velocity) && l.has_velocity_limits && l.has_position_limits && !l.has_acceleration_limits && fin(act.position) && fin(prev.position) && *act.position >= e.s.min_position && *act.position <= e.s.max_position && inside_soft_valid)
    {
      // towards a soft bound no faster than the gain times the distance left
      double hi = e.s.k_position * (e.s.max_position - *prev.position), lo = e.s.k_position * (e.s.min_position - *prev.position);
      Iv V = vel_bounds(e, *before.velocity, act, prev, dt);
      c.checkf(*want.velocity <= std::max(hi, V.lo) + 1e-9 && *want.velocity >= std::min(lo, V.hi) - 1e-9, "soft velocity", "velocity %s, allowed [%s, %s]", num(*want.velocity).c_str(), num(lo).c_str(), num(hi).c_str());
    }
    for (auto & [n, f] : FIELDS)
      if (fin(want.*f)) prev.*f = want.*f;
    if (want.position) last_pos = want.position;
    if (limited) c.nontrivial(true);
  }
}
int main(int argc, char ** argv)
{
  Options o;
  const char * p = std::getenv("PBT_PROPERTY");
  o.property = p ? p : "C13";
  bool soft = o.property == "C14";
  o.rule = "a command was limited in at least one step of the history";
  o.quick_cases = 1500000;
  o.thorough_cases = 20000000;
  o.assumptions = {"limits are not negative, the lower position limit lies below the upper one, gains are not negative", "one joint per limiter, as the limiter itself requires"};
  return run(argc, argv, o, {{soft ? "soft" : "range", 1, [soft](Case & c) { history(c, soft); }}});
}
