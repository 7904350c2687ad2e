// C12: joint limits from a robot model, from node parameters and from a hardware description, against direct models.
#include "hardware_interface/component_parser.hpp"
#include "joint_limits/joint_limiter_interface.hpp"
#include "joint_limits/joint_limits_rosparam.hpp"
#include "joint_limits/joint_limits_urdf.hpp"
#include "pbt.hpp"
#include "rclcpp/rclcpp.hpp"
#include "rclcpp_lifecycle/lifecycle_node.hpp"
using namespace pbt;
using joint_limits::JointLimits;
using joint_limits::SoftJointLimits;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

// a limit number: mostly ordinary, sometimes extreme
static double number(Case & c)
{
  switch (c.weighted({6, 2, 1, 1}))
  {
    case 0: return c.real(-10, 10);
    case 1: return (double)c.range(-5, 5);
    case 2: return c.coin() ? 1e300 : -1e-300;
    default: return c.real(-1e6, 1e6);
  }
}
static JointLimits arbitrary(Case & c)
{
  JointLimits l;
  auto n = [&]() { return c.chance(30) ? NaN : number(c); };
  l.min_position = n(), l.max_position = n(), l.max_velocity = n(), l.max_acceleration = n(), l.max_deceleration = n();
  l.max_jerk = n(), l.max_effort = n();
  l.has_position_limits = c.coin(), l.has_velocity_limits = c.coin(), l.has_acceleration_limits = c.coin();
  l.has_deceleration_limits = c.coin(), l.has_jerk_limits = c.coin(), l.has_effort_limits = c.coin(), l.angle_wraparound = c.coin();
  return l;
}
static std::string show(const JointLimits & l)
{
  return strf("pos %d [%s %s] vel %d %s acc %d %s dec %d %s jerk %d %s eff %d %s wrap %d", l.has_position_limits, num(l.min_position).c_str(),
    num(l.max_position).c_str(), l.has_velocity_limits, num(l.max_velocity).c_str(), l.has_acceleration_limits, num(l.max_acceleration).c_str(),
    l.has_deceleration_limits, num(l.max_deceleration).c_str(), l.has_jerk_limits, num(l.max_jerk).c_str(), l.has_effort_limits,
    num(l.max_effort).c_str(), l.angle_wraparound);
}
static bool equal(const JointLimits & a, const JointLimits & b)
{
  return same(a.min_position, b.min_position) && same(a.max_position, b.max_position) && same(a.max_velocity, b.max_velocity) &&
    same(a.max_acceleration, b.max_acceleration) && same(a.max_deceleration, b.max_deceleration) && same(a.max_jerk, b.max_jerk) &&
    same(a.max_effort, b.max_effort) && a.has_position_limits == b.has_position_limits && a.has_velocity_limits == b.has_velocity_limits &&
    a.has_acceleration_limits == b.has_acceleration_limits && a.has_deceleration_limits == b.has_deceleration_limits &&
    a.has_jerk_limits == b.has_jerk_limits && a.has_effort_limits == b.has_effort_limits && a.angle_wraparound == b.angle_wraparound;
}
// numbers only matter where the limit is on
static bool equal_on(const JointLimits & a, const JointLimits & b)
{
  return a.has_position_limits == b.has_position_limits && a.has_velocity_limits == b.has_velocity_limits &&
    a.has_acceleration_limits == b.has_acceleration_limits && a.has_deceleration_limits == b.has_deceleration_limits &&
    a.has_jerk_limits == b.has_jerk_limits && a.has_effort_limits == b.has_effort_limits &&
    (!a.has_position_limits || (same(a.min_position, b.min_position) && same(a.max_position, b.max_position))) &&
    (!a.has_velocity_limits || same(a.max_velocity, b.max_velocity)) && (!a.has_acceleration_limits || same(a.max_acceleration, b.max_acceleration)) &&
    (!a.has_deceleration_limits || same(a.max_deceleration, b.max_deceleration)) && (!a.has_jerk_limits || same(a.max_jerk, b.max_jerk)) &&
    (!a.has_effort_limits || same(a.max_effort, b.max_effort));
}
static std::string show(const SoftJointLimits & s)
{
  return strf("[%s %s] k %s %s", num(s.min_position).c_str(), num(s.max_position).c_str(), num(s.k_position).c_str(), num(s.k_velocity).c_str());
}
static bool equal(const SoftJointLimits & a, const SoftJointLimits & b)
{
  return same(a.min_position, b.min_position) && same(a.max_position, b.max_position) && same(a.k_position, b.k_position) && same(a.k_velocity, b.k_velocity);
}
static SoftJointLimits arbitrary_soft(Case & c)
{
  SoftJointLimits s;
  auto n = [&]() { return c.chance(30) ? NaN : number(c); };
  s.min_position = n(), s.max_position = n(), s.k_position = n(), s.k_velocity = n();
  return s;
}

// ---------------------------------------------------------------- robot model
static void model_joint(Case & c)
{
  auto j = std::make_shared<urdf::Joint>();
  j->type = (decltype(j->type))c.range(0, 6);
  if (c.chance(85))
  {
    j->limits = std::make_shared<urdf::JointLimits>();
    j->limits->lower = number(c), j->limits->upper = number(c), j->limits->velocity = number(c), j->limits->effort = number(c);
  }
  if (c.coin())
  {
    j->safety = std::make_shared<urdf::JointSafety>();
    j->safety->soft_lower_limit = number(c), j->safety->soft_upper_limit = number(c);
    j->safety->k_position = number(c), j->safety->k_velocity = number(c);
  }
  bool null = c.chance(5);
  if (null) j = nullptr;
  JointLimits got = arbitrary(c), want = got;
  bool ok = null ? false : (bool)j->limits;
  if (ok)
  {
    c.nontrivial();
    c.label(strf("type %d", j->type));
    want.has_position_limits = j->type == urdf::Joint::REVOLUTE || j->type == urdf::Joint::PRISMATIC;
    if (want.has_position_limits) want.min_position = j->limits->lower, want.max_position = j->limits->upper;
    if (j->type == urdf::Joint::CONTINUOUS) want.angle_wraparound = true;
    want.has_velocity_limits = want.has_effort_limits = true;
    want.max_velocity = std::fabs(j->limits->velocity), want.max_effort = std::fabs(j->limits->effort);
    want.has_acceleration_limits = false;
    c.note("type %d limits %s %s vel %s eff %s", j->type, num(j->limits->lower).c_str(), num(j->limits->upper).c_str(), num(j->limits->velocity).c_str(), num(j->limits->effort).c_str());
  }
  bool r = joint_limits::getJointLimits(j, got);
  c.checkf(r == ok, "model.result", "getJointLimits returned %d", r);
  c.checkf(equal(got, want), "model.limits", "limits are   %s\ninstead of   %s", show(got).c_str(), show(want).c_str());
  SoftJointLimits sg = arbitrary_soft(c), sw = sg;
  bool sok = !null && j->safety;
  if (sok) sw.min_position = j->safety->soft_lower_limit, sw.max_position = j->safety->soft_upper_limit, sw.k_position = j->safety->k_position, sw.k_velocity = j->safety->k_velocity;
  bool sr = joint_limits::getSoftJointLimits(j, sg);
  c.checkf(sr == sok, "model.soft_result", "getSoftJointLimits returned %d", sr);
  c.checkf(equal(sg, sw), "model.soft", "soft limits are %s instead of %s", show(sg).c_str(), show(sw).c_str());
}

// ---------------------------------------------------------------- node parameters
static const std::vector<std::string> FLAGS = {"has_position_limits", "has_velocity_limits", "has_acceleration_limits", "has_deceleration_limits", "has_jerk_limits", "has_effort_limits", "angle_wraparound"};
static const std::vector<std::string> VALUES = {"min_position", "max_position", "max_velocity", "max_acceleration", "max_deceleration", "max_jerk", "max_effort"};
static const std::vector<std::string> SOFT = {"k_position", "k_velocity", "soft_lower_limit", "soft_upper_limit"};
using Params = std::map<std::string, rclcpp::ParameterValue>;  // without the prefix
static bool & flag(JointLimits & l, size_t i)
{
  bool * p[] = {&l.has_position_limits, &l.has_velocity_limits, &l.has_acceleration_limits, &l.has_deceleration_limits, &l.has_jerk_limits, &l.has_effort_limits, &l.angle_wraparound};
  return *p[i];
}
static double & value(JointLimits & l, size_t i)
{
  double * p[] = {&l.min_position, &l.max_position, &l.max_velocity, &l.max_acceleration, &l.max_deceleration, &l.max_jerk, &l.max_effort};
  return *p[i];
}
static std::string show(const Params & p)
{
  std::string s;
  for (auto & [k, v] : p) s += k + "=" + (v.get_type() == rclcpp::ParameterType::PARAMETER_BOOL ? (v.get<bool>() ? "true" : "false") : v.get_type() == rclcpp::ParameterType::PARAMETER_DOUBLE ? num(v.get<double>()) : "?") + " ";
  return s;
}
static double pvalue(Case & c) { return c.chance(12) ? NaN : number(c); }
static Params params(Case & c, int percent)
{
  Params p;
  for (auto & f : FLAGS) if (c.chance(percent)) p[f] = rclcpp::ParameterValue(c.chance(75));
  for (auto & v : VALUES) if (c.chance(percent)) p[v] = rclcpp::ParameterValue(pvalue(c));
  if (c.coin())
  {
    if (c.chance(percent)) p["has_soft_limits"] = rclcpp::ParameterValue(c.chance(75));
    for (auto & v : SOFT) if (c.chance(percent)) p[v] = rclcpp::ParameterValue(pvalue(c));
  }
  return p;
}
// what get_joint_limits has to do with the parameters
static bool from_params(const Params & p, JointLimits & l)
{
  bool any = false;
  for (auto & f : FLAGS) any |= p.count(f) > 0;
  for (auto & v : VALUES) any |= p.count(v) > 0;
  if (!any) return false;
  auto given = [&](size_t i) { return p.count(VALUES[i]) && !std::isnan(p.at(VALUES[i]).get<double>()); };
  for (size_t f = 0; f < 6; ++f)
  {
    if (!p.count(FLAGS[f])) continue;
    std::vector<size_t> vals = f == 0 ? std::vector<size_t>{0, 1} : std::vector<size_t>{f + 1};
    bool on = p.at(FLAGS[f]).get<bool>();
    for (auto v : vals) on = on && given(v);
    flag(l, f) = on;
    if (on) for (auto v : vals) value(l, v) = p.at(VALUES[v]).get<double>();
    if (f == 0 && !on && p.count("angle_wraparound")) l.angle_wraparound = p.at("angle_wraparound").get<bool>();
  }
  return true;
}
static bool from_params(const Params & p, SoftJointLimits & s)
{
  if (!p.count("has_soft_limits") || !p.at("has_soft_limits").get<bool>()) return false;
  for (auto & v : SOFT) if (!p.count(v)) return false;
  s.k_position = p.at("k_position").get<double>(), s.k_velocity = p.at("k_velocity").get<double>();
  s.min_position = p.at("soft_lower_limit").get<double>(), s.max_position = p.at("soft_upper_limit").get<double>();
  return true;
}
static const std::vector<std::string> NAMES = {"a", "ab", "joint1", "joint10", "left/j", "j.x"};

static void node_params(Case & c)
{
  std::string joint = c.pick(NAMES), other = c.pick(NAMES);
  Params p = params(c, c.pick({20, 60, 95})), q;
  if (other != joint) q = params(c, 50);
  bool declare = c.coin();
  rclcpp::NodeOptions o;
  std::vector<rclcpp::Parameter> ov;
  for (auto & [k, v] : p) ov.emplace_back("joint_limits." + joint + "." + k, v);
  for (auto & [k, v] : q) ov.emplace_back("joint_limits." + other + "." + k, v);
  bool bad = declare && c.chance(6);
  if (bad)
  {
    std::string k = c.pick(VALUES);
    ov.emplace_back("joint_limits." + joint + "." + k, rclcpp::ParameterValue(c.coin() ? rclcpp::ParameterValue("text") : rclcpp::ParameterValue(true)));
    p[k] = ov.back().get_parameter_value();
  }
  c.note("joint %s: %s", joint.c_str(), show(p).c_str());
  o.parameter_overrides(ov);
  o.automatically_declare_parameters_from_overrides(!declare);
  bool lifecycle = c.coin();
  std::shared_ptr<rclcpp::Node> node;
  std::shared_ptr<rclcpp_lifecycle::LifecycleNode> lnode;
  if (lifecycle) lnode = std::make_shared<rclcpp_lifecycle::LifecycleNode>("n", "", o);
  else node = std::make_shared<rclcpp::Node>("n", o);
  if (declare)
  {
    bool r = lifecycle ? joint_limits::declare_parameters(joint, lnode) : joint_limits::declare_parameters(joint, node);
    c.checkf(r == !bad, "params.declare", "declare_parameters returned %d", r);
    if (bad) { c.label("wrong type"); return; }
    for (auto & f : FLAGS) if (!p.count(f)) p[f] = rclcpp::ParameterValue(false);
    for (auto & v : VALUES) if (!p.count(v)) p[v] = rclcpp::ParameterValue(NaN);
    if (!p.count("has_soft_limits")) p["has_soft_limits"] = rclcpp::ParameterValue(false);
    for (auto & v : SOFT) if (!p.count(v)) p[v] = rclcpp::ParameterValue(NaN);
    auto itf = lifecycle ? lnode->get_node_parameters_interface() : node->get_node_parameters_interface();
    for (auto & [k, v] : p)
    {
      std::string n = "joint_limits." + joint + "." + k;
      c.checkf(itf->has_parameter(n), "params.declared", "%s is not declared", n.c_str());
      auto g = itf->get_parameter(n).get_parameter_value();
      c.checkf(g.get_type() == v.get_type(), "params.declared_type", "%s has another type", n.c_str());
      if (v.get_type() == rclcpp::ParameterType::PARAMETER_DOUBLE) c.checkf(same(g.get<double>(), v.get<double>()), "params.declared_value", "%s is %g", n.c_str(), g.get<double>());
      else c.checkf(g.get<bool>() == v.get<bool>(), "params.declared_value", "%s is %d", n.c_str(), (int)g.get<bool>());
    }
  }
  JointLimits got = c.coin() ? JointLimits() : arbitrary(c), want = got;
  bool wr = from_params(p, want);
  bool r = lifecycle ? joint_limits::get_joint_limits(joint, lnode, got) : joint_limits::get_joint_limits(joint, node, got);
  int on = 0;
  for (size_t i = 0; i < 6; ++i) on += flag(want, i);
  c.label(strf("%d on", on));
  if (on) c.nontrivial();
  c.checkf(r == wr, "params.result", "get_joint_limits returned %d", r);
  c.checkf(equal(got, want), "params.limits", "limits are   %s\ninstead of   %s", show(got).c_str(), show(want).c_str());
  SoftJointLimits sg = arbitrary_soft(c), sw = sg;
  wr = from_params(p, sw);
  r = lifecycle ? joint_limits::get_joint_limits(joint, lnode, sg) : joint_limits::get_joint_limits(joint, node, sg);
  if (wr) c.label("soft");
  c.checkf(r == wr, "params.soft_result", "get_joint_limits(soft) returned %d", r);
  c.checkf(equal(sg, sw), "params.soft", "soft limits are %s instead of %s", show(sg).c_str(), show(sw).c_str());
}

// the documented effect of an update: numbers first, then flags; a flag is refused without a valid value
static void apply(const std::string & joint, const std::vector<rclcpp::Parameter> & ps, JointLimits & l, bool & named)
{
  named = false;
  auto key = [&](const rclcpp::Parameter & p) -> std::string {
    std::string pre = "joint_limits." + joint + ".";
    return p.get_name().compare(0, pre.size(), pre) == 0 ? p.get_name().substr(pre.size()) : "";
  };
  for (auto & p : ps)
    for (size_t i = 0; i < VALUES.size(); ++i)
      if (key(p) == VALUES[i]) { named = true; if (p.get_type() == rclcpp::ParameterType::PARAMETER_DOUBLE) value(l, i) = p.as_double(); }
  for (auto & p : ps)
    for (size_t i = 0; i < FLAGS.size(); ++i)
      if (key(p) == FLAGS[i])
      {
        named = true;
        if (p.get_type() != rclcpp::ParameterType::PARAMETER_BOOL) continue;
        bool on = p.as_bool();
        if (on && i == 0) on = l.min_position < l.max_position;
        else if (on && i < 6) on = !std::isnan(value(l, i + 1));
        else if (on) on = !l.has_position_limits;
        flag(l, i) = on;
      }
}
static void apply(const std::string & joint, const std::vector<rclcpp::Parameter> & ps, SoftJointLimits & s, bool & named)
{
  std::string pre = "joint_limits." + joint + ".";
  SoftJointLimits r = s;
  named = false;
  for (auto & p : ps)
  {
    if (p.get_name() == pre + "has_soft_limits" && p.get_type() == rclcpp::ParameterType::PARAMETER_BOOL && !p.as_bool()) return;
    double * d = p.get_name() == pre + "k_position" ? &r.k_position : p.get_name() == pre + "k_velocity" ? &r.k_velocity : p.get_name() == pre + "soft_lower_limit" ? &r.min_position : p.get_name() == pre + "soft_upper_limit" ? &r.max_position : nullptr;
    if (d) named = true;
    if (d && p.get_type() == rclcpp::ParameterType::PARAMETER_DOUBLE) *d = p.as_double();
  }
  s = r;
}
static std::vector<rclcpp::Parameter> update(Case & c, const std::vector<std::string> & joints, bool wrong_types)
{
  std::vector<rclcpp::Parameter> ps;
  size_t n = c.range(1, 4);
  std::string focus = c.pick(joints);
  // either single parameters or a flag together with its values
  for (size_t i = 0; i < n; ++i)
  {
    std::string pre = (c.chance(80) ? "joint_limits." + focus : c.chance(70) ? "joint_limits." + c.pick(joints) : std::string("other")) + ".";
    bool wrong = wrong_types && c.chance(6);
    auto val = [&]() { return wrong ? c.coin() ? rclcpp::ParameterValue((int64_t)3) : rclcpp::ParameterValue("x") : rclcpp::ParameterValue(pvalue(c)); };
    auto flg = [&]() { return wrong ? rclcpp::ParameterValue(1.0) : rclcpp::ParameterValue(c.chance(65)); };
    switch (c.weighted({4, 4, 2, 2}))
    {
      case 0: ps.emplace_back(pre + c.pick(VALUES), val()); break;
      case 1: ps.emplace_back(pre + c.pick(FLAGS), flg()); break;
      case 2: ps.emplace_back(pre + c.pick(SOFT), val()); if (c.chance(30)) ps.emplace_back(pre + "has_soft_limits", flg()); break;
      default:
      {
        size_t f = c.below(6);
        if (c.coin()) ps.emplace_back(pre + FLAGS[f], flg());
        if (f == 0) ps.emplace_back(pre + VALUES[0], val());
        ps.emplace_back(pre + VALUES[f + 1], val());
        if (c.coin()) ps.emplace_back(pre + FLAGS[f], flg());
      }
    }
  }
  return ps;
}
static std::string show(const std::vector<rclcpp::Parameter> & ps)
{
  std::string s;
  for (auto & p : ps) { Params m; m[p.get_name()] = p.get_parameter_value(); s += show(m); }
  return s;
}

static void update_history(Case & c)
{
  auto node = std::make_shared<rclcpp::Node>("n");
  auto log = node->get_node_logging_interface();
  std::vector<std::string> joints = {c.pick(NAMES)};
  if (c.coin()) joints.push_back(c.pick(NAMES));
  JointLimits got = c.coin() ? JointLimits() : arbitrary(c);
  SoftJointLimits sg = arbitrary_soft(c);
  size_t steps = c.range(1, 8);
  int changes = 0;
  for (size_t s = 0; s < steps; ++s)
  {
    auto ps = update(c, joints, true);
    c.notes("update " + show(ps));
    JointLimits before = got, want = got;
    bool named;
    apply(joints[0], ps, want, named);
    bool r = joint_limits::check_for_limits_update(joints[0], ps, log, got);
    c.checkf(equal(got, want), "update.limits", "limits are   %s\ninstead of   %s\nbefore       %s", show(got).c_str(), show(want).c_str(), show(before).c_str());
    if (!equal(before, want)) ++changes, c.checkf(r, "update.unreported", "limits changed, but no change was reported: %s -> %s", show(before).c_str(), show(got).c_str());
    if (!named) c.check(!r, "update.spurious", "a change was reported without naming a limit");
    SoftJointLimits sw = sg, sb = sg;
    apply(joints[0], ps, sw, named);
    r = joint_limits::check_for_limits_update(joints[0], ps, log, sg);
    c.checkf(equal(sg, sw), "update.soft", "soft limits are %s instead of %s", show(sg).c_str(), show(sw).c_str());
    if (!equal(sb, sw)) ++changes, c.checkf(r, "update.soft_unreported", "soft limits changed, but no change was reported");
    if (!named) c.check(!r, "update.soft_spurious", "a change was reported without naming a soft limit");
  }
  if (changes) c.nontrivial();
}

// a limiter that only remembers which limits it has to use
struct Probe : joint_limits::JointLimiterInterface<int>
{
  bool on_init() override { return true; }
  bool on_configure(const int &) override { return true; }
  bool on_enforce(const int &, int &, const rclcpp::Duration &) override { return false; }
  void reset_internals() override {}
  std::vector<JointLimits> & used() { return joint_limits_; }
};
static void limiter_history(Case & c)
{
  std::vector<std::string> joints;
  for (size_t i = 0, n = c.range(1, 3); i < n; ++i)
  {
    auto j = c.pick(NAMES);
    if (std::find(joints.begin(), joints.end(), j) == joints.end()) joints.push_back(j);
  }
  rclcpp::NodeOptions o;
  std::vector<rclcpp::Parameter> ov;
  std::vector<JointLimits> want(joints.size());
  for (size_t i = 0; i < joints.size(); ++i)
  {
    Params p = params(c, c.pick({30, 90}));
    for (auto & [k, v] : p) ov.emplace_back("joint_limits." + joints[i] + "." + k, v);
    for (auto & f : FLAGS) if (!p.count(f)) p[f] = rclcpp::ParameterValue(false);
    for (auto & v : VALUES) if (!p.count(v)) p[v] = rclcpp::ParameterValue(NaN);
    from_params(p, want[i]);
    c.note("joint %s: %s", joints[i].c_str(), show(p).c_str());
  }
  o.parameter_overrides(ov);
  auto node = std::make_shared<rclcpp::Node>("n", o);
  Probe probe;
  c.check(probe.init(joints, node), "limiter.init", "init failed");
  int dummy = 0, changes = 0;
  size_t steps = c.range(1, 8);
  for (size_t s = 0; s <= steps; ++s)
  {
    if (s && c.chance(70))
    {
      auto ps = update(c, joints, false);
      // soft limit parameters and foreign ones are not part of this node
      for (size_t i = 0; i < ps.size();) if (!node->has_parameter(ps[i].get_name())) ps.erase(ps.begin() + i); else ++i;
      c.notes("set " + show(ps));
      for (auto & p : ps)
      {
        auto r = node->set_parameters({p});
        c.check(r.size() == 1 && r[0].successful, "limiter.set", "setting a parameter was refused");
        bool named;
        for (size_t i = 0; i < joints.size(); ++i) { auto b = want[i]; apply(joints[i], {p}, want[i], named); changes += !equal(b, want[i]); }
      }
    }
    else
    {
      c.notes("enforce");
      probe.enforce(dummy, dummy, rclcpp::Duration::from_seconds(0.01));
      for (size_t i = 0; i < joints.size(); ++i)
        c.checkf(equal(probe.used()[i], want[i]), "limiter.limits", "limits used for %s are %s\ninstead of %s", joints[i].c_str(), show(probe.used()[i]).c_str(), show(want[i]).c_str());
    }
  }
  probe.enforce(dummy, dummy, rclcpp::Duration::from_seconds(0.01));
  for (size_t i = 0; i < joints.size(); ++i)
    c.checkf(equal(probe.used()[i], want[i]), "limiter.limits", "limits used for %s are %s\ninstead of %s", joints[i].c_str(), show(probe.used()[i]).c_str(), show(want[i]).c_str());
  if (changes) c.nontrivial();
}

// limits handed over directly
static void limiter_direct(Case & c)
{
  std::vector<std::string> joints(c.below(4), "j");
  std::vector<JointLimits> l;
  for (size_t i = 0, n = c.chance(80) ? joints.size() : c.below(4); i < n; ++i) l.push_back(arbitrary(c));
  Probe p;
  bool r = p.init(joints, l, {}, nullptr, nullptr);
  c.checkf(r == (l.size() == joints.size()), "direct.init", "init with %zu joints and %zu limits returned %d", joints.size(), l.size(), r);
  if (!r) return;
  int d = 0;
  p.enforce(d, d, rclcpp::Duration::from_seconds(0.1));
  c.check(p.used().size() == l.size(), "direct.size", "other number of limits");
  for (size_t i = 0; i < l.size(); ++i) c.checkf(equal(p.used()[i], l[i]), "direct.limits", "limits used: %s given: %s", show(p.used()[i]).c_str(), show(l[i]).c_str());
  if (l.size() > 1) c.nontrivial();
}

// ---------------------------------------------------------------- hardware description
struct Itf
{
  std::string name, min, max;       // texts, empty: not given
  bool enable = true, enable_given = false, valid = true;
  double lo = NaN, hi = NaN;
};
static std::string text(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
static void hardware_description(Case & c)
{
  struct J { std::string name; int type; bool lim, safe, enable, enable_given; double lo, hi, vel, eff, slo, shi, kp, kv; std::vector<Itf> itf; };
  std::vector<J> js;
  size_t n = c.range(1, 3);
  static const char * TYPE[] = {"revolute", "prismatic", "continuous"};
  std::string links = "<link name=\"l0\"/>", joints, hw;
  for (size_t i = 0; i < n; ++i)
  {
    J j;
    j.name = "joint" + std::to_string(i ? i * 9 + 1 : 1);
    j.type = c.below(3);
    j.lim = j.type < 2 || c.coin();
    j.lo = number(c), j.hi = number(c);
    if (j.lo > j.hi) std::swap(j.lo, j.hi);
    j.vel = std::fabs(number(c)), j.eff = std::fabs(number(c));
    j.safe = c.chance(40);
    j.slo = number(c), j.shi = number(c), j.kp = std::fabs(number(c)), j.kv = std::fabs(number(c));
    links += strf("<link name=\"l%zu\"/>", i + 1);
    joints += strf("<joint name=\"%s\" type=\"%s\"><parent link=\"l%zu\"/><child link=\"l%zu\"/><axis xyz=\"0 0 1\"/>", j.name.c_str(), TYPE[j.type], i, i + 1);
    if (j.lim) joints += "<limit " + (j.type < 2 || c.coin() ? "lower=\"" + text(j.lo) + "\" upper=\"" + text(j.hi) + "\" " : "") + "velocity=\"" + text(j.vel) + "\" effort=\"" + text(j.eff) + "\"/>";
    if (j.safe) joints += "<safety_controller soft_lower_limit=\"" + text(j.slo) + "\" soft_upper_limit=\"" + text(j.shi) + "\" k_position=\"" + text(j.kp) + "\" k_velocity=\"" + text(j.kv) + "\"/>";
    joints += "</joint>";
    j.enable = !c.chance(15);
    j.enable_given = !j.enable || c.coin();
    std::vector<std::string> kinds = {"position", "velocity", "effort", "acceleration", "jerk", "current"};
    c.shuffle(kinds);
    kinds.resize(c.below(6));
    hw += "<joint name=\"" + j.name + "\">";
    if (j.enable_given) hw += strf("<limits enable=\"%s\"/>", j.enable ? "true" : "false");
    for (auto & k : kinds)
    {
      Itf f;
      f.name = k;
      f.enable = !c.chance(20);
      f.enable_given = !f.enable || c.coin();
      bool bad = c.chance(7);
      if (c.chance(70)) f.lo = k == "position" ? number(c) : -std::fabs(number(c)), f.min = text(f.lo);
      if (c.chance(70)) f.hi = k == "position" ? number(c) : std::fabs(number(c)), f.max = text(f.hi);
      if (k == "position" && f.lo > f.hi) std::swap(f.lo, f.hi), std::swap(f.min, f.max);
      if (bad && !f.max.empty() && c.coin()) f.max = c.pick<std::string>({"abc", "1,5", "0x", "nan"}), f.valid = false;
      else if (bad && !f.min.empty()) f.min = c.pick<std::string>({"abc", "--1", "1..2", "NaN"}), f.valid = false;
      hw += "<command_interface name=\"" + k + "\">";
      std::vector<std::string> parts;
      if (!f.min.empty()) parts.push_back("<param name=\"min\">" + f.min + "</param>");
      if (!f.max.empty()) parts.push_back("<param name=\"max\">" + f.max + "</param>");
      if (f.enable_given) parts.push_back(strf("<limits enable=\"%s\"/>", f.enable ? "true" : "false"));
      c.shuffle(parts);
      for (auto & p : parts) hw += p;
      hw += "</command_interface>";
      j.itf.push_back(f);
    }
    hw += "<state_interface name=\"position\"><param name=\"min\">-0.5</param><param name=\"max\">0.25</param></state_interface></joint>";
    js.push_back(j);
  }
  std::string doc = "<?xml version=\"1.0\"?><robot name=\"r\">" + links + joints + "<ros2_control name=\"h\" type=\"system\"><hardware><plugin>p</plugin></hardware>" + hw + "</ros2_control></robot>";
  c.notes(doc);
  auto info = hardware_interface::parse_control_resources_from_urdf(doc);
  c.check(info.size() == 1 && info[0].limits.size() == n, "hw.count", "number of joints with limits");
  int used = 0;
  for (auto & j : js)
  {
    JointLimits w;
    if (j.lim)
    {
      if (j.type < 2) w.has_position_limits = true, w.min_position = j.lo, w.max_position = j.hi;
      w.has_velocity_limits = w.has_effort_limits = true, w.max_velocity = j.vel, w.max_effort = j.eff;
    }
    for (auto & f : j.itf)
    {
      if (!j.enable) break;
      bool any = f.valid && (!f.min.empty() || !f.max.empty());
      auto lim = [&](bool & has, double & m) {
        double lo = f.min.empty() ? INFINITY : std::fabs(f.lo), hi = f.max.empty() ? INFINITY : f.hi;
        if (any) m = std::min(std::min(lo, hi), has ? m : INFINITY), has = true, ++used;
        has = has && f.enable;
      };
      if (f.name == "position")
      {
        if (any)
        {
          double big = std::numeric_limits<double>::max();
          if (!w.has_position_limits) w.min_position = -big, w.max_position = big;
          if (!f.min.empty()) w.min_position = std::max(w.min_position, f.lo);
          if (!f.max.empty()) w.max_position = std::min(w.max_position, f.hi);
          w.has_position_limits = true, ++used;
        }
        w.has_position_limits = w.has_position_limits && f.enable;
      }
      else if (f.name == "velocity") lim(w.has_velocity_limits, w.max_velocity);
      else if (f.name == "effort") lim(w.has_effort_limits, w.max_effort);
      else if (f.name == "acceleration" && any)
      {
        if (!f.min.empty()) w.has_deceleration_limits = f.enable, w.max_deceleration = std::fabs(f.lo);
        if (!f.max.empty()) w.has_acceleration_limits = f.enable, w.max_acceleration = f.hi;
        ++used;
      }
      else if (f.name == "jerk" && any && !f.max.empty()) w.has_jerk_limits = f.enable, w.max_jerk = f.hi, ++used;
    }
    if (!j.enable) w = JointLimits();
    c.checkf(info[0].limits.count(j.name), "hw.joint", "no limits for %s", j.name.c_str());
    auto g = info[0].limits[j.name];
    c.checkf(equal_on(g, w), "hw.limits", "%s: limits are   %s\ninstead of   %s", j.name.c_str(), show(g).c_str(), show(w).c_str());
    c.checkf(g.angle_wraparound == (j.lim && j.type == 2), "hw.wraparound", "%s: wraparound %d", j.name.c_str(), g.angle_wraparound);
    c.checkf(info[0].soft_limits.count(j.name) == j.safe, "hw.soft_given", "%s: soft limits given: %d", j.name.c_str(), !j.safe);
    if (!j.safe) continue;
    SoftJointLimits s;
    s.min_position = j.slo, s.max_position = j.shi, s.k_position = j.kp, s.k_velocity = j.kv;
    if (w.has_position_limits) s.min_position = std::max(s.min_position, w.min_position), s.max_position = std::min(s.max_position, w.max_position);
    c.checkf(equal(info[0].soft_limits[j.name], s), "hw.soft", "%s: soft limits %s instead of %s", j.name.c_str(), show(info[0].soft_limits[j.name]).c_str(), show(s).c_str());
  }
  c.label(strf("%d interface limits", std::min(used, 6)));
  if (used) c.nontrivial();
}

int main(int argc, char ** argv)
{
  Options o;
  o.property = "C12";
  o.rule = "at least one limit is switched on or changed by the source under test";
  o.quick_cases = 200000;
  o.thorough_cases = 12000000;
  o.quick_cap_s = 40;
  o.thorough_cap_s = 600;
  o.assumptions = {"node parameters are those of the ROS replacement (shim), which keeps types strictly as rclcpp does",
    "numbers of limits that are switched off are not compared for hardware descriptions", "an interface or joint of a description names every kind at most once"};
  return run(argc, argv, o, {{"model", 1, model_joint}, {"params", 2, node_params}, {"update", 3, update_history}, {"limiter", 2, limiter_history}, {"direct", 1, limiter_direct}, {"hardware", 3, hardware_description}});
}
