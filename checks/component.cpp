// C03: hardware components driven by random requests, reads and writes with scripted outcomes of
// every callback, against the managed life cycle.
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace hardware_interface;
using S = lifecycle_msgs::msg::State;

enum Out { OK, FAIL, ERR, THROW };
static const char * out_name[] = {"success", "failure", "error", "exception"};
struct Boom : std::runtime_error
{
  Boom() : std::runtime_error("boom") {}
};
struct Call
{
  std::string name;
  int from = -1;  // state passed to the callback
  int id = -1;    // state of the component while it runs
};
struct Script
{
  Out main = OK, err = OK;
  return_type io = return_type::OK;
  bool io_throw = false;
  return_type prep = return_type::OK;
  std::vector<Call> calls;
  rclcpp::Time t{0, 0, RCL_CLOCK_UNINITIALIZED};
  rclcpp::Duration d{0, 0};
  std::vector<std::string> start, stop;
};
template <class Base>
struct Hw : Base
{
  Script * s;
  explicit Hw(Script * s_) : s(s_) {}
  CallbackReturn ret(Out o)
  {
    switch (o)
    {
      case OK: return CallbackReturn::SUCCESS;
      case FAIL: return CallbackReturn::FAILURE;
      case ERR: return CallbackReturn::ERROR;
      default: throw Boom();
    }
  }
  CallbackReturn cb(const char * n, const rclcpp_lifecycle::State & st, Out o)
  {
    s->calls.push_back({n, st.id(), this->get_lifecycle_state().id()});
    return ret(o);
  }
  CallbackReturn on_init(const HardwareComponentInterfaceParams & p) override
  {
    s->calls.push_back({"on_init", -1, this->get_lifecycle_state().id()});
    Base::on_init(p);
    return ret(s->main);
  }
  CallbackReturn on_configure(const rclcpp_lifecycle::State & st) override { return cb("on_configure", st, s->main); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State & st) override { return cb("on_cleanup", st, s->main); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State & st) override { return cb("on_shutdown", st, s->main); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State & st) override { return cb("on_activate", st, s->main); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State & st) override { return cb("on_deactivate", st, s->main); }
  CallbackReturn on_error(const rclcpp_lifecycle::State & st) override { return cb("on_error", st, s->err); }
  return_type io(const char * n, const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    s->calls.push_back({n, -1, this->get_lifecycle_state().id()});
    s->t = t;
    s->d = d;
    if (s->io_throw) throw Boom();
    return s->io;
  }
  return_type read(const rclcpp::Time & t, const rclcpp::Duration & d) override { return io("read", t, d); }
  return_type prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    s->calls.push_back({"prepare", -1, this->get_lifecycle_state().id()});
    s->start = a;
    s->stop = b;
    return s->prep;
  }
  return_type perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    s->calls.push_back({"perform", -1, this->get_lifecycle_state().id()});
    s->start = a;
    s->stop = b;
    return s->prep;
  }
};
template <class Base>
struct HwW : Hw<Base>
{
  using Hw<Base>::Hw;
  return_type write(const rclcpp::Time & t, const rclcpp::Duration & d) override { return this->io("write", t, d); }
};
static const char * label(int id)
{
  switch (id)
  {
    case S::PRIMARY_STATE_UNKNOWN: return "unknown";
    case S::PRIMARY_STATE_UNCONFIGURED: return "unconfigured";
    case S::PRIMARY_STATE_INACTIVE: return "inactive";
    case S::PRIMARY_STATE_ACTIVE: return "active";
    case S::PRIMARY_STATE_FINALIZED: return "finalized";
    default: return "?";
  }
}
struct Sim
{
  std::unique_ptr<Script> s = std::make_unique<Script>();
  std::unique_ptr<HardwareComponent> comp;
  std::string type, name;
  int state = S::PRIMARY_STATE_UNKNOWN;
};
static Sim make(Case & c, int i)
{
  Sim m;
  m.type = c.pick<std::string>({"actuator", "sensor", "system"});
  m.name = strf("hw%d", i);
  std::unique_ptr<HardwareComponentInterface> impl;
  if (m.type == "actuator") impl = std::make_unique<HwW<ActuatorInterface>>(m.s.get());
  if (m.type == "system") impl = std::make_unique<HwW<SystemInterface>>(m.s.get());
  if (m.type == "sensor") impl = std::make_unique<Hw<SensorInterface>>(m.s.get());
  // as the resource manager does, which keeps components in containers
  HardwareComponent hc(std::move(impl));
  m.comp = std::make_unique<HardwareComponent>(std::move(hc));
  return m;
}
static Out outcome(Case & c) { return static_cast<Out>(c.weighted({14, 4, 4, 1})); }
static std::vector<std::string> names(Case & c)
{
  std::vector<std::string> v;
  while (c.more(1)) v.push_back(strf("j%d/position", c.range(0, 3)));
  return v;
}

static void check_state(Case & c, Sim & m, const char * after)
{
  const auto & st = m.comp->get_lifecycle_state();
  c.checkf(st.id() == m.state && st.label() == label(m.state) && m.comp->get_lifecycle_id() == m.state, "state",
           "after %s of %s %s: component is %s (%d, cached %d), expected %s", after, m.type.c_str(), m.name.c_str(), st.label().c_str(), st.id(), m.comp->get_lifecycle_id(), label(m.state));
}
static void expect_calls(Case & c, Sim & m, const char * after, const std::vector<std::string> & want)
{
  std::string got, exp;
  for (auto & k : m.s->calls) got += k.name + " ";
  for (auto & k : want) exp += k + " ";
  c.checkf(got == exp, "callbacks", "%s of the %s %s component ran [%s], expected [%s]", after, label(m.state), m.type.c_str(), got.c_str(), exp.c_str());
}
static void test_lifecycle(Case & c)
{
  std::vector<Sim> sims;
  int n = c.chance(25) ? 2 : 1;
  for (int i = 0; i < n; ++i) sims.push_back(make(c, i));
  int64_t now = c.range(1, 1000);
  int visited = 0, outcomes = 0;
  while (c.more(20))
  {
    Sim & m = sims[n == 1 ? 0 : c.below(n)];
    std::vector<int> others;
    for (auto & o : sims) others.push_back(o.state);
    Script & s = *m.s;
    s.calls.clear();
    if (m.state == S::PRIMARY_STATE_FINALIZED && c.chance(25)) break;
    s.main = m.state == S::PRIMARY_STATE_UNKNOWN && c.chance(70) ? OK : outcome(c);
    s.err = outcome(c);
    s.io_throw = false;
    s.prep = c.chance(70) ? return_type::OK : return_type::ERROR;
    const int from = m.state;
    bool initialised = from != S::PRIMARY_STATE_UNKNOWN;
    // operations that make progress are preferred, the others are drawn too
    int op = c.weighted({!initialised ? 30u : 1u, from == S::PRIMARY_STATE_UNCONFIGURED ? 10u : 2u, 2, 1, from == S::PRIMARY_STATE_INACTIVE ? 8u : 2u, 2, 1, 4, initialised ? 4u : 1u, 1, 1});
    static const char * op_names[] = {"initialize", "configure", "cleanup", "shutdown", "activate", "deactivate", "error", "read", "write", "mode switch", "move"};
    const char * on = op_names[op];
    std::vector<std::string> want;
    int to = from;
    bool thrown = false, want_throw = false;
    // what the error handling leads to
    auto error_to = [&]
    {
      want.push_back("on_error");
      if (s.err == THROW) want_throw = true;
      else to = s.err == OK ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
    };
    const rclcpp_lifecycle::State * ret = nullptr;
    c.note("%s.%s main=%s on_error=%s from %s", m.name.c_str(), on, out_name[s.main], out_name[s.err], label(from));
    auto legal = [&](const char * cbn, std::initializer_list<int> from_states, int ok, int fail)
    {
      bool may = false;
      for (int f : from_states) may |= f == from;
      if (!may) return;
      ++outcomes;
      want.push_back(cbn);
      if (s.main == THROW) want_throw = true;
      else if (s.main == OK) to = ok;
      else if (s.main == FAIL && fail >= 0) to = fail;
      else error_to();
    };
    try
    {
      switch (op)
      {
        case 0:
        {
          if (!initialised)
          {
            want.push_back("on_init");
            if (s.main == THROW) want_throw = true;
            else to = s.main == OK ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
          }
          HardwareComponentParams p{};
          p.hardware_info = HardwareInfo{};
          p.hardware_info.name = m.name;
          p.hardware_info.type = m.type;
          p.hardware_info.group = c.coin() ? "g" : "";
          p.clock = std::make_shared<rclcpp::Clock>();
          p.logger = rclcpp::get_logger("hw");
          ret = &m.comp->initialize(p);
          break;
        }
        case 1: legal("on_configure", {S::PRIMARY_STATE_UNCONFIGURED}, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED); ret = &m.comp->configure(); break;
        case 2: legal("on_cleanup", {S::PRIMARY_STATE_INACTIVE}, S::PRIMARY_STATE_UNCONFIGURED, -1); ret = &m.comp->cleanup(); break;
        case 3: legal("on_shutdown", {S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE}, S::PRIMARY_STATE_FINALIZED, -1); ret = &m.comp->shutdown(); break;
        case 4: legal("on_activate", {S::PRIMARY_STATE_INACTIVE}, S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE); ret = &m.comp->activate(); break;
        case 5: legal("on_deactivate", {S::PRIMARY_STATE_ACTIVE}, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE); ret = &m.comp->deactivate(); break;
        case 6:
          if (from == S::PRIMARY_STATE_INACTIVE || from == S::PRIMARY_STATE_ACTIVE) { ++outcomes; error_to(); }
          ret = &m.comp->error();
          break;
        case 7:
        case 8:
        {
          bool rd = op == 7;
          int k = c.weighted({8, 4, 2, 1});
          s.io = k == 1 ? return_type::ERROR : k == 2 ? return_type::DEACTIVATE : return_type::OK;
          s.io_throw = k == 3;
          now += c.range(1, 50);
          rclcpp::Time t(now * 1000000, RCL_STEADY_TIME);
          rclcpp::Duration d(std::chrono::nanoseconds(c.range(0, 1000) * 1000));
          bool runs = rd ? from == S::PRIMARY_STATE_INACTIVE || from == S::PRIMARY_STATE_ACTIVE : from == S::PRIMARY_STATE_ACTIVE && m.type != "sensor";
          if (runs)
          {
            ++outcomes;
            want.push_back(rd ? "read" : "write");
            if (s.io_throw) want_throw = true;
            else if (s.io == return_type::ERROR) error_to();
          }
          c.note("  returns %s", s.io_throw ? "exception" : s.io == return_type::OK ? "ok" : s.io == return_type::ERROR ? "error" : "deactivate");
          auto r = rd ? m.comp->read(t, d) : m.comp->write(t, d);
          c.checkf(r == (runs ? s.io : return_type::OK), "io-result", "%s of the %s component returned %d", on, label(from), static_cast<int>(r));
          if (runs)
          {
            c.checkf(s.t == t && s.d == d, "io-time", "%s was given another time or period", on);
            c.checkf((rd ? m.comp->get_last_read_time() : m.comp->get_last_write_time()) == t, "io-stamp", "the time of the last %s is not that of the call", on);
          }
          break;
        }
        case 9:
        {
          if (from != S::PRIMARY_STATE_INACTIVE && from != S::PRIMARY_STATE_ACTIVE) break;
          auto a = names(c), b = names(c);
          bool prep = c.coin();
          auto r = prep ? m.comp->prepare_command_mode_switch(a, b) : m.comp->perform_command_mode_switch(a, b);
          if (m.type == "sensor") break;
          want.push_back(prep ? "prepare" : "perform");
          c.checkf(r == s.prep && s.start == a && s.stop == b, "mode-switch", "mode switch request is not passed on unchanged");
          break;
        }
        default:
        {
          if (!initialised) break;
          m.comp = std::make_unique<HardwareComponent>(std::move(*m.comp));
          c.checkf(m.comp->get_name() == m.name, "name", "name %s, expected %s", m.comp->get_name().c_str(), m.name.c_str());
          break;
        }
      }
    }
    catch (const Boom &)
    {
      thrown = true;
    }
    c.checkf(thrown == want_throw, "exception", "%s of the %s component %s", on, label(from), thrown ? "let an exception through nobody threw" : "swallowed the exception of a callback");
    if (m.type == "sensor" && op == 9) s.calls.clear();
    expect_calls(c, m, on, want);
    // the callbacks see the state they are called from
    for (auto & k : s.calls) c.checkf(k.id == from && (k.from == -1 || k.from == from), "callback-state", "%s ran in %s with %s as previous state, expected %s", k.name.c_str(), label(k.id), label(k.from), label(from));
    m.state = to;
    if (ret && !thrown) c.checkf(ret->id() == to && ret->label() == label(to), "returned-state", "%s returned %s, the component is %s", on, ret->label().c_str(), label(to));
    check_state(c, m, on);
    for (size_t i = 0; i < sims.size(); ++i)
      if (&sims[i] != &m) c.checkf(sims[i].comp->get_lifecycle_state().id() == others[i] && sims[i].state == others[i], "other", "%s of %s changed the state of %s", on, m.name.c_str(), sims[i].name.c_str());
    visited |= 1 << to;
    c.label(strf("%s from %s: %s", on, label(from), want.empty() ? "nothing to do" : label(to)));
  }
  if (outcomes >= 4 && (visited & (1 << S::PRIMARY_STATE_INACTIVE))) c.nontrivial();
}
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C03";
  o.rule = "the history reached inactive and ran at least four callbacks";
  o.quick_cases = 300000;
  o.thorough_cases = 6000000;
  o.quick_cap_s = 25;
  o.thorough_cap_s = 400;
  return run(argc, argv, o, {{"lifecycle", 1, test_lifecycle}});
}
