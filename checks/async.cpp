// C34: hardware components and controllers that run asynchronously.  The worker's schedule is owned by
// the test: a pending cycle runs exactly when the test says so (before, between and during the calls
// of the control loop and of the life cycle), so that every order can be produced.  A second test runs
// them on real threads and watches for overlaps.
#include "controller_interface/controller_interface.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/hardware_component.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "pbt.hpp"
using namespace pbt;
using S = lifecycle_msgs::msg::State;
enum Out { OK, FAIL, ERR };
static const char * out_name[] = {"success", "failure", "error"};
static const char * label(int id)
{
  switch (id)
  {
    case S::PRIMARY_STATE_UNKNOWN: return "unknown";
    case S::PRIMARY_STATE_UNCONFIGURED: return "unconfigured";
    case S::PRIMARY_STATE_INACTIVE: return "inactive";
    case S::PRIMARY_STATE_ACTIVE: return "active";
    case S::PRIMARY_STATE_FINALIZED: return "finalized";
    default: return "in transition";
  }
}
constexpr int UNCONF = S::PRIMARY_STATE_UNCONFIGURED, INACT = S::PRIMARY_STATE_INACTIVE, ACT = S::PRIMARY_STATE_ACTIVE, FIN = S::PRIMARY_STATE_FINALIZED;

// ---------------------------------------------------------------------- hardware
namespace hwt
{
using namespace hardware_interface;
struct Io
{
  bool rd;
  int state;
  int64_t t, d;
};
struct Script
{
  Out main = OK, err = OK;
  return_type read = return_type::OK, write = return_type::OK;
  std::vector<std::string> calls;  // life cycle
  std::vector<Io> ios;
  std::string bad;  // the first thing that must not happen
  bool threads = false;
  int pause_us = 0;
  std::atomic<int> inside{0};
  std::mutex m;
  void enter(const char * n)
  {
    if (inside.fetch_add(1) != 0)
    {
      std::lock_guard<std::mutex> g(m);
      if (bad.empty()) bad = std::string(n) + " started while another callback was running";
    }
  }
  void leave() { --inside; }
};
template <class Base>
struct Hw : Base
{
  Script * s;
  explicit Hw(Script * s_) : s(s_) {}
  CallbackReturn cb(const char * n, Out o)
  {
    s->enter(n);
    if (s->threads)
    {
      if (s->pause_us) std::this_thread::sleep_for(std::chrono::microseconds(s->pause_us));
    }
    else
    {
      // a worker that is not held back would run now
      size_t k = s->ios.size();
      shim::async_step_all();
      if (s->ios.size() != k && s->bad.empty()) s->bad = std::string("a cycle was still due while ") + n + " was running";
    }
    s->calls.push_back(n);
    s->leave();
    return o == OK ? CallbackReturn::SUCCESS : o == FAIL ? CallbackReturn::FAILURE : CallbackReturn::ERROR;
  }
  CallbackReturn on_init(const HardwareComponentInterfaceParams & p) override { return Base::on_init(p); }
  CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return cb("on_configure", s->main); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return cb("on_cleanup", s->main); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return cb("on_shutdown", s->main); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return cb("on_activate", s->main); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return cb("on_deactivate", s->main); }
  CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return cb("on_error", s->err); }
  return_type io(bool rd, const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    s->enter(rd ? "read" : "write");
    if (s->threads && s->pause_us) std::this_thread::sleep_for(std::chrono::microseconds(s->pause_us));
    return_type r;
    {
      std::lock_guard<std::mutex> g(s->m);
      s->ios.push_back({rd, this->get_lifecycle_id(), t.nanoseconds(), d.nanoseconds()});
      r = rd ? s->read : s->write;
    }
    s->leave();
    return r;
  }
  return_type read(const rclcpp::Time & t, const rclcpp::Duration & d) override { return io(true, t, d); }
};
template <class Base>
struct HwW : Hw<Base>
{
  using Hw<Base>::Hw;
  return_type write(const rclcpp::Time & t, const rclcpp::Duration & d) override { return this->io(false, t, d); }
};
static const char * rname(return_type r) { return r == return_type::OK ? "ok" : r == return_type::ERROR ? "error" : "deactivate"; }

struct Sim
{
  Case & c;
  Script s;
  std::unique_ptr<HardwareComponent> comp;
  std::string type;
  int state = S::PRIMARY_STATE_UNKNOWN;
  bool async = true;
  // the worker
  bool pending = false;
  int64_t pt = 0, pd = 0;
  bool may_read = false;   // what a read or write left behind is from before a change of state
  return_type r_res = return_type::OK, w_res = return_type::OK;
  std::vector<std::string> want;
  int n_err = 0, n_steps = 0, n_busy = 0, n_trans_pending = 0;

  Sim(Case & cc) : c(cc) {}
  void make(bool is_async)
  {
    async = is_async;
    type = c.pick<std::string>({"actuator", "sensor", "system", "system"});
    std::unique_ptr<HardwareComponentInterface> impl;
    if (type == "actuator") impl = std::make_unique<HwW<ActuatorInterface>>(&s);
    if (type == "system") impl = std::make_unique<HwW<SystemInterface>>(&s);
    if (type == "sensor") impl = std::make_unique<Hw<SensorInterface>>(&s);
    // as the resource manager does, which keeps components in containers
    HardwareComponent hc(std::move(impl));
    comp = std::make_unique<HardwareComponent>(std::move(hc));
    HardwareComponentParams p{};
    p.hardware_info = HardwareInfo{};
    p.hardware_info.name = "hw";
    p.hardware_info.type = type;
    p.hardware_info.is_async = async;
    p.hardware_info.async_params.print_warnings = false;
    p.hardware_info.rw_rate = 100;
    p.clock = std::make_shared<rclcpp::Clock>();
    p.logger = rclcpp::get_logger("hw");
    comp->initialize(p);
    state = UNCONF;
  }
  void bad()
  {
    std::lock_guard<std::mutex> g(s.m);
    c.checkf(s.bad.empty(), "overlap", "%s", s.bad.c_str());
  }
  // the worker runs its cycle: what has to be seen then
  void expect_step(size_t from, const char * when)
  {
    if (!pending)
    {
      c.checkf(s.ios.size() == from, "untriggered", "%s: a read or write ran although no cycle was due", when);
      return;
    }
    pending = false;
    ++n_steps;
    c.checkf(s.ios.size() > from && s.ios[from].rd, "no read", "%s: the triggered cycle did not run read", when);
    auto same = [&](const Io & i) { return i.t == pt && i.d == pd; };
    c.checkf(same(s.ios[from]), "time", "%s: read got another time or period than its cycle", when);
    r_res = s.read;
    bool wr = s.read == return_type::OK && type != "sensor" && state == ACT;
    c.checkf(s.ios.size() == from + (wr ? 2 : 1), "write", "%s: the %s component %s after read", when, label(state), wr ? "did not write" : "wrote");
    if (wr)
    {
      c.checkf(!s.ios.back().rd && same(s.ios.back()), "time", "%s: write got another time or period than its cycle", when);
      if (w_res == return_type::OK) w_res = s.write;
    }
    for (size_t i = from; i < s.ios.size(); ++i) c.checkf(s.ios[i].state == state, "state", "%s: %s ran in %s instead of %s", when, s.ios[i].rd ? "read" : "write", label(s.ios[i].state), label(state));
  }
  void error_to()
  {
    want.push_back("on_error");
    state = s.err == OK ? UNCONF : FIN;
  }
  void check_state(const char * what)
  {
    auto join = [](const std::vector<std::string> & v) { std::string r; for (auto & x : v) r += x + " "; return r; };
    c.checkf(s.calls == want, "callbacks", "%s ran [%s] instead of [%s]", what, join(s.calls).c_str(), join(want).c_str());
    c.checkf(comp->get_lifecycle_state().id() == state && comp->get_lifecycle_id() == state, "lifecycle", "after %s the component is %s instead of %s", what, label(comp->get_lifecycle_state().id()), label(state));
  }
};

static void test_hardware(Case & c)
{
  shim::async_manual().enabled = true;
  shim::async_manual().handlers.clear();
  auto sim = std::make_unique<Sim>(c);
  auto & m = *sim;
  auto & s = m.s;
  m.make(true);
  int64_t now = c.range(1, 1000) * 1'000'000;
  auto outcome = [&] { return static_cast<Out>(c.weighted({14, 2, 2})); };
  auto io_out = [&] { int k = static_cast<int>(c.weighted({12, 3, 1})); return k == 0 ? return_type::OK : k == 1 ? return_type::ERROR : return_type::DEACTIVATE; };
  while (c.more(40))
  {
    s.calls.clear();
    m.want.clear();
    s.main = outcome();
    s.err = c.chance(85) ? OK : c.pick<Out>({FAIL, ERR});
    s.read = io_out();
    s.write = io_out();
    const int from = m.state;
    if (from == FIN && c.chance(40)) break;
    size_t ios = s.ios.size();
    int op = c.weighted({12, 8, 10, from == UNCONF ? 10u : 1u, from == INACT ? 8u : 1u, 2, 1, 1, 1});
    auto legal = [&](const char * n, bool may, int ok, int fail, auto call)
    {
      (m.comp.get()->*call)();
      if (!may) return;
      if (m.pending) ++m.n_trans_pending;
      m.expect_step(ios, n);
      m.want.push_back(n);
      if (s.main == OK) m.state = ok;
      else if (s.main == FAIL && fail >= 0) m.state = fail;
      else m.error_to();
    };
    switch (op)
    {
      case 0:
      case 1:
      {
        bool rd = op == 0;
        int64_t per = c.range(1, 20) * 1'000'000;
        now += per;
        c.note("%s (the worker would see read %s, write %s; on_error %s)", rd ? "read" : "write", rname(s.read), rname(s.write), out_name[s.err]);
        rclcpp::Time t(now, RCL_STEADY_TIME);
        rclcpp::Duration d(std::chrono::nanoseconds{per});
        auto r = rd ? m.comp->read(t, d) : m.comp->write(t, d);
        return_type want = return_type::OK;
        bool runs = rd ? from == INACT || from == ACT : from == ACT && m.type != "sensor";
        if (runs)
        {
          if (rd && m.pending) ++m.n_busy;  // a cycle in progress is left alone
          else if (rd)
          {
            want = m.r_res;
            m.pending = true;
            m.pt = now;
            m.pd = per;
          }
          else
          {
            want = m.w_res;
            m.w_res = return_type::OK;
          }
          if (want == return_type::ERROR)
          {
            ++m.n_err;
            m.expect_step(ios, "error handling");
            m.error_to();
          }
        }
        c.checkf(r == want, rd ? "read result" : "write result", "%s of the %s component returned %s instead of %s", rd ? "read" : "write", label(from), rname(r), rname(want));
        if (want != return_type::ERROR) c.checkf(s.ios.size() == ios, "ran in the loop", "the control loop itself ran read or write of an asynchronous component");
        break;
      }
      case 2:
        c.note("the worker runs%s: read %s, write %s", m.pending ? "" : " (nothing due)", rname(s.read), rname(s.write));
        shim::async_step_all();
        m.expect_step(ios, "the worker");
        break;
      case 3: c.note("configure: %s, on_error %s", out_name[s.main], out_name[s.err]); legal("on_configure", from == UNCONF, INACT, UNCONF, &HardwareComponent::configure); if (from == UNCONF) m.r_res = m.w_res = return_type::OK; break;
      case 4: c.note("activate: %s, on_error %s", out_name[s.main], out_name[s.err]); legal("on_activate", from == INACT, ACT, INACT, &HardwareComponent::activate); if (from == INACT) m.r_res = m.w_res = return_type::OK; break;
      case 5: c.note("deactivate: %s, on_error %s", out_name[s.main], out_name[s.err]); legal("on_deactivate", from == ACT, INACT, ACT, &HardwareComponent::deactivate); break;
      case 6: c.note("cleanup: %s, on_error %s", out_name[s.main], out_name[s.err]); legal("on_cleanup", from == INACT, UNCONF, -1, &HardwareComponent::cleanup); break;
      case 7: c.note("shutdown: %s, on_error %s", out_name[s.main], out_name[s.err]); legal("on_shutdown", from == UNCONF || from == INACT || from == ACT, FIN, -1, &HardwareComponent::shutdown); break;
      default:
        c.note("error, on_error %s", out_name[s.err]);
        m.comp->error();
        if (from == INACT || from == ACT)
        {
          m.expect_step(ios, "error handling");
          m.error_to();
        }
    }
    m.bad();
    m.check_state("the step");
  }
  // the component goes away with whatever is due
  size_t ios = s.ios.size();
  m.comp.reset();
  shim::async_step_all();
  c.checkf(s.ios.size() == ios, "after the end", "a read or write ran after the component was removed");
  m.bad();
  c.label(m.n_err ? "errors reported" : "no errors");
  if (m.n_busy) c.label("triggered while busy");
  if (m.n_trans_pending) c.label("transition with a cycle due");
  c.nontrivial(m.n_steps >= 3 && (m.n_err || m.n_busy || m.n_trans_pending));
}
}  // namespace hwt

// real worker threads: callbacks must not overlap and must see a state they belong to
static void test_threads(Case & c)
{
  using namespace hwt;
  shim::async_manual().enabled = false;
  auto sim = std::make_unique<Sim>(c);
  auto & m = *sim;
  auto & s = m.s;
  s.threads = true;
  s.pause_us = c.pick<int>({0, 20, 100, 300});
  m.make(true);
  int64_t now = 1'000'000'000;
  int reads = 0, errs = 0;
  while (c.more(40))
  {
    {
      std::lock_guard<std::mutex> g(s.m);
      s.read = c.chance(6) ? return_type::ERROR : return_type::OK;
      s.write = c.chance(6) ? return_type::ERROR : return_type::OK;
    }
    s.main = c.chance(5) ? c.pick<Out>({FAIL, ERR}) : OK;
    s.err = c.chance(90) ? OK : FAIL;
    int from = m.comp->get_lifecycle_id();
    if (from == FIN) break;
    rclcpp::Time t(now += 10'000'000, RCL_STEADY_TIME);
    rclcpp::Duration d(std::chrono::milliseconds{10});
    switch (c.weighted({14, 14, from == UNCONF ? 14u : 1u, from == INACT ? 10u : 1u, 2, 1, 6}))
    {
      case 0: ++reads; errs += m.comp->read(t, d) == return_type::ERROR; break;
      case 1: errs += m.comp->write(t, d) == return_type::ERROR; break;
      case 2: m.comp->configure(); break;
      case 3: m.comp->activate(); break;
      case 4: m.comp->deactivate(); break;
      case 5: m.comp->cleanup(); break;
      default: std::this_thread::sleep_for(std::chrono::microseconds(c.range(0, 400)));
    }
    int to = m.comp->get_lifecycle_id();
    if (to != INACT && to != ACT) c.checkf(s.inside == 0, "running", "a read or write is running in the %s component", label(to));
    m.bad();
  }
  if (m.comp->get_lifecycle_id() == ACT && c.coin()) m.comp->read(rclcpp::Time(now += 10'000'000, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::milliseconds{10}));
  m.comp.reset();
  size_t n = s.ios.size();
  c.checkf(s.inside == 0, "running", "a callback is running after the component was removed");
  if (s.pause_us) std::this_thread::sleep_for(std::chrono::microseconds(s.pause_us));
  c.checkf(s.ios.size() == n, "after the end", "a read or write ran after the component was removed");
  for (auto & i : s.ios) c.checkf(i.state == ACT || (i.state == INACT && i.rd), "state", "%s ran in %s", i.rd ? "read" : "write", label(i.state));
  size_t rd = 0;
  for (auto & i : s.ios) rd += i.rd;
  c.checkf(rd <= static_cast<size_t>(reads) + 1, "count", "%zu reads ran after %d cycles", rd, reads);
  c.nontrivial(rd >= 3 && s.pause_us);
}

// ---------------------------------------------------------------------- controllers
namespace ctl
{
using namespace controller_interface;
using R = return_type;
struct Script
{
  Out main = OK, err = OK;
  int upd = 0;  // ok, error, exception
  std::vector<std::string> calls;
  struct U
  {
    int state;
    int64_t t, d;
  };
  std::vector<U> upds;
  std::string bad;
  int inside = 0;
};
struct Ctl : ControllerInterface
{
  Script * s;
  explicit Ctl(Script * s_) : s(s_) {}
  CallbackReturn on_init() override { return CallbackReturn::SUCCESS; }
  CallbackReturn cb(const char * n, Out o)
  {
    if (s->inside++) s->bad = std::string(n) + " started while another callback was running";
    size_t k = s->upds.size();
    shim::async_step_all();
    if (s->upds.size() != k && s->bad.empty()) s->bad = std::string("an update was still due while ") + n + " was running";
    s->calls.push_back(n);
    --s->inside;
    return o == OK ? CallbackReturn::SUCCESS : o == FAIL ? CallbackReturn::FAILURE : CallbackReturn::ERROR;
  }
  using St = rclcpp_lifecycle::State;
  CallbackReturn on_configure(const St &) override { return cb("on_configure", s->main); }
  CallbackReturn on_cleanup(const St &) override { return cb("on_cleanup", s->main); }
  CallbackReturn on_shutdown(const St &) override { return cb("on_shutdown", s->main); }
  CallbackReturn on_activate(const St &) override { return cb("on_activate", s->main); }
  CallbackReturn on_deactivate(const St &) override { return cb("on_deactivate", s->main); }
  CallbackReturn on_error(const St &) override { return cb("on_error", s->err); }
  InterfaceConfiguration command_interface_configuration() const override { return {interface_configuration_type::NONE, {}}; }
  InterfaceConfiguration state_interface_configuration() const override { return {interface_configuration_type::NONE, {}}; }
  R update(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    if (s->inside++) s->bad = "an update started while another callback was running";
    s->upds.push_back({get_lifecycle_state().id(), t.nanoseconds(), d.nanoseconds()});
    --s->inside;
    if (s->upd == 2) throw std::runtime_error("update");
    return s->upd == 1 ? R::ERROR : R::OK;
  }
};
}  // namespace ctl

static void test_controller(Case & c)
{
  using namespace ctl;
  shim::async_manual().enabled = true;
  shim::async_manual().handlers.clear();
  Script s;
  auto k = std::make_unique<Ctl>(&s);
  ControllerInterfaceParams p;
  p.controller_name = "c";
  p.update_rate = p.controller_manager_update_rate = 100;
  if (k->init(p) != R::OK) c.fail("init", "the controller could not be initialised");
  int state = UNCONF;
  bool async = false, pending = false, exc = false, skip = false;
  int64_t pt = 0, pd = 0, now = 1'000'000'000;
  R res = R::OK;
  int n_steps = 0, n_err = 0, n_busy = 0, n_late = 0;
  auto step = [&](size_t from, const char * when)
  {
    if (!pending)
    {
      c.checkf(s.upds.size() == from, "untriggered", "%s: an update ran although none was due", when);
      return;
    }
    pending = false;
    ++n_steps;
    c.checkf(s.upds.size() == from + 1, "update count", "%s: the update that was due ran %zu times", when, s.upds.size() - from);
    auto & u = s.upds.back();
    c.checkf(u.t == pt && u.d == pd, "time", "%s: the update got another time or period than it was triggered with", when);
    if (s.upd == 2) exc = true;
    res = s.upd == 1 ? R::ERROR : R::OK;
  };
  while (c.more(40))
  {
    s.calls.clear();
    std::vector<std::string> want;
    s.main = static_cast<Out>(c.weighted({14, 2, 2}));
    s.err = c.chance(85) ? OK : c.pick<Out>({FAIL, ERR});
    s.upd = c.weighted({12, 3, 2});
    const int from = state;
    const size_t u0 = s.upds.size();
    if (from == FIN && c.chance(50)) break;
    int op = c.weighted({from == ACT ? 14u : 0u, 8, from == UNCONF ? 10u : 0u, from == INACT ? 10u : 1u, from == ACT ? 3u : 1u, 1, 1, from == ACT ? 1u : 0u});
    auto legal = [&](const char * n, bool may, int ok, int fail)
    {
      if (!may) return;
      want.push_back(n);
      if (s.main == OK) state = ok;
      else if (s.main == FAIL) state = fail;
      else
      {
        want.push_back("on_error");
        state = s.err == OK ? UNCONF : FIN;
      }
    };
    static const char * un[] = {"ok", "error", "exception"};
    switch (op)
    {
      case 0:
      {
        int64_t per = c.range(1, 20) * 1'000'000;
        now += per;
        c.note("trigger_update%s (update would give %s)", async ? " async" : "", un[s.upd]);
        bool thrown = false, want_throw = false, ok = true;
        R wr = R::OK;
        ControllerUpdateStatus st;
        try
        {
          st = k->trigger_update(rclcpp::Time(now, RCL_ROS_TIME), rclcpp::Duration(std::chrono::nanoseconds{per}));
        }
        catch (const std::exception &)
        {
          thrown = true;
        }
        if (!async)
        {
          want_throw = s.upd == 2;
          wr = s.upd == 1 ? R::ERROR : R::OK;
          c.checkf(s.upds.size() == u0 + 1 && s.upds.back().t == now && s.upds.back().d == per, "sync", "a synchronous controller was not updated with the given time and period");
        }
        else
        {
          c.checkf(s.upds.size() == u0, "ran in the loop", "the update of an asynchronous controller ran in the caller's thread");
          if (skip) ok = false;
          else if (exc) want_throw = true, ++n_err;
          else
          {
            wr = res;
            ok = !pending;
            if (pending) ++n_busy;
            else
            {
              pending = true;
              pt = now;
              pd = per;
            }
            n_err += wr == R::ERROR;
          }
        }
        c.checkf(thrown == want_throw, "exception", "trigger_update %s", thrown ? "threw although no update had" : "kept the exception of the update to itself");
        if (!thrown) c.checkf(st.successful == ok && st.result == wr, "result", "trigger_update returned %s/%d instead of %s/%d", st.successful ? "triggered" : "not triggered", static_cast<int>(st.result), ok ? "triggered" : "not triggered", static_cast<int>(wr));
        if (async && (thrown || st.result == R::ERROR) && c.chance(70))
        {
          // what the manager does
          c.note("  is deactivated");
          s.main = OK;
          size_t u1 = s.upds.size();
          k->get_node()->deactivate();
          step(u1, "deactivation");
          want.push_back("on_deactivate");
          state = INACT;
        }
        break;
      }
      case 1:
        c.note("the worker runs%s (update gives %s)", pending ? "" : ", nothing due", un[s.upd]);
        shim::async_step_all();
        step(u0, "the worker");
        break;
      case 2:
      {
        if (from != UNCONF) break;
        bool a = c.chance(80);
        k->get_node()->set_parameter(rclcpp::Parameter("is_async", a));
        c.note("configure as %s: %s", a ? "async" : "sync", out_name[s.main]);
        legal("on_configure", true, INACT, UNCONF);
        k->configure();
        async = a;
        pending = exc = false;
        break;
      }
      case 3:
        c.note("activate: %s", out_name[s.main]);
        legal("on_activate", from == INACT, ACT, INACT);
        k->get_node()->activate();
        if (from == INACT) res = R::OK, exc = skip = false;
        break;
      case 4:
      {
        bool prep = c.chance(70);
        c.note("deactivate%s: %s", prep ? " after preparing it" : "", out_name[s.main]);
        size_t u1 = s.upds.size();
        if (from == ACT && prep)
        {
          if (pending) ++n_late;
          k->prepare_for_deactivation();
          step(u1, "prepare_for_deactivation");
          u1 = s.upds.size();
        }
        if (from == ACT)
        {
          if (pending) ++n_late;
          k->get_node()->deactivate();
          step(u1, "deactivation");
        }
        legal("on_deactivate", from == ACT, INACT, ACT);
        if (from == ACT && state == ACT) skip = async;
        break;
      }
      case 5:
        c.note("cleanup: %s", out_name[s.main]);
        legal("on_cleanup", from == INACT, UNCONF, INACT);
        if (from == INACT) k->get_node()->cleanup();
        // it cannot be triggered again until it is configured
        if (from == INACT && state == INACT && async) c.discard();
        break;
      case 6:
        c.note("shutdown: %s", out_name[s.main]);
        legal("on_shutdown", from != FIN, FIN, FIN);
        if (pending) ++n_late;
        if (from != FIN) k->get_node()->shutdown();
        // what was due has run before or never runs
        if (pending && s.upds.size() != u0) step(u0, "shutdown");
        pending = false;
        break;
      default:
        // a switch is prepared and then abandoned
        c.note("prepare_for_deactivation, then trigger, then resume");
        k->prepare_for_deactivation();
        step(u0, "prepare_for_deactivation");
        if (async)
        {
          auto st = k->trigger_update(rclcpp::Time(now, RCL_ROS_TIME), rclcpp::Duration(std::chrono::milliseconds{1}));
          c.checkf(!st.successful && st.result == R::OK, "prepared", "an asynchronous controller that is about to be deactivated was triggered");
          size_t u1 = s.upds.size();
          shim::async_step_all();
          c.checkf(s.upds.size() == u1, "prepared", "an update ran after prepare_for_deactivation");
          skip = true;
        }
    }
    c.checkf(s.bad.empty(), "overlap", "%s", s.bad.c_str());
    auto join = [](const std::vector<std::string> & v) { std::string r; for (auto & x : v) r += x + " "; return r; };
    c.checkf(s.calls == want, "callbacks", "callbacks [%s] ran instead of [%s]", join(s.calls).c_str(), join(want).c_str());
    c.checkf(k->get_lifecycle_state().id() == state, "lifecycle", "the controller is %s instead of %s", label(k->get_lifecycle_state().id()), label(state));
    if (std::find(want.begin(), want.end(), "on_error") != want.end())
    {
      if (pending) ++n_late;
      // the worker was stopped
      if (pending && s.upds.size() != u0) step(u0, "error handling");
      pending = false;
    }
    for (size_t i = u0; i < s.upds.size(); ++i) c.checkf(s.upds[i].state == ACT || op == 4 || op == 0 || op == 6, "state", "the update ran in %s", label(s.upds[i].state));
    size_t u1 = s.upds.size();
    if (state != ACT)
    {
      shim::async_step_all();
      c.checkf(s.upds.size() == u1, "inactive", "an update of the %s controller was still due", label(state));
    }
  }
  size_t u = s.upds.size();
  c.note("the controller is destroyed");
  k.reset();
  shim::async_step_all();
  c.checkf(s.upds.size() == u || (pending && s.upds.size() == u + 1), "after the end", "an update ran after the controller was destroyed");
  c.checkf(s.bad.empty(), "overlap", "%s", s.bad.c_str());
  if (n_err) c.label("errors or exceptions reported");
  if (n_busy) c.label("triggered while busy");
  if (n_late) c.label("stopped with an update due");
  c.nontrivial(n_steps >= 3 && (n_err || n_busy || n_late));
}

void async_hardware(Case & c) { hwt::test_hardware(c); }
void async_controller(Case & c) { test_controller(c); }
void async_threads(Case & c) { test_threads(c); }
