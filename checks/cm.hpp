// A controller manager with scripted controllers and hardware, generated chains of controllers, and
// the model the observed behaviour is compared with.  Shared by the controller manager checks.
#pragma once
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>

#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "controller_manager/controller_manager.hpp"
#include "controller_manager_msgs/srv/configure_controller.hpp"
#include "hw.hpp"
#include "rclcpp/executors/single_threaded_executor.hpp"

namespace cmt
{
using namespace hw;
using controller_interface::InterfaceConfiguration;
using ICT = controller_interface::interface_configuration_type;
using CR = controller_interface::return_type;
using SW = controller_manager_msgs::srv::SwitchController::Request;
constexpr int ABSENT = -1;
constexpr int CM_RATE = 100;
constexpr int64_t TICK = 10'000'000;

struct Update
{
  int64_t t, period;
  long seq;
  bool chained;
};
enum Upd { U_OK, U_ERROR, U_THROW };
// what a controller is, what it is to do and what it was asked to do; outlives the controller
struct Ctl
{
  std::string name;
  bool chain = false;
  ICT cmd_type = ICT::INDIVIDUAL, st_type = ICT::INDIVIDUAL;
  std::vector<std::string> cmd, st;      // interfaces it asks for
  std::vector<std::string> refs, exps;   // interfaces it exports, without its name
  int rate = -1;                         // parameter update_rate, -1: not set
  std::vector<std::string> fallbacks;
  Script s;                              // outcomes of the callbacks
  Upd upd = U_OK;
  bool bad_prefix = false;
  bool async = false;
  // observed
  const void * worker = nullptr;   // its asynchronous handler
  Upd a_res = U_OK;                // how its last asynchronous update ended
  bool fresh = false;              // was not triggered since it was activated
  size_t owed0 = 0;
  Upd res0 = U_OK;
  size_t owed = 0;                 // updates that should have run when its worker had time
  std::string bad;                 // the first thing that must not happen
  std::vector<std::string> log;
  std::vector<Update> upds;
  std::vector<std::string> held_cmd, held_st;
  bool active = false;
  int alive = 0;
  // model
  int st_ = ABSENT;
  bool tainted = false;
  int64_t last = -1;  // time of the last update since activation
  size_t upds_at_activation = 0;
  bool exported = false;
  int live_rate = CM_RATE;
  std::string type() const { return chain ? "check/Chain" : "check/Plain"; }
  std::vector<std::string> full(const std::vector<std::string> & v) const
  {
    std::vector<std::string> r;
    for (auto & x : v) r.push_back(name + "/" + x);
    return r;
  }
};
inline std::map<std::string, Ctl> & ctls()
{
  static std::map<std::string, Ctl> m;
  return m;
}
inline std::recursive_mutex & mtx()
{
  static std::recursive_mutex m;
  return m;
}
inline long & seq()
{
  static long s = 0;
  return s;
}
#define LOCK std::lock_guard<std::recursive_mutex> lock_guard_(mtx())

template <class B>
struct Base : B
{
  Ctl * s = nullptr;
  using CB = controller_interface::CallbackReturn;
  using St = rclcpp_lifecycle::State;
  ~Base() override
  {
    LOCK;
    if (s) --s->alive;
  }
  CB ret(const char * n, Out o)
  {
    s->log.push_back(n);
    switch (o)
    {
      case OK: return CB::SUCCESS;
      case FAIL: return CB::FAILURE;
      case ERR: return CB::ERROR;
      default: throw Boom();
    }
  }
  CB on_init() override
  {
    LOCK;
    s = &ctls()[this->get_node()->get_name()];
    ++s->alive;
    if (s->rate >= 0) this->get_node()->set_parameter(rclcpp::Parameter("update_rate", s->rate));
    if (s->async) this->get_node()->set_parameter(rclcpp::Parameter("is_async", true));
    return ret("on_init", s->s.init);
  }
  InterfaceConfiguration command_interface_configuration() const override { return {s->cmd_type, s->cmd_type == ICT::NONE || s->cmd_type == ICT::ALL ? std::vector<std::string>{} : s->cmd}; }
  InterfaceConfiguration state_interface_configuration() const override { return {s->st_type, s->st_type == ICT::NONE || s->st_type == ICT::ALL ? std::vector<std::string>{} : s->st}; }
  // its worker gets time: nothing may be due
  void worker_runs(const char * n)
  {
    if (!s->async) return;
    size_t k = s->upds.size();
    shim::async_step_one(s->worker);
    if (s->upds.size() != k && s->bad.empty()) s->bad = strf("an update was still due while %s was running", n);
  }
  CB on_configure(const St &) override
  {
    if (s->async)
    {
      std::lock_guard<std::recursive_mutex> g(shim::async_manual().m);
      auto & h = shim::async_manual().handlers;
      s->worker = h.empty() ? nullptr : h.back().first;
    }
    LOCK;
    return ret("on_configure", s->s.configure);
  }
  CB on_cleanup(const St &) override { worker_runs("on_cleanup"); LOCK; return ret("on_cleanup", s->s.cleanup); }
  CB on_shutdown(const St &) override { worker_runs("on_shutdown"); LOCK; s->active = false; return ret("on_shutdown", s->s.shutdown); }
  CB on_error(const St &) override { worker_runs("on_error"); LOCK; s->active = false; return ret("on_error", s->s.error); }
  CB on_deactivate(const St &) override { worker_runs("on_deactivate"); LOCK; s->active = false; return ret("on_deactivate", s->s.deactivate); }
  CB on_activate(const St &) override
  {
    worker_runs("on_activate");
    LOCK;
    s->fresh = true;
    s->a_res = U_OK;
    s->owed = s->upds.size();
    s->held_cmd.clear();
    s->held_st.clear();
    for (auto & i : this->command_interfaces_) s->held_cmd.push_back(i.get_name());
    for (auto & i : this->state_interfaces_) s->held_st.push_back(i.get_name());
    auto r = ret("on_activate", s->s.activate);
    s->active = r == CB::SUCCESS;
    s->upds_at_activation = s->upds.size();
    return r;
  }
  CR upd(const rclcpp::Time & t, const rclcpp::Duration & d, bool chained)
  {
    LOCK;
    s->upds.push_back({t.nanoseconds(), d.nanoseconds(), ++seq(), chained});
    s->a_res = s->upd;
    if (s->async && !s->active && s->bad.empty()) s->bad = "an update ran although the controller is not active";
    if (s->async && (this->command_interfaces_.size() != s->held_cmd.size() || this->state_interfaces_.size() != s->held_st.size()) && s->bad.empty()) s->bad = "an update ran although the interfaces were released";
    for (auto & i : this->command_interfaces_) (void)!i.set_value(0.25);
    if (s->upd == U_THROW) throw Boom();
    return s->upd == U_ERROR ? CR::ERROR : CR::OK;
  }
};
struct Plain : Base<controller_interface::ControllerInterface>
{
  CR update(const rclcpp::Time & t, const rclcpp::Duration & d) override { return upd(t, d, false); }
};
struct Chain : Base<controller_interface::ChainableControllerInterface>
{
  std::vector<double> exported;
  std::vector<hardware_interface::CommandInterface> on_export_reference_interfaces() override
  {
    std::vector<hardware_interface::CommandInterface> v;
    reference_interfaces_.assign(s->refs.size(), 0.0);
    for (size_t i = 0; i < s->refs.size(); ++i) v.emplace_back(s->bad_prefix ? "wrong" : s->name, s->refs[i], &reference_interfaces_[i]);
    return v;
  }
  std::vector<hardware_interface::StateInterface> on_export_state_interfaces() override
  {
    std::vector<hardware_interface::StateInterface> v;
    exported.assign(s->exps.size(), 0.0);
    for (size_t i = 0; i < s->exps.size(); ++i) v.emplace_back(s->name, s->exps[i], &exported[i]);
    return v;
  }
  CR update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { return CR::OK; }
  CR update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & d) override { return upd(t, d, is_in_chained_mode()); }
};
inline void register_controllers()
{
  pluginlib::registry<controller_interface::ControllerInterface>()["check/Plain"] = [] { return new Plain; };
  pluginlib::registry<controller_interface::ChainableControllerInterface>()["check/Chain"] = [] { return new Chain; };
}

struct Cm : controller_manager::ControllerManager
{
  using ControllerManager::ControllerManager;
  hardware_interface::ResourceManager & rm() { return *resource_manager_; }
};

// ends a case quietly: a condition of another property does not hold
struct Stop
{
};
inline const std::string & prop()
{
  static const std::string p = getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "C22";
  return p;
}

inline std::string join(const std::vector<std::string> & v)
{
  std::string r;
  for (auto & x : v) r += (r.empty() ? "" : " ") + x;
  return "[" + r + "]";
}
template <class T>
bool has(const std::vector<T> & v, const T & x)
{
  return std::find(v.begin(), v.end(), x) != v.end();
}
inline bool has(const std::vector<std::string> & v, const char * x) { return has(v, std::string(x)); }

struct Options
{
  bool chains = true, fallbacks = true, rates = true, groups = false, other_types = false, async = false;
  int max_ctl = 5, max_comps = 2;
};

struct World
{
  Case & c;
  Options o;
  Robot robot;
  std::vector<std::string> order;  // names in the order in which the chain may run
  std::shared_ptr<rclcpp::executors::SingleThreadedExecutor> ex;
  std::unique_ptr<Cm> cm;
  int64_t now = 1'000'000'000'000;
  bool allow_inactive = false;
  // statistics for the non-triviality rules
  int n_switch_ok = 0, n_switch_refused = 0, n_chain_active = 0, n_fail = 0, n_fallback = 0, n_hw_fail = 0, n_rated = 0, n_refused = 0, n_activated = 0;

  World(Case & cc, Options oo) : c(cc), o(oo) {}
  ~World()
  {
    if (!thread.joinable()) return;
    for (int i = 0; i < 200 && !done; ++i) raw_cycle(), std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (!done) _exit(99);  // a request that never ends
    thread.join();
  }

  void need(const char * props, bool ok, const char * sig, const std::string & msg)
  {
    if (ok) return;
    if (std::string(props).find(prop()) != std::string::npos) c.fail(sig, msg);
    throw Stop{};
  }
  Ctl & ctl(const std::string & n)
  {
    static Ctl nobody;
    auto it = ctls().find(n);
    return it == ctls().end() ? nobody = Ctl() : it->second;
  }
  bool known(const std::string & n) { return ctls().count(n) && ctls()[n].st_ != ABSENT; }
  bool chainable(const std::string & n) { return known(n) && ctl(n).chain; }
  // the loaded controller an interface belongs to, empty: none
  std::string owner(const std::string & itf)
  {
    auto p = itf.substr(0, itf.find('/'));
    return known(p) ? p : "";
  }
  const Comp * comp_of(const std::string & itf, bool cmd)
  {
    for (auto & k : robot.comps)
      if (has(cmd ? k.cmds() : k.states(), itf)) return &k;
    return nullptr;
  }
  int hw_state(const std::string & comp) { return cm->rm().get_components_status().at(comp).state.id(); }
  // controllers whose interfaces this one asks for by name
  std::vector<std::string> followers(const std::string & n)
  {
    std::vector<std::string> r;
    auto & k = ctl(n);
    auto add = [&](const std::string & i)
    {
      auto w = owner(i);
      if (!w.empty() && w != n && !has(r, w)) r.push_back(w);
    };
    if (k.cmd_type == ICT::INDIVIDUAL)
      for (auto & i : k.cmd) add(i);
    if (k.st_type == ICT::INDIVIDUAL)
      for (auto & i : k.st) add(i);
    return r;
  }
  std::vector<std::string> dependents(const std::string & n)
  {
    std::vector<std::string> r;
    for (auto & m : order)
      if (m != n && known(m) && has(followers(m), n)) r.push_back(m);
    return r;
  }
  // some active controller other than n claims a reference of n, after the active set becomes act
  bool referenced(const std::string & n, const std::vector<std::string> & act)
  {
    for (auto & m : act)
      if (m != n && ctl(m).cmd_type == ICT::INDIVIDUAL)
        for (auto & i : ctl(m).cmd)
          if (owner(i) == n) return true;
    return false;
  }
  std::vector<std::string> active()
  {
    std::vector<std::string> r;
    for (auto & n : order)
      if (ctl(n).st_ == ACT) r.push_back(n);
    return r;
  }
  // dependents of the given controllers, directly or not
  void close(std::vector<std::string> & v)
  {
    for (size_t i = 0; i < v.size(); ++i)
      for (auto & m : dependents(v[i]))
        if (!has(v, m)) v.push_back(m);
  }
  // everything connected to n by claims or exported states, loaded or not: chains are looked up when
  // controllers are configured
  std::vector<std::string> group(const std::string & n)
  {
    auto linked = [&](const std::string & x, const std::string & y)
    {
      auto & k = ctl(x);
      for (auto * v : {&k.cmd, &k.st})
        for (auto & i : *v)
          if (i.rfind(y + "/", 0) == 0) return true;
      return false;
    };
    std::vector<std::string> v{n};
    for (size_t i = 0; i < v.size(); ++i)
      for (auto & m : order)
        if (!has(v, m) && (linked(m, v[i]) || linked(v[i], m))) v.push_back(m);
    return v;
  }

  // ------------------------------------------------------------------ generation
  void generate()
  {
    ctls().clear();
    scripts().clear();
    seq() = 0;
    robot = gen_robot(c, o.max_comps, o.groups, 0);
    std::vector<std::string> hc, hs;
    for (auto & k : robot.comps)
    {
      for (auto & i : k.cmds()) hc.push_back(i);
      for (auto & i : k.states()) hs.push_back(i);
    }
    int n = 2 + static_cast<int>(c.below(o.max_ctl - 1));
    std::vector<std::string> names;
    for (int i = 0; i < n; ++i) names.push_back(strf("c%d", i));
    order = names;
    c.shuffle(order);
    std::map<std::string, std::vector<std::string>> dep;  // asks for interfaces of
    std::function<bool(const std::string &, const std::string &)> reach = [&](const std::string & a, const std::string & b)
    {
      if (a == b) return true;
      for (auto & x : dep[a])
        if (reach(x, b)) return true;
      return false;
    };
    for (auto & nm : order)
    {
      auto & k = ctls()[nm];
      k.name = nm;
      k.chain = o.chains && c.chance(55);
      k.async = o.async && c.chance(60);
      if (k.chain)
      {
        int r = static_cast<int>(c.weighted({15, 60, 25})), e = static_cast<int>(c.weighted({50, 40, 10}));
        if (r + e == 0 && !c.chance(10)) r = 1;
        for (int i = 0; i < r; ++i) k.refs.push_back(strf("r%d", i));
        for (int i = 0; i < e; ++i) k.exps.push_back(strf("e%d", i));
        k.bad_prefix = r && c.chance(2);
      }
      if (o.rates && c.chance(40)) k.rate = c.pick<int>({100, 50, 25, 33, 30, 10, 7, 150, 0, 99, 67});
    }
    for (size_t i = 0; i < order.size(); ++i)
    {
      auto & k = ctls()[order[i]];
      if (!hc.empty())
        for (int x = static_cast<int>(c.weighted({30, 50, 20})); x > 0; --x)
        {
          auto & p = c.pick(hc);
          if (!has(k.cmd, p) || c.chance(4)) k.cmd.push_back(p);
        }
      if (!hs.empty())
        for (int x = static_cast<int>(c.weighted({40, 45, 15})); x > 0; --x)
        {
          auto & p = c.pick(hs);
          if (!has(k.st, p)) k.st.push_back(p);
        }
      for (size_t j = i + 1; j < order.size(); ++j)
      {
        auto & f = ctls()[order[j]];
        if (!f.chain || f.refs.empty() || !c.chance(45) || reach(f.name, k.name)) continue;
        dep[k.name].push_back(f.name);
        for (auto & r : f.refs)
          if (c.chance(70)) k.cmd.push_back(f.name + "/" + r);
      }
      for (size_t j = 0; j < i; ++j)
      {
        auto & f = ctls()[order[j]];
        if (!f.chain || f.exps.empty() || !c.chance(40) || reach(f.name, k.name)) continue;
        dep[k.name].push_back(f.name);
        for (auto & e : f.exps)
          if (c.chance(70)) k.st.push_back(f.name + "/" + e);
      }
      if (c.chance(3)) k.cmd.push_back("nope/x");
      if (c.chance(3)) k.st.push_back("nope/x");
      if (o.other_types)
      {
        auto t = [&] { return c.pick<ICT>({ICT::INDIVIDUAL, ICT::ALL, ICT::REGEX, ICT::INDIVIDUAL_BEST_EFFORT, ICT::NONE}); };
        k.cmd_type = t();
        k.st_type = t();
        auto rx = [&](std::vector<std::string> & v, const std::vector<std::string> & all)
        {
          v.clear();
          v.push_back(all.empty() || c.coin() ? c.pick<std::string>({".*/position", "j.*", ".*", "none.*", "j[01]/.*"}) : c.pick(all));
        };
        if (k.cmd_type == ICT::REGEX) rx(k.cmd, hc);
        if (k.st_type == ICT::REGEX) rx(k.st, hs);
      }
    }
    if (o.fallbacks)
      for (auto & nm : order)
        if (c.chance(30))
          for (int x = 1 + static_cast<int>(c.below(2)); x > 0; --x)
          {
            auto f = c.pick(names);
            if ((f != nm || c.chance(10)) && !has(ctls()[nm].fallbacks, f)) ctls()[nm].fallbacks.push_back(f);
          }
  }
  std::string describe(const Ctl & k)
  {
    static const char * tn[] = {"all", "individual", "none", "individual best effort", "regex"};
    auto tname = [&](ICT t) { return std::string(t == ICT::ALL ? tn[0] : t == ICT::INDIVIDUAL ? "" : t == ICT::NONE ? tn[2] : t == ICT::REGEX ? tn[4] : tn[3]); };
    std::string r = k.name + (k.async ? " async" : "") + (k.chain ? " chainable" : "") + " commands " + tname(k.cmd_type) + join(k.cmd) + " states " + tname(k.st_type) + join(k.st);
    if (k.chain) r += " exports references " + join(k.refs) + " states " + join(k.exps);
    if (k.rate >= 0) r += strf(" rate %d", k.rate);
    if (!k.fallbacks.empty()) r += " fallbacks " + join(k.fallbacks);
    return r;
  }
  rclcpp::NodeOptions node_options()
  {
    auto no = controller_manager::get_cm_node_options();
    std::vector<rclcpp::Parameter> ps{rclcpp::Parameter("update_rate", CM_RATE)};
    for (auto & n : order)
    {
      auto & k = ctl(n);
      ps.emplace_back(n + ".type", k.type());
      if (!k.fallbacks.empty()) ps.emplace_back(n + ".fallback_controllers", k.fallbacks);
    }
    if (allow_inactive) ps.emplace_back("defaults.allow_controller_activation_with_inactive_hardware", true);
    for (auto & p : extra_params) ps.push_back(p);
    no.parameter_overrides(ps);
    return no;
  }
  std::vector<rclcpp::Parameter> extra_params;
  void start()
  {
    for (auto & n : order) c.notes(describe(ctl(n)));
    c.notes(robot.xml());
    clock();
    ex = std::make_shared<rclcpp::executors::SingleThreadedExecutor>();
    cm = std::make_unique<Cm>(ex, robot.xml(), true, "cm", "", node_options());
  }
  void clock() { shim::fake_clock().now_ns = now; }
  void raw_cycle(int64_t dt = TICK)
  {
    now += dt;
    clock();
    rclcpp::Time t = cm->get_trigger_clock()->now();
    auto d = rclcpp::Duration(std::chrono::nanoseconds(dt));
    cm->read(t, d);
    cm->update(t, d);
    cm->write(t, d);
  }

  // ------------------------------------------------------------------ requests run beside the cycles
  std::thread thread;
  std::atomic<bool> done{true};
  std::string escaped;
  std::mutex m;
  std::condition_variable cv;
  // runs f in a thread while cycles go on; the checks of a cycle are made by cycle()
  void beside(const std::function<void()> & f, bool check_cycles, int gap_us = 150)
  {
    done = false;
    escaped.clear();
    thread = std::thread(
      [&]
      {
        try
        {
          f();
        }
        catch (const std::exception & e)
        {
          escaped = e.what();
          if (escaped.empty()) escaped = "?";
        }
        {
          std::lock_guard<std::mutex> g(m);
          done = true;
        }
        cv.notify_all();
      });
    auto t0 = std::chrono::steady_clock::now();
    std::exception_ptr broken;
    for (int i = 0;; ++i)
    {
      {
        std::unique_lock<std::mutex> g(m);
        if (cv.wait_for(g, std::chrono::microseconds(i == 0 || i > 3 ? gap_us : std::max(gap_us, 30)), [&] { return done.load(); })) break;
      }
      auto t1 = std::chrono::steady_clock::now();
      try
      {
        if (check_cycles && !broken) cycle(TICK);
        else raw_cycle();
        if (racing && !broken && std::chrono::steady_clock::now() - t1 > std::chrono::milliseconds(2500))
          need("C25,C26", false, "blocked", "a controller failed in update while a request was processed, and the cycle waited for the end of the request");
      }
      catch (...)
      {
        // the request has to end before what it uses goes away
        if (!broken) broken = std::current_exception();
      }
      if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(8)) c.fail("hang", "a request did not end within 8 s although the cycles went on");
    }
    thread.join();
    if (broken) std::rethrow_exception(broken);
  }

  // ------------------------------------------------------------------ a cycle and what has to hold for it
  bool due(const Ctl & k, int64_t t, bool & open)
  {
    open = false;
    if (k.live_rate >= CM_RATE || k.last < 0) return true;
    double p = 1.0 / k.live_rate, e = (t - k.last) * 1e-9, d = e + 0.5 / CM_RATE - p;
    open = std::fabs(d) < 1e-7;
    return d >= 0;
  }
  std::vector<std::string> failing_hw(const std::map<std::string, int> & before, const std::map<std::string, int> & after, bool error)
  {
    std::vector<std::string> r;
    for (auto & [n, b] : before)
      if (error ? ((b == ACT || b == INACT) && after.at(n) != ACT && after.at(n) != INACT) : (b == ACT && after.at(n) == INACT)) r.push_back(n);
    return r;
  }
  std::map<std::string, int> hw_states()
  {
    std::map<std::string, int> r;
    for (auto & [n, i] : cm->rm().get_components_status()) r[n] = i.state.id();
    return r;
  }
  std::map<std::string, size_t> log_sizes()
  {
    LOCK;
    std::map<std::string, size_t> r;
    for (auto & [n, k] : ctls()) r[n] = k.log.size();
    return r;
  }
  std::vector<std::string> act_now()
  {
    LOCK;
    std::vector<std::string> r;
    for (auto & n : order)
      if (ctl(n).active) r.push_back(n);
    return r;
  }
  bool uses(const Ctl & k, const std::vector<std::string> & comps, bool cmd_only)
  {
    for (auto & i : k.cmd)
      if (auto q = k.cmd_type == ICT::INDIVIDUAL ? comp_of(i, true) : nullptr)
        if (has(comps, q->name)) return true;
    if (!cmd_only)
      for (auto & i : k.st)
        if (auto q = k.st_type == ICT::INDIVIDUAL ? comp_of(i, false) : nullptr)
          if (has(comps, q->name)) return true;
    return false;
  }
  // after read or write: exactly the controllers that depend on failed hardware have stopped
  void check_hw(const char * what, const std::map<std::string, int> & before, const std::vector<std::string> & act, const std::map<std::string, size_t> & logs)
  {
    auto after = hw_states();
    auto bad = failing_hw(before, after, true), down = failing_hw(before, after, false);
    auto still = act_now();
    std::vector<std::string> must, may;
    for (auto & n : act)
    {
      if (uses(ctl(n), bad, false)) must.push_back(n);
      else if (uses(ctl(n), down, true)) must.push_back(n);
    }
    close(must);
    may = must;
    if (bad.size() + down.size()) ++n_hw_fail;
    for (auto & n : act)
    {
      if (has(must, n))
        need("C26", !has(still, n), "kept active", strf("%s needs hardware %s that failed in %s and %s that was deactivated, but it is still active", n.c_str(), join(bad).c_str(), what, join(down).c_str()));
      else if (!has(may, n))
      {
        need("C26", has(still, n), "stopped without need", strf("%s does not depend on the hardware %s %s that failed in %s, but it was stopped", n.c_str(), join(bad).c_str(), join(down).c_str(), what));
        LOCK;
        need("C26", ctl(n).log.size() == logs.at(n), "restarted without need", strf("%s does not depend on the hardware %s that failed in %s, but callbacks ran", n.c_str(), join(bad).c_str(), what));
      }
    }
    for (auto & n : still) need("C26", has(act, n), "started", strf("%s was started by %s", n.c_str(), what));
    if (bad.size() + down.size()) resync(true);
  }
  bool racing = false;                 // controllers fail while a request is processed
  int n_lost = 0, n_racing = 0;
  bool in_switch = false;              // a request is being processed beside the cycles
  std::vector<std::string> excused;    // controllers that are not judged while it is
  void cycle(int64_t dt)
  {
    now += dt;
    clock();
    rclcpp::Time t = cm->get_trigger_clock()->now();
    auto d = rclcpp::Duration(std::chrono::nanoseconds(dt));
    auto h0 = in_switch ? std::map<std::string, int>{} : hw_states();
    auto a0 = act_now();
    auto l0 = log_sizes();
    cm->read(t, d);
    if (!in_switch) check_hw("read", h0, a0, l0);
    // update
    auto act = act_now();
    std::map<std::string, size_t> before;
    {
      LOCK;
      for (auto & n : order)
      {
        auto & k = ctl(n);
        before[n] = k.upds.size();
        k.owed0 = k.owed;
        k.res0 = k.a_res;
      }
    }
    l0 = log_sizes();
    cm->update(t, d);
    std::map<std::string, Update> ran;
    std::vector<std::string> failed;
    for (auto & n : order)
    {
      LOCK;
      auto & k = ctl(n);
      size_t cnt = k.upds.size() - before[n];
      need("C34", k.bad.empty(), "worker", n + ": " + k.bad);
      if (has(excused, n)) continue;
      if (k.async)
      {
        if (!has(act, n)) need("C34", cnt == 0, "updated although inactive", strf("%s is not active but was updated", n.c_str()));
        if (!has(act, n)) continue;
        bool busy = k.owed0 > before[n], dead = k.res0 == U_THROW;
        bool fails = k.res0 != U_OK;
        size_t owed = k.owed0 + (busy || dead ? 0 : 1);
        bool stopped = false;
        for (size_t i = l0.at(n); i < k.log.size(); ++i) stopped |= k.log[i] != "on_activate";
        n_async_late += busy;
        if (!stopped)
        {
          need("C34", cnt == 0, "ran in the loop", strf("the control loop itself ran the update of the asynchronous %s", n.c_str()));
          k.owed = owed;
          k.fresh = false;
        }
        else
        {
          ++n_async_stopped;
          need("C34", before[n] + cnt >= k.owed0 && before[n] + cnt <= owed, "stopped", strf("%s was stopped; %zu of %zu updates due had run", n.c_str(), before[n] + cnt, owed));
        }
        k.last = now;
        if (fails) failed.push_back(n);
        continue;
      }
      need("C24,C25,C26", has(act, n) || cnt == 0, "updated although inactive", strf("%s is not active but was updated", n.c_str()));
      if (!has(act, n)) continue;
      bool open = false, go = due(k, now, open);
      need("C24,C25", open || cnt == (go ? 1u : 0u), "update count", strf("%s (rate %d, last update %.6f s ago) was updated %zu times in one cycle", n.c_str(), k.live_rate, k.last < 0 ? -1.0 : (now - k.last) * 1e-9, cnt));
      if (!cnt) continue;
      auto & u = k.upds.back();
      ran[n] = u;
      int64_t want = k.last < 0 ? (k.live_rate >= CM_RATE ? dt : std::llround(1e9 / k.live_rate)) : now - k.last;
      need("C24", std::llabs(u.period - want) <= 1, "period", strf("%s got the period %lld ns instead of %lld", n.c_str(), (long long)u.period, (long long)want));
      need("C24", k.last < 0 || u.t >= k.last, "time", strf("the time went back from %lld to %lld for %s", (long long)k.last, (long long)u.t, n.c_str()));
      need("C24", u.t == now, "time value", strf("%s got the time %lld in the cycle of %lld", n.c_str(), (long long)u.t, (long long)now));
      if (k.last >= 0 && k.live_rate < CM_RATE) ++n_rated;
      k.last = now;
      if (k.upd != U_OK) failed.push_back(n);
    }
    for (auto & [n, u] : ran)
      for (auto & [x, v] : ran)
      {
        bool before_it = false;
        for (auto & i : ctl(n).cmd) before_it |= ctl(n).cmd_type == ICT::INDIVIDUAL && owner(i) == x;
        for (auto & i : ctl(x).st) before_it |= ctl(x).st_type == ICT::INDIVIDUAL && owner(i) == n;
        if (before_it && n != x)
        {
          ++n_chain_active;
          need("C23", u.seq < v.seq, "order", strf("%s feeds %s but was updated after it", n.c_str(), x.c_str()));
        }
      }
    if (!in_switch || !failed.empty()) check_update(failed, act, l0);
    if (!in_switch) h0 = hw_states(), a0 = act_now(), l0 = log_sizes();
    cm->write(t, d);
    if (!in_switch) check_hw("write", h0, a0, l0);
    {
      LOCK;
      for (auto & n : order)
        if (!ctl(n).active || (!ctl(n).async && ctl(n).upds_at_activation == ctl(n).upds.size())) ctl(n).last = -1;
    }
  }
  // the workers of some asynchronous controllers get time
  void work(bool all)
  {
    c.note(all ? "the workers run" : "some workers run");
    std::vector<std::string> who;
    for (auto & n : order)
      if (ctl(n).async && (all || c.coin())) who.push_back(n);
    for (auto & n : who) shim::async_step_one(ctl(n).worker);
    LOCK;
    for (auto & n : order)
    {
      auto & k = ctl(n);
      need("C34", k.bad.empty(), "worker", n + ": " + k.bad);
      if (!k.async || !k.active || !has(who, n)) continue;
      need("C34", k.upds.size() == k.owed, "update count", strf("%s should have been updated %zu times by now instead of %zu", n.c_str(), k.owed, k.upds.size()));
      n_async += k.upds.size() > k.upds_at_activation;
    }
  }
  // whatever was due has run; what comes next is judged again
  void work_off()
  {
    for (auto & n : order) shim::async_step_one(ctl(n).worker);
    LOCK;
    for (auto & n : order)
    {
      auto & k = ctl(n);
      need("C34", k.bad.empty(), "worker", n + ": " + k.bad);
      k.owed = k.upds.size();
    }
  }
  int n_async = 0, n_async_late = 0, n_async_stopped = 0;
  bool itf_free_for(const std::string & i, bool cmd, const std::vector<std::string> & fb, const std::vector<std::string> & still)
  {
    auto w = owner(i);
    if (!w.empty())
    {
      auto & k = ctl(w);
      auto full = k.full(cmd ? k.refs : k.exps);
      return k.chain && has(full, i) && (has(fb, w) || has(still, w));
    }
    auto q = comp_of(i, cmd);
    if (!q) return false;
    int s = hw_state(q->name);
    return cmd ? s == ACT : s == ACT || s == INACT;
  }
  // after update: what failed has stopped, with what needs it; its fallbacks run if they can
  void check_update(const std::vector<std::string> & failed, const std::vector<std::string> & act, const std::map<std::string, size_t> & logs)
  {
    auto still = act_now();
    std::vector<std::string> must = failed, may, fb;
    close(must);
    for (auto & n : failed)
      for (auto & m : group(n))
        if (!has(may, m)) may.push_back(m);
    std::vector<std::string> stopped;
    for (auto & n : act)
    {
      LOCK;
      auto & k = ctl(n);
      for (size_t i = logs.at(n); i < k.log.size(); ++i)
        if (k.log[i] == "on_deactivate" && !has(stopped, n)) stopped.push_back(n);
    }
    for (auto & n : stopped)
      if (has(may, n) || has(must, n))
        for (auto & f : ctl(n).fallbacks)
          if (!has(fb, f)) fb.push_back(f);
    // what a fallback controller takes its command interfaces from has to stop, with what needs it
    std::vector<std::string> used;
    for (auto & f : fb)
      if (known(f))
        for (auto & n : act)
          for (auto & i : ctl(f).cmd)
            if (has(ctl(n).cmd, i) && !has(used, n)) used.push_back(n);
    close(used);
    for (auto & n : used) may.push_back(n);
    for (auto & n : act)
    {
      if (has(must, n)) need("C25", has(stopped, n), "kept running", strf("%s failed in update; %s %s but was not stopped in that cycle", join(failed).c_str(), n.c_str(), has(failed, n) ? "is it" : "needs it"));
      else if (!has(may, n))
      {
        LOCK;
        need("C25", has(still, n) && ctl(n).log.size() == logs.at(n), "stopped without need", strf("%s failed in update; %s has nothing to do with it but was stopped or restarted", join(failed).c_str(), n.c_str()));
      }
    }
    std::vector<std::string> started;
    for (auto & n : still)
    {
      LOCK;
      auto & k = ctl(n);
      bool st = false;
      for (size_t i = logs.at(n); i < k.log.size(); ++i) st |= k.log[i] == "on_activate";
      if (st) started.push_back(n);
    }
    if (!in_switch || !failed.empty())
      for (auto & n : started)
        need("C25", has(fb, n), "started", strf("%s was started although it is no fallback of a controller that was stopped (failed: %s, stopped: %s)", n.c_str(), join(failed).c_str(), join(stopped).c_str()));
    if (failed.empty()) return;
    ++n_fail;
    bool can = !fb.empty();
    std::vector<std::string> wanted;
    for (auto & f : fb)
    {
      if (!known(f) || (ctl(f).st_ != INACT && ctl(f).st_ != ACT) || ctl(f).s.activate != OK || has(failed, f) || (has(stopped, f) && ctl(f).s.deactivate != OK)) can = false;
      else
      {
        for (auto & i : ctl(f).cmd)
        {
          can &= itf_free_for(i, true, fb, still) && !has(wanted, i);
          wanted.push_back(i);
          for (auto & n : still)
            if (n != f && !has(fb, n) && has(ctl(n).cmd, i)) can = false;
        }
        for (auto & i : ctl(f).st) can &= itf_free_for(i, false, fb, still);
      }
    }
    if (can)
    {
      ++n_fallback;
      for (auto & f : fb) need("C25", has(still, f), "fallback not started", strf("%s failed; its fallback %s of %s could be started but is not active", join(failed).c_str(), f.c_str(), join(fb).c_str()));
    }
    for (auto & n : started)
      if (ctl(n).chain)
      {
        bool ref = referenced(n, still);
        for (auto & s : specs())
          if (s.info.name == n) need("C23,C25", s.c->is_in_chained_mode() == ref, "chained mode of a fallback", strf("the fallback %s was started %s chained mode although its references are %s", n.c_str(), ref ? "without" : "in", ref ? "claimed" : "not claimed"));
      }
    resync(true);
  }

  // ------------------------------------------------------------------ the model follows what was observed
  std::vector<controller_manager::ControllerSpec> specs() { return cm->get_loaded_controllers(); }
  // adopts the states after something that the model leaves open; chained modes are not judged until
  // the next successful switch
  void resync(bool taint)
  {
    if (thread.joinable()) return;  // a request is being processed and may hold the list of controllers
    for (auto & s : specs())
    {
      auto & k = ctl(s.info.name);
      k.st_ = s.c->get_lifecycle_state().id();
    }
    auto act = active();
    if (taint)
      for (auto & s : specs())
        if (ctl(s.info.name).st_ == ACT && ctl(s.info.name).chain && s.c->is_in_chained_mode() != referenced(s.info.name, act)) ctl(s.info.name).tainted = true;
  }
  struct Snap
  {
    std::map<std::string, std::tuple<int, bool>> ctl;
    std::map<std::string, std::tuple<bool, bool>> cmd;  // available, claimed
    std::map<std::string, bool> st;
    std::map<std::string, size_t> logs;
    std::map<std::string, int> hw;
  };
  Snap snap()
  {
    Snap s;
    for (auto & x : specs()) s.ctl[x.info.name] = {x.c->get_lifecycle_state().id(), x.c->is_in_chained_mode()};
    auto & rm = cm->rm();
    for (auto & k : rm.command_interface_keys()) s.cmd[k] = {rm.command_interface_is_available(k), rm.command_interface_is_claimed(k)};
    for (auto & k : rm.state_interface_keys()) s.st[k] = rm.state_interface_is_available(k);
    s.logs = log_sizes();
    s.hw = hw_states();
    return s;
  }
  std::string difference(const Snap & a, const Snap & b, bool logs)
  {
    std::string r;
    if (a.ctl.size() != b.ctl.size()) r += strf(" %zu instead of %zu controllers;", b.ctl.size(), a.ctl.size());
    for (auto & [n, v] : a.ctl)
      if (b.ctl.count(n) && b.ctl.at(n) != v)
        r += strf(" %s was %s%s and is %s%s;", n.c_str(), label(std::get<0>(v)), std::get<1>(v) ? " chained" : "", label(std::get<0>(b.ctl.at(n))), std::get<1>(b.ctl.at(n)) ? " chained" : "");
    for (auto & [n, v] : a.cmd)
      if (!b.cmd.count(n)) r += " " + n + " vanished;";
      else if (b.cmd.at(n) != v) r += strf(" %s was %savailable and %sclaimed and is %savailable and %sclaimed;", n.c_str(), std::get<0>(v) ? "" : "un", std::get<1>(v) ? "" : "un", std::get<0>(b.cmd.at(n)) ? "" : "un", std::get<1>(b.cmd.at(n)) ? "" : "un");
    for (auto & [n, v] : b.cmd)
      if (!a.cmd.count(n)) r += " " + n + " appeared;";
    for (auto & [n, v] : a.st)
      if (!b.st.count(n)) r += " state " + n + " vanished;";
      else if (b.st.at(n) != v) r += strf(" state %s was %savailable and is %savailable;", n.c_str(), v ? "" : "un", b.st.at(n) ? "" : "un");
    for (auto & [n, v] : b.st)
      if (!a.st.count(n)) r += " state " + n + " appeared;";
    if (logs)
      for (auto & [n, v] : a.logs)
        if (b.logs.count(n) && b.logs.at(n) != v) r += " callbacks of " + n + " ran;";
    for (auto & [n, v] : a.hw)
      if (b.hw.at(n) != v) r += strf(" hardware %s was %s and is %s;", n.c_str(), label(v), label(b.hw.at(n)));
    return r;
  }
  // what holds between requests
  void invariants()
  {
    auto sp = specs();
    auto & rm = cm->rm();
    auto act = active();
    size_t loaded = 0;
    for (auto & n : order) loaded += known(n);
    need("C27", sp.size() == loaded, "loaded", strf("%zu controllers are loaded instead of %zu", sp.size(), loaded));
    for (auto & s : sp)
    {
      auto & k = ctl(s.info.name);
      int st = s.c->get_lifecycle_state().id();
      need("C22,C23,C25,C26,C27", st == k.st_, "state", strf("%s is %s instead of %s", k.name.c_str(), label(st), label(k.st_)));
      need("C22,C27", k.active == (st == ACT), "callbacks", strf("%s is %s but its last callback says that it %s active", k.name.c_str(), label(st), k.active ? "is" : "is not"));
      bool ch = s.c->is_in_chained_mode();
      if (k.chain && st == INACT) need("C23", !ch || !k.exported, "chained while inactive", strf("%s is %s and in chained mode", k.name.c_str(), label(st)));
      if (k.chain && st == ACT && !k.tainted)
        need("C23", ch == referenced(k.name, act), "chained mode", strf("%s is %s chained mode although its references are %s", k.name.c_str(), ch ? "in" : "not in", ch ? "not claimed" : "claimed"));
      if (st == ACT)
        for (auto & f : followers(k.name)) need("C23,C25,C26", ctl(f).st_ == ACT, "dangling", strf("%s is active and uses interfaces of %s which is %s", k.name.c_str(), f.c_str(), label(ctl(f).st_)));
      if (k.chain)
      {
        for (auto & i : k.full(k.refs))
        {
          bool e = rm.command_interface_exists(i), a = rm.command_interface_is_available(i);
          if (k.exported) need("C23,C28", e, "reference missing", strf("%s is %s but its reference %s does not exist", k.name.c_str(), label(st), i.c_str()));
          need("C23,C28", a == (st == ACT), "reference available", strf("%s is %s and its reference %s is %savailable", k.name.c_str(), label(st), i.c_str(), a ? "" : "not "));
        }
        for (auto & i : k.full(k.exps))
        {
          bool e = rm.state_interface_exists(i), a = rm.state_interface_is_available(i);
          if (k.exported) need("C23,C28", e, "exported state missing", strf("%s is %s but its state %s does not exist", k.name.c_str(), label(st), i.c_str()));
          need("C23,C28", a == (st == ACT), "exported state available", strf("%s is %s and its state %s is %savailable", k.name.c_str(), label(st), i.c_str(), a ? "" : "not "));
        }
      }
    }
    std::map<std::string, std::string> holder;
    for (auto & n : act)
    {
      auto & k = ctl(n);
      if (k.cmd_type == ICT::INDIVIDUAL) need("C01,C22", k.held_cmd == k.cmd, "command interfaces", strf("%s asked for %s and got %s", n.c_str(), join(k.cmd).c_str(), join(k.held_cmd).c_str()));
      if (k.st_type == ICT::INDIVIDUAL) need("C22", k.held_st == k.st, "state interfaces", strf("%s asked for %s and got %s", n.c_str(), join(k.st).c_str(), join(k.held_st).c_str()));
      for (auto & i : k.held_cmd)
      {
        need("C01,C22", !holder.count(i), "two owners", strf("%s is held by %s and %s", i.c_str(), holder.count(i) ? holder.at(i).c_str() : "", n.c_str()));
        holder[i] = n;
      }
    }
    for (auto & i : rm.command_interface_keys())
      if (rm.command_interface_is_available(i))
        need("C01,C22,C25,C26,C28", rm.command_interface_is_claimed(i) == (holder.count(i) > 0), "claim", strf("%s is %sclaimed, held by '%s'", i.c_str(), rm.command_interface_is_claimed(i) ? "" : "not ", holder.count(i) ? holder.at(i).c_str() : ""));
    for (auto & n : order)
    {
      LOCK;
      need("C27", ctl(n).alive == (known(n) ? 1 : 0), "instances", strf("there are %d instances of %s", ctl(n).alive, n.c_str()));
    }
  }
};
}  // namespace cmt
