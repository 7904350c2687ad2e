// The requests of the controller manager checks: what each is expected to do.
#pragma once
#include "cm.hpp"
#include "controller_manager_msgs/srv/cleanup_controller.hpp"
#include "controller_manager_msgs/srv/list_controller_types.hpp"
#include "controller_manager_msgs/srv/list_controllers.hpp"
#include "controller_manager_msgs/srv/list_hardware_components.hpp"
#include "controller_manager_msgs/srv/list_hardware_interfaces.hpp"
#include "controller_manager_msgs/srv/load_controller.hpp"
#include "controller_manager_msgs/srv/reload_controller_libraries.hpp"
#include "controller_manager_msgs/srv/set_hardware_component_state.hpp"
#include "controller_manager_msgs/srv/switch_controller.hpp"
#include "controller_manager_msgs/srv/unload_controller.hpp"

namespace cmt
{
inline std::vector<std::string> minus(const std::vector<std::string> & a, const std::vector<std::string> & b)
{
  std::vector<std::string> r;
  for (auto & x : a)
    if (!has(b, x)) r.push_back(x);
  return r;
}
inline std::vector<std::string> plus(const std::vector<std::string> & a, const std::vector<std::string> & b)
{
  auto r = a;
  for (auto & x : b)
    if (!has(r, x)) r.push_back(x);
  return r;
}
inline std::vector<std::string> both(const std::vector<std::string> & a, const std::vector<std::string> & b)
{
  std::vector<std::string> r;
  for (auto & x : a)
    if (has(b, x)) r.push_back(x);
  return r;
}
inline bool unique(const std::vector<std::string> & a)
{
  for (size_t i = 0; i < a.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (a[i] == a[j]) return false;
  return true;
}

struct Model : World
{
  using World::World;
  int n_best_effort = 0, n_partial = 0, n_act_failed = 0, n_open = 0, n_query = 0, n_links = 0;
  using V = std::vector<std::string>;

  // ------------------------------------------------------------------ life cycle of controllers
  std::vector<std::string> calls;
  int on_error(Ctl & k)
  {
    calls.push_back("on_error");
    return k.s.error == OK ? UNCONF : FIN;
  }
  int m_configure(Ctl & k)
  {
    calls.push_back("on_configure");
    return k.s.configure == OK ? INACT : k.s.configure == FAIL ? UNCONF : on_error(k);
  }
  int m_cleanup(Ctl & k)
  {
    calls.push_back("on_cleanup");
    return k.s.cleanup == OK ? UNCONF : k.s.cleanup == FAIL ? INACT : on_error(k);
  }
  void m_rate(Ctl & k)
  {
    int r = k.rate > 0 ? std::min(k.rate, CM_RATE) : CM_RATE;
    if (r < CM_RATE && CM_RATE % r) r = static_cast<int>(std::lround(CM_RATE / std::round(static_cast<double>(CM_RATE) / r)));
    k.live_rate = r;
  }
  std::string any_name(int unknown_percent = 6)
  {
    return c.chance(unknown_percent) ? c.pick<std::string>({"nobody", "", "c"}) : c.pick(order);
  }
  void ctl_note(const Ctl & k, const char * what)
  {
    auto & s = k.s;
    std::string r;
    auto add = [&](const char * n, Out o)
    {
      if (o != OK) r += strf(" %s:%s", n, out_name(o));
    };
    add("init", s.init);
    add("configure", s.configure);
    add("activate", s.activate);
    add("deactivate", s.deactivate);
    add("cleanup", s.cleanup);
    add("shutdown", s.shutdown);
    add("error", s.error);
    c.note("%s %s%s", what, k.name.c_str(), r.c_str());
  }
  void usual(Ctl & k)
  {
    LOCK;
    k.s.init = k.s.configure = k.s.activate = k.s.deactivate = k.s.cleanup = k.s.shutdown = k.s.error = OK;
  }
  void usual()
  {
    for (auto & n : order) usual(ctl(n));
  }
  Out outcome(int bad, bool failure = true)
  {
    if (!c.chance(bad)) return OK;
    return failure ? c.pick<Out>({FAIL, ERR, THROW}) : c.pick<Out>({ERR, THROW});
  }
  // calls a service of the controller manager
  template <class S>
  std::shared_ptr<typename S::Response> call(const std::string & name, std::shared_ptr<typename S::Request> q = std::make_shared<typename S::Request>())
  {
    auto it = shim::services().find("/cm/" + name);
    auto * s = it == shim::services().end() ? nullptr : dynamic_cast<rclcpp::Service<S> *>(it->second);
    if (!s) c.fail("service", "there is no service " + name);
    return s->call(q);
  }
  template <class S>
  bool named(const std::string & service, const std::string & name)
  {
    auto q = std::make_shared<typename S::Request>();
    q->name = name;
    return call<S>(service, q)->ok;
  }
  void request(const std::function<void()> & f, const char * what)
  {
    auto h = hw_states();
    beside(f, true);
    if (!escaped.empty()) c.fail("exception", strf("%s threw: %s", what, escaped.c_str()));
  }
  // what must not change through a request for one controller
  void rest(const Snap & a, const std::string & except, const char * what)
  {
    auto b = snap();
    Snap x = a, y = b;
    for (auto * s : {&x, &y})
    {
      s->ctl.erase(except);
      s->logs.erase(except);
      auto own = [&](const std::string & i) { return i.rfind(except + "/", 0) == 0; };
      for (auto it = s->cmd.begin(); it != s->cmd.end();) it = own(it->first) ? s->cmd.erase(it) : std::next(it);
      for (auto it = s->st.begin(); it != s->st.end();) it = own(it->first) ? s->st.erase(it) : std::next(it);
    }
    auto d = difference(x, y, true);
    need("C27", d.empty(), "others", strf("%s of %s changed something else:%s", what, except.c_str(), d.c_str()));
  }
  void refused(const Snap & a, const std::string & what, bool logs = true)
  {
    auto d = difference(a, snap(), logs);
    ++n_refused;
    need("C27", d.empty(), "refused but changed", strf("%s was refused but changed something:%s", what.c_str(), d.c_str()));
  }
  void check_calls(Ctl & k, size_t from, const char * what)
  {
    LOCK;
    V got(k.log.begin() + from, k.log.end());
    need("C27", got == calls, "callbacks run", strf("%s of %s ran %s instead of %s", what, k.name.c_str(), join(got).c_str(), join(calls).c_str()));
  }
  void op_load(const std::string & name, const std::string & type, bool smooth)
  {
    bool ours = ctls().count(name) > 0;
    auto s = snap();
    std::string t = !type.empty() ? type : ours ? ctl(name).type() : "check/Plain";
    if (!ours) return;
    auto & k = ctl(name);
    if (!smooth) k.s.init = outcome(12);
    bool by_param = t == k.type() && c.coin();
    ctl_note(k, ("load " + t).c_str());
    bool type_ok = t == k.type(), dup = known(name), self = has(k.fallbacks, name);
    size_t from = log_sizes()[name];
    bool got = false;
    bool service = by_param && c.coin();
    request([&] { got = service ? named<controller_manager_msgs::srv::LoadController>("load_controller", name) : (by_param ? cm->load_controller(name) : cm->load_controller(name, t)) != nullptr; }, "loading");
    bool want = type_ok && !dup && !self && k.s.init == OK;
    need("C27", got == want, "load", strf("loading %s%s%s%s (init: %s) was %s", name.c_str(), type_ok ? "" : " of an unknown type", dup ? ", already loaded" : "", self ? ", its own fallback" : "", out_name(k.s.init), got ? "accepted" : "refused"));
    if (!want)
    {
      bool ran = type_ok && !dup && !self;
      refused(s, "loading " + name, !ran);
      if (ran) rest(s, name, "a failed load");
    }
    else
    {
      calls = {"on_init"};
      check_calls(k, from, "loading");
      k.st_ = UNCONF;
      k.exported = k.tainted = false;
      k.active = false;
      k.live_rate = CM_RATE;
      k.last = -1;
      rest(s, name, "loading");
    }
    usual(k);
  }
  bool dups(const Ctl & k)
  {
    return (k.cmd_type == ICT::INDIVIDUAL && !unique(k.cmd)) || (k.st_type == ICT::INDIVIDUAL && !unique(k.st));
  }
  void op_configure(const std::string & name, bool smooth)
  {
    bool service = c.chance(30);
    auto s = snap();
    if (!known(name))
    {
      c.note("configure %s (not loaded)", name.c_str());
      CR r = CR::OK;
      request([&] { r = service ? (named<controller_manager_msgs::srv::ConfigureController>("configure_controller", name) ? CR::OK : CR::ERROR) : cm->configure_controller(name); }, "configuring");
      need("C27", r == CR::ERROR, "configure unknown", "configuring the unknown " + name + " was accepted");
      refused(s, "configuring " + name);
      return;
    }
    auto & k = ctl(name);
    if (!smooth)
    {
      LOCK;
      k.s.configure = outcome(20);
      k.s.cleanup = outcome(15);
      k.s.error = outcome(20);
    }
    ctl_note(k, "configure");
    size_t from = log_sizes()[name];
    CR r = CR::ERROR;
    int before = k.st_;
    request([&] { r = service ? (named<controller_manager_msgs::srv::ConfigureController>("configure_controller", name) ? CR::OK : CR::ERROR) : cm->configure_controller(name); }, "configuring");
    if (before == ACT || before == FIN)
    {
      need("C27", r == CR::ERROR, "configure refused", strf("configuring the %s %s was accepted", label(before), name.c_str()));
      refused(s, strf("configuring the %s %s", label(before), name.c_str()));
      usual(k);
      return;
    }
    calls.clear();
    int st = before;
    bool ok = false;
    if (st == INACT) st = m_cleanup(k);
    if (st == UNCONF)
    {
      k.exported = false;
      st = m_configure(k);
      if (st == INACT)
      {
        ok = !dups(k) && !(k.chain && (k.bad_prefix || k.refs.size() + k.exps.size() == 0));
        if (!ok) st = m_cleanup(k);
        if (ok) m_rate(k);
        if (ok && k.chain) k.exported = true;
      }
    }
    if (st != INACT) k.exported = false;
    k.st_ = st;
    k.tainted = false;
    need("C27", (r == CR::OK) == ok, "configure", strf("configuring %s (%s) was reported as %s", name.c_str(), label(before), r == CR::OK ? "successful" : "failed"));
    check_calls(k, from, "configuring");
    rest(s, name, "configuring");
    if (ok) need("C24", static_cast<int>(cm->get_loaded_controllers().size()) >= 0 && rate_of(name) == k.live_rate, "rate", strf("%s with the parameter update_rate %d got the rate %d instead of %d", name.c_str(), k.rate, rate_of(name), k.live_rate));
    if (k.st_ == INACT && !ok)
    {
      // it was configured but refused and could not be cleaned up: nothing is said about it
      throw Stop{};
    }
    usual(k);
  }
  int rate_of(const std::string & n)
  {
    for (auto & s : specs())
      if (s.info.name == n) return static_cast<int>(s.c->get_update_rate());
    return -1;
  }
  void op_cleanup(const std::string & name)
  {
    bool service = c.chance(30);
    auto s = snap();
    if (!known(name))
    {
      c.note("cleanup %s (not loaded)", name.c_str());
      CR r = CR::OK;
      request([&] { r = service ? (named<controller_manager_msgs::srv::CleanupController>("cleanup_controller", name) ? CR::OK : CR::ERROR) : cm->cleanup_controller(name); }, "cleanup");
      need("C27", r == CR::ERROR, "cleanup unknown", "cleaning up the unknown " + name + " was accepted");
      refused(s, "cleaning up " + name);
      return;
    }
    auto & k = ctl(name);
    {
      LOCK;
      k.s.cleanup = outcome(25);
      k.s.error = outcome(20);
    }
    ctl_note(k, "cleanup");
    size_t from = log_sizes()[name];
    CR r = CR::ERROR;
    int before = k.st_;
    request([&] { r = service ? (named<controller_manager_msgs::srv::CleanupController>("cleanup_controller", name) ? CR::OK : CR::ERROR) : cm->cleanup_controller(name); }, "cleanup");
    calls.clear();
    if (before == INACT)
    {
      k.st_ = m_cleanup(k);
      if (k.st_ != INACT) k.exported = false;
      need("C27", (r == CR::OK) == (k.st_ == UNCONF), "cleanup", strf("cleaning up %s was reported as %s although it is %s", name.c_str(), r == CR::OK ? "successful" : "failed", label(k.st_)));
      check_calls(k, from, "cleaning up");
      rest(s, name, "cleaning up");
    }
    else
    {
      need("C27", (r == CR::OK) == (before == UNCONF), "cleanup refused", strf("cleaning up the %s %s was reported as %s", label(before), name.c_str(), r == CR::OK ? "successful" : "failed"));
      refused(s, "cleaning up " + name);
    }
    usual(k);
  }
  void op_unload(const std::string & name)
  {
    bool service = c.chance(30);
    auto s = snap();
    if (!known(name))
    {
      c.note("unload %s (not loaded)", name.c_str());
      CR r = CR::OK;
      request([&] { r = service ? (named<controller_manager_msgs::srv::UnloadController>("unload_controller", name) ? CR::OK : CR::ERROR) : cm->unload_controller(name); }, "unloading");
      need("C27", r == CR::ERROR, "unload unknown", "unloading the unknown " + name + " was accepted");
      refused(s, "unloading " + name);
      return;
    }
    auto & k = ctl(name);
    {
      LOCK;
      k.s.cleanup = outcome(15);
      k.s.error = outcome(20);
      k.s.shutdown = outcome(15);
    }
    ctl_note(k, "unload");
    size_t from = log_sizes()[name];
    CR r = CR::ERROR;
    int before = k.st_;
    request([&] { r = service ? (named<controller_manager_msgs::srv::UnloadController>("unload_controller", name) ? CR::OK : CR::ERROR) : cm->unload_controller(name); }, "unloading");
    calls.clear();
    if (before == ACT)
    {
      need("C27", r == CR::ERROR, "unload active", "unloading the active " + name + " was accepted");
      refused(s, "unloading the active " + name);
    }
    else
    {
      int st = before;
      if (st == INACT) st = m_cleanup(k);
      bool ok = before == INACT ? st == UNCONF : true;
      if (ok && st == UNCONF)
      {
        calls.push_back("on_shutdown");
        if (k.s.shutdown == ERR || k.s.shutdown == THROW) calls.push_back("on_error");
      }
      need("C27", (r == CR::OK) == ok, "unload", strf("unloading the %s %s was reported as %s", label(before), name.c_str(), r == CR::OK ? "successful" : "failed"));
      check_calls(k, from, "unloading");
      k.st_ = ok ? ABSENT : st;
      if (k.st_ != INACT) k.exported = false;
      auto b = snap();
      if (ok)
        for (auto * m : {&b})
          for (auto & [i, v] : m->cmd) need("C27,C28", i.rfind(name + "/", 0) != 0, "left over", strf("%s still exists after unloading %s", i.c_str(), name.c_str()));
      rest(s, name, "unloading");
    }
    usual(k);
  }
  // everything is unloaded, unless controllers are active and must not be stopped
  void op_reload()
  {
    auto q = std::make_shared<controller_manager_msgs::srv::ReloadControllerLibraries::Request>();
    q->force_kill = c.coin();
    bool any = !active().empty();
    c.note("reload the libraries%s", q->force_kill ? " and stop all controllers" : "");
    auto s = snap();
    bool ok = false;
    in_switch = true;
    excused = order;
    request([&] { ok = call<controller_manager_msgs::srv::ReloadControllerLibraries>("reload_controller_libraries", q)->ok; }, "reloading");
    in_switch = false;
    excused.clear();
    {
      // the cycles beside the request were not judged
      LOCK;
      for (auto & n : order) ctl(n).last = last_of(n);
    }
    if (any && !q->force_kill)
    {
      if (o.async) work_off();
      need("C27", !ok, "reload", "the libraries were reloaded although controllers are active");
      refused(s, "reloading the libraries");
      return;
    }
    need("C27", ok, "reload refused", "reloading the libraries failed");
    for (auto & n : order)
      if (known(n))
      {
        LOCK;
        auto & k = ctl(n);
        int st = k.st_;
        calls.clear();
        if (st == ACT) calls.push_back("on_deactivate");
        if (st == ACT || st == INACT) calls.push_back("on_cleanup");
        if (st != FIN) calls.push_back("on_shutdown");
        check_calls(k, s.logs[n], "reloading the libraries");
        k.st_ = ABSENT;
        k.exported = k.tainted = false;
      }
    auto b = snap();
    for (auto & [i, v] : b.cmd) need("C27,C28", comp_of(i, true), "left over", i + " still exists after all controllers were unloaded");
    for (auto & [i, v] : b.st) need("C27,C28", comp_of(i, false), "left over", i + " still exists after all controllers were unloaded");
  }
  void op_lifecycle()
  {
    if (c.chance(2)) return op_reload();
    auto n = any_name();
    switch (c.weighted({3, 4, 2, 3}))
    {
      case 0: op_load(n, c.chance(12) ? c.pick<std::string>({"check/None", "", ctls().count(n) ? (ctl(n).chain ? "check/Plainn" : "x") : "x"}) : "", false); break;
      case 1: op_configure(n, false); break;
      case 2: op_cleanup(n); break;
      default: op_unload(n);
    }
  }

  // ------------------------------------------------------------------ hardware and cycles
  void op_hardware()
  {
    auto & k = c.pick(robot.comps);
    bool used = false;
    for (auto & n : active()) used |= uses(ctl(n), {k.name}, false);
    int target = used ? c.pick<int>({INACT, ACT}) : c.pick<int>({UNCONF, INACT, ACT, ACT, INACT, FIN});
    if (target == FIN && !c.chance(15)) target = ACT;
    c.note("bring hardware %s to %s", k.name.c_str(), label(target));
    rclcpp_lifecycle::State st(static_cast<uint8_t>(target), label(target));
    auto s = snap();
    cm->rm().set_component_state(k.name, st);
    auto b = snap();
    s.hw[k.name] = b.hw[k.name];
    for (auto & i : k.cmds()) std::get<0>(s.cmd[i]) = std::get<0>(b.cmd[i]);
    for (auto & i : k.states()) s.st[i] = b.st[i];
    auto d = difference(s, b, true);
    need("C29", d.empty(), "hardware request", strf("a request for %s changed something else:%s", k.name.c_str(), d.c_str()));
  }
  int64_t step()
  {
    if (prop() == "C34" || (prop() != "C24" && !c.chance(10))) return TICK;
    switch (c.weighted({10, 3, 2, 1}))
    {
      case 0: return TICK;
      case 1: return TICK + c.range(-2000, 2000) * 1000;
      case 2: return c.range(1, 40) * 1'000'000LL;
      default: return TICK * c.range(2, 10) + c.range(0, 1000);
    }
  }
  void op_cycle()
  {
    int n = 1 + static_cast<int>(c.below(prop() == "C24" ? 6 : 2));
    for (int i = 0; i < n; ++i)
    {
      auto d = step();
      if (d != TICK) c.note("cycle after %.6f s", d * 1e-9);
      else c.note("cycle");
      if (o.async && c.coin()) work(c.coin());
      cycle(d);
      if (o.async && c.coin()) work(c.coin());
    }
  }
  // a cycle in which something fails
  void op_failures()
  {
    const auto & p = prop();
    bool any = false, any_hw = false;
    std::string txt;
    if (c.chance(p != "C26" ? 70 : o.fallbacks ? 45 : 10))
      for (auto & n : active())
        if (c.chance(35))
        {
          LOCK;
          ctl(n).upd = c.coin() ? U_ERROR : U_THROW;
          ctl(n).s.deactivate = outcome(8, false);
          ctl(n).s.error = outcome(20);
          for (auto & f : ctl(n).fallbacks)
            if (known(f)) ctl(f).s.activate = outcome(12);
          txt += " " + n + (ctl(n).upd == U_ERROR ? " fails" : " throws");
          any = true;
        }
    if (p == "C25" ? c.chance(5) : !any || c.chance(25))
      for (auto & k : robot.comps)
        if (hw_state(k.name) == ACT || hw_state(k.name) == INACT)
        {
          auto & s = scripts()[k.name];
          if (c.chance(30)) s.read = c.pick<Io>({IO_ERROR, IO_THROW, IO_DEACTIVATE});
          if (k.type != "sensor" && c.chance(30)) s.write = c.pick<Io>({IO_ERROR, IO_THROW, IO_DEACTIVATE});
          if (c.chance(10)) s.error = c.pick<Out>({FAIL, ERR});
          any_hw |= s.read != IO_OK || s.write != IO_OK;
          if (s.read != IO_OK || s.write != IO_OK) txt += strf(" %s read:%s write:%s", k.name.c_str(), io_name(s.read), io_name(s.write));
        }
    c.note("cycle with failures:%s", txt.c_str());
    if (o.async && c.coin()) work(c.coin());
    cycle(TICK);
    for (int i = static_cast<int>(c.below(3)); o.async && i > 0; --i)
    {
      if (c.chance(75)) work(c.coin());
      c.note("cycle");
      cycle(TICK);
    }
    for (auto & n : order)
    {
      LOCK;
      ctl(n).upd = U_OK;
    }
    usual();
    for (auto & k : robot.comps)
    {
      auto & s = scripts()[k.name];
      s.read = s.write = IO_OK;
      s.error = OK;
    }
    // what belongs to the same group may fail one cycle later
    for (int i = 0; i < 2 && any_hw; ++i) cycle(TICK);
  }

  // ------------------------------------------------------------------ switches
  struct Verdict
  {
    bool refuse = false, open = false;
    std::string why;
    void no(const std::string & w)
    {
      if (!refuse) why = w;
      refuse = true;
    }
  };
  // availability of an interface when the given controllers are active afterwards
  bool there(const std::string & i, bool cmd, const V & after, bool as_fallback, const V & fallbacks, bool * open = nullptr)
  {
    auto w = i.substr(0, i.find('/'));
    if (ctls().count(w))
    {
      if (!known(w)) return false;
      auto & k = ctl(w);
      if (!k.exported || !has(k.full(cmd ? k.refs : k.exps), i)) return false;
      // what becomes active with the same switch may or may not count
      if (open && k.st_ != ACT && !has(fallbacks, w) && has(after, w)) return *open = true;
      if (as_fallback) return k.st_ == ACT || has(fallbacks, w);
      return has(after, w);
    }
    auto q = comp_of(i, cmd);
    if (!q) return false;
    int s = hw_state(q->name);
    return s == ACT || s == INACT;
  }
  // the rules on the states of the controllers, for one controller to be activated
  bool may_activate(const std::string & a, const V & A, const V & D, Verdict & v)
  {
    Verdict w;
    if (!known(a)) w.no(a + " is not loaded");
    else
    {
      auto & k = ctl(a);
      if (k.st_ == ACT && !has(D, a)) w.no(a + " is active");
      else if (k.st_ != ACT && k.st_ != INACT) w.no(a + " is " + label(k.st_));
      else
      {
        V after = plus(minus(active(), D), A), chain{a};
        for (size_t i = 0; i < chain.size(); ++i)
          for (auto & f : followers(chain[i]))
          {
            if (!ctl(f).chain) w.no(f + " is not chainable");
            if (!has(after, f)) w.no(chain[i] + " needs " + f + " which will not be active");
            // a restart of what is needed is not asked of the manager
            else if (has(D, f) && ctl(f).st_ == ACT) w.open = true;
            if (!has(chain, f)) chain.push_back(f);
          }
        // fallbacks are ready
        for (auto & f : k.fallbacks)
        {
          if (!known(f) || (ctl(f).st_ != INACT && ctl(f).st_ != ACT)) w.no("fallback " + f + " is not configured");
          else
          {
            for (auto & i : ctl(f).cmd) fb_itf(a, f, i, true, A, w);
            for (auto & i : ctl(f).st) fb_itf(a, f, i, false, A, w);
          }
        }
      }
    }
    if (w.refuse) v.no(w.why);
    v.open |= w.open;
    return !w.refuse;
  }
  void fb_itf(const std::string & a, const std::string & f, const std::string & i, bool cmd, const V & A, Verdict & w)
  {
    if (there(i, cmd, plus(active(), A), true, ctl(a).fallbacks, &w.open)) return;
    // a member of the fallback list that is active but does not offer the interface is noticed later
    w.no(strf("interface %s of the fallback %s is not there", i.c_str(), f.c_str()));
  }
  bool may_deactivate(const std::string & d, const V & A, const V & D, Verdict & v)
  {
    Verdict w;
    if (!known(d)) w.no(d + " is not loaded");
    else if (ctl(d).st_ != ACT) w.no(d + " is not active");
    else
      for (auto & p : dependents(d))
      {
        bool act = ctl(p).st_ == ACT;
        bool after = (act && !has(D, p)) || has(A, p);
        if (has(A, d))
        {
          if ((act && !has(D, p)) || (!act && has(A, p))) w.open = true;
        }
        else if (after && (act || ctl(p).st_ == INACT)) w.no(p + " needs " + d + " and will be active");
      }
    if (w.refuse) v.no(w.why);
    v.open |= w.open;
    return !w.refuse;
  }
  // interfaces and hardware
  void interfaces(const V & A, const V & D, Verdict & v)
  {
    V after = plus(minus(active(), D), A);
    for (auto & a : A)
    {
      auto & k = ctl(a);
      for (auto & i : k.cmd)
      {
        if (!there(i, true, after, false, {})) v.no(strf("%s needs %s which is not available", a.c_str(), i.c_str()));
        for (auto & m : after)
          if (m != a && has(ctl(m).cmd, i)) v.no(strf("%s is wanted by %s and %s", i.c_str(), a.c_str(), m.c_str()));
        auto q = comp_of(i, true);
        if (q && hw_state(q->name) == INACT && !allow_inactive) v.no(strf("%s belongs to inactive hardware", i.c_str()));
      }
      for (auto & i : k.st)
        if (!there(i, false, after, false, {})) v.no(strf("%s needs the state %s which is not available", a.c_str(), i.c_str()));
    }
  }
  // hardware that is told about the switch, with restarts of followers
  V concerned(const V & A, const V & D)
  {
    V r;
    V after = plus(minus(active(), D), A), all = plus(A, D);
    for (auto & n : active())
      if (ctl(n).chain && has(after, n) && (referenced(n, active()) != referenced(n, after))) all = plus(all, {n});
    for (auto & n : all)
      for (auto & i : ctl(n).cmd)
        if (auto q = comp_of(i, true))
          if (!has(r, q->name)) r.push_back(q->name);
    return r;
  }
  Verdict strict(const V & A, const V & D)
  {
    Verdict v;
    for (auto & a : A) may_activate(a, A, D, v);
    for (auto & d : D) may_deactivate(d, A, D, v);
    if (v.refuse) return v;
    interfaces(A, D, v);
    return v;
  }
  // what a best effort switch does: the greatest sets that keep the rules
  bool best_effort(V & A, V & D)
  {
    bool open = false;
    for (bool again = true; again;)
    {
      again = false;
      for (auto it = A.begin(); it != A.end();)
      {
        Verdict v;
        if (may_activate(*it, A, D, v)) ++it;
        else it = A.erase(it), again = true;
        open |= v.open;
      }
    }
    for (bool again = true; again;)
    {
      again = false;
      for (auto it = D.begin(); it != D.end();)
      {
        Verdict v;
        if (may_deactivate(*it, A, D, v)) ++it;
        else it = D.erase(it), again = true;
        open |= v.open;
      }
    }
    return open;
  }
  void op_switch()
  {
    V A, D;
    int kind = static_cast<int>(c.weighted({50, 30, 20}));
    if (kind < 2)
    {
      // a valid request: some of the active with what needs them, some of the inactive with what they need
      for (auto & n : active())
        if (c.chance(30)) D.push_back(n);
      close(D);
      D = both(D, active());
      if (c.chance(15)) D.clear();
      V cand;
      for (auto & n : order)
        if (known(n) && ctl(n).st_ == INACT) cand.push_back(n);
      c.shuffle(cand);
      for (auto & n : cand)
      {
        if (!c.chance(60)) continue;
        V add{n};
        for (size_t i = 0; i < add.size(); ++i)
          for (auto & f : followers(add[i]))
            if (!has(add, f) && !has(A, f) && !(ctl(f).st_ == ACT && !has(D, f))) add.push_back(f);
        Verdict v;
        auto B = plus(A, add);
        v = strict(B, D);
        if (!v.refuse && !v.open) A = B;
      }
      // restarts
      for (auto & n : D)
        if (c.chance(10))
        {
          auto B = plus(A, {n});
          auto v = strict(B, D);
          if (!v.refuse && !v.open) A = B;
        }
      if (kind == 1)
        for (int x = 1 + static_cast<int>(c.below(2)); x > 0; --x)
        {
          auto & l = c.coin() ? A : D;
          if (!l.empty() && c.coin()) l.erase(l.begin() + c.below(l.size()));
          else l.push_back(any_name(10));
        }
    }
    else
      for (auto * l : {&A, &D})
        while (c.more(2)) l->push_back(any_name(8));
    if (!c.chance(3))
    {
      A = plus({}, A);
      D = plus({}, D);
    }
    c.shuffle(A);
    c.shuffle(D);
    int strictness = c.chance(70) ? SW::STRICT : SW::BEST_EFFORT;
    bool asap = !c.chance(15);
    do_switch(A, D, strictness, asap);
  }
  void do_switch(V A, V D, int strictness, bool asap)
  {
    // a controller named twice is switched once
    const V request_a = A, request_d = D;
    A = plus({}, A);
    D = plus({}, D);
    bool none_known = false;
    if (strictness != SW::STRICT)
    {
      // a list of which nothing is known is refused as a whole
      auto unknown = [&](const V & l)
      {
        if (l.empty()) return false;
        for (auto & x : l)
          if (!known(x)) return true;
        return false;
      };
      if (unknown(A) || unknown(D))
      {
        V a, d;
        for (auto & x : A)
          if (known(x)) a.push_back(x);
        for (auto & x : D)
          if (known(x)) d.push_back(x);
        none_known = (a.empty() && !A.empty()) || (d.empty() && !D.empty());
        A = a;
        D = d;
      }
    }
    auto v = strict(A, D);
    V A1 = A, D1 = D;
    bool best = strictness != SW::STRICT, partial = false;
    if (best)
    {
      ++n_best_effort;
      A1 = plus({}, A), D1 = plus({}, D);
      bool maybe = best_effort(A1, D1);
      V A2 = A1, D2 = D1;
      A2 = plus({}, A2);
      best_effort(A2, D2);
      partial = A1.size() != plus({}, A).size() || D1.size() != plus({}, D).size();
      n_partial += partial;
      bool open = maybe || A2 != A1 || D2 != D1 || none_known;
      v = strict(A1, D1);
      v.open |= open;
    }
    // outcomes
    V fails;
    for (auto & a : A1)
      if (known(a))
      {
        LOCK;
        ctl(a).s.activate = outcome(5);
        if (ctl(a).s.activate != OK) fails.push_back(a);
        ctl(a).s.error = outcome(20);
      }
    for (auto & d : D1)
      if (known(d))
      {
        LOCK;
        ctl(d).s.deactivate = outcome(3, false);
        ctl(d).s.error = outcome(20);
      }
    std::string hwtxt;
    V con = v.refuse ? V{} : concerned(A1, D1);
    bool hw_refuses = false;
    for (auto & k : robot.comps)
    {
      auto & s = scripts()[k.name];
      s.prepare = c.chance(4) ? c.pick<Io>({IO_ERROR, IO_THROW}) : IO_OK;
      s.perform = c.chance(3) ? c.pick<Io>({IO_ERROR, IO_THROW}) : IO_OK;
      if (s.prepare != IO_OK || s.perform != IO_OK) hwtxt += strf(" (%s prepare:%s perform:%s)", k.name.c_str(), io_name(s.prepare), io_name(s.perform));
      if (has(con, k.name))
      {
        hw_refuses |= s.prepare != IO_OK || s.perform != IO_OK;
        if (hw_state(k.name) != ACT && hw_state(k.name) != INACT) v.no(k.name + " is " + label(hw_state(k.name)));
      }
      s.prep_start.clear();
      s.prep_stop.clear();
      s.perf_start.clear();
      s.perf_stop.clear();
    }
    // controllers that have nothing to do with the request fail while it is processed: the cycles go on
    std::string racing_txt;
    if ((prop() == "C25" || prop() == "C26") && A.empty() && D1.size() && !v.refuse && !v.open && !hw_refuses && c.chance(30))
    {
      LOCK;
      V mine;
      for (auto & d : D1) mine = plus(mine, group(d));
      for (auto & n : active())
      {
        bool apart = !has(mine, n);
        for (auto & m : group(n)) apart &= ctl(m).fallbacks.empty() && !has(mine, m) && ctl(m).s.deactivate == OK;
        if (apart && c.chance(60))
        {
          racing = v.open = true;
          ctl(n).upd = c.coin() ? U_ERROR : U_THROW;
          racing_txt += strf(" (%s fails in update)", n.c_str());
        }
      }
      n_racing += racing;
      hwtxt += racing_txt;
    }
    // a restart of a follower starts its interfaces: with inactive hardware that is refused
    V after = plus(minus(active(), D1), A1);
    V restarted;
    for (auto & n : active())
      if (ctl(n).chain && has(after, n) && !has(D1, n) && (referenced(n, active()) != referenced(n, after) || ctl(n).tainted)) restarted.push_back(n);
    if (!v.refuse)
      for (auto & n : restarted)
      {
        if (ctl(n).tainted) v.open = true;
        for (auto & i : ctl(n).cmd)
          if (auto q = comp_of(i, true))
            if (hw_state(q->name) == INACT && !allow_inactive) v.open = true;
      }
    for (auto & k : con)
      if (hw_state(k) == INACT) v.open |= false;
    if (v.refuse && v.why.find("inactive hardware") != std::string::npos) v.open |= false;
    // nothing is updated until the time for the switch is over
    bool lost = !v.refuse && !v.open && !hw_refuses && !racing && !o.async && !(A1.empty() && D1.empty()) && c.chance(6);
    std::string act;
    for (auto & a : fails) act += strf(" (activation of %s: %s)", a.c_str(), out_name(ctl(a).s.activate));
    for (auto & d : D1)
      if (known(d) && ctl(d).s.deactivate != OK) act += strf(" (deactivation of %s: %s)", d.c_str(), out_name(ctl(d).s.deactivate));
    c.note("switch %s%s activate %s deactivate %s%s%s  -> %s", best ? "best effort" : "strict", asap ? "" : " not asap", join(request_a).c_str(), join(request_d).c_str(), act.c_str(), hwtxt.c_str(),
      lost ? "timeout" : v.open ? "open" : v.refuse ? ("refused: " + v.why).c_str() : hw_refuses ? "hardware refuses" : partial ? (join(A1) + join(D1)).c_str() : "accepted");
    auto s = snap();
    V before = active();
    excused = plus(plus(A, D), restarted);
    for (auto & n : order)
      if (known(n) && ((ctl(n).chain && v.open) || racing)) excused = plus(excused, {n});
    in_switch = true;
    CR r = CR::ERROR;
    std::string msg;
    struct Reset
    {
      Model & m;
      ~Reset() { m.in_switch = m.racing = false, m.excused.clear(); }
    } reset{*this};
    bool service = c.chance(30);
    auto ask = [&] {
      rclcpp::Duration timeout = lost ? rclcpp::Duration(std::chrono::milliseconds(3)) : rclcpp::Duration(std::chrono::seconds(racing ? 4 : 20));
      if (service)
      {
        auto q = std::make_shared<SW>();
        q->activate_controllers = request_a;
        q->deactivate_controllers = request_d;
        q->strictness = strictness;
        q->activate_asap = asap;
        q->timeout = timeout;
        auto a = call<controller_manager_msgs::srv::SwitchController>("switch_controller", q);
        r = a->ok ? CR::OK : CR::ERROR;
        msg = a->message;
      }
      else r = cm->switch_controller_cb(request_a, request_d, strictness, asap, timeout, msg);
    };
    if (lost) ask();
    else request(ask, "a switch");
    in_switch = false;
    if (o.async) work_off();
    if (racing)
      for (auto & n : order) ctl(n).upd = U_OK;
    bool ok = r == CR::OK;
    for (auto & k : robot.comps) scripts()[k.name].prepare = scripts()[k.name].perform = IO_OK;
    {
      LOCK;
      for (auto & n : excused)
        if (ctls().count(n)) ctl(n).last = last_of(n);
    }
    excused.clear();
    auto sp = specs();
    std::map<std::string, int> now_;
    for (auto & x : sp) now_[x.info.name] = x.c->get_lifecycle_state().id();
    if (v.open)
    {
      ++n_open;
      // controllers that were not asked for stay as they are
      if (!best && fails.empty() && !racing)
      {
        bool stops = true;
        for (auto & d : D)
          if (known(d)) stops &= ctl(d).s.deactivate == OK;
        if (!ok && stops)
        {
          auto d = difference(s, snap(), true);
          need("C22", d.empty(), "refused but changed", strf("the strict switch was answered as failed but changed something:%s", d.c_str()));
        }
        if (ok)
        {
          for (auto & a : A) need("C22", now_[a] == ACT, "not activated", strf("the switch succeeded but %s is %s", a.c_str(), label(now_[a])));
          for (auto & d : minus(D, A)) need("C22", now_[d] != ACT, "not deactivated", strf("the switch succeeded but %s is active", d.c_str()));
        }
      }
      resync(true);
      // a switch of nothing puts nothing right
      if (ok && s.logs != log_sizes())
        for (auto & n : order) if (known(n)) ctl(n).tainted = false;
      usual();
      // nothing may dangle: checked by the invariants
      return;
    }
    if (lost)
    {
      ++n_lost;
      need("C22", !ok, "accepted", "the switch was answered as successful although no cycle ran until its timeout");
      auto late = [&](const char * when)
      {
        auto d = difference(s, snap(), true);
        need("C22", d.empty(), "timed out but changed", strf("the switch timed out but changed something %s:%s", when, d.c_str()));
      };
      late("at once");
      usual();
      // the next cycles do not take it up again
      for (int i = 0; i < 2; ++i) raw_cycle();
      {
        LOCK;
        for (auto & n : order) ctl(n).last = last_of(n);
      }
      late("in a later cycle");
      return;
    }
    if (v.refuse || hw_refuses)
    {
      ++n_switch_refused;
      need("C22", !ok, "accepted", strf("the switch was answered as successful although %s", v.refuse ? v.why.c_str() : "the hardware refused it"));
      auto d = difference(s, snap(), true);
      need("C22", d.empty(), "refused but changed", strf("the switch was refused (%s) but changed something:%s", v.refuse ? v.why.c_str() : "hardware", d.c_str()));
      usual();
      return;
    }
    if (A1.empty() && D1.empty())
    {
      need("C22", ok, "empty", "a switch of nothing was answered as failed");
      auto d = difference(s, snap(), true);
      need("C22", d.empty(), "empty but changed", strf("a switch of nothing changed something:%s", d.c_str()));
      usual();
      return;
    }
    // deactivation that fails still takes the controller out of the active state
    auto state_after_stop = [&](const std::string & n)
    {
      auto & k = ctl(n);
      return k.s.deactivate == OK ? INACT : k.s.error == OK ? UNCONF : FIN;
    };
    // controllers the switch has nothing to do with
    for (auto & n : order)
    {
      if (!known(n) || has(A1, n) || has(D1, n)) continue;
      if (has(restarted, n)) continue;
      if (!fails.empty() && has(before, n)) continue;  // may depend on what failed
      need("C22", now_[n] == std::get<0>(s.ctl[n]), "bystander", strf("%s is not part of the switch, was %s and is %s", n.c_str(), label(std::get<0>(s.ctl[n])), label(now_[n])));
      need("C22", s.logs[n] == log_sizes()[n], "bystander callbacks", strf("callbacks of %s, which is not part of the switch, ran", n.c_str()));
    }
    // a controller that cannot be stopped properly cannot be started again
    for (auto & a : both(A1, D1))
      if (ctl(a).s.deactivate != OK && !has(fails, a)) fails.push_back(a);
    if (fails.empty())
    {
      bool stops_ok = true;
      for (auto & d : D1) stops_ok &= ctl(d).s.deactivate == OK;
      need("C22", ok, "failed", strf("the switch was answered as failed: %s", msg.c_str()));
      for (auto & a : A1) need("C22", now_[a] == ACT, "not activated", strf("the switch succeeded but %s is %s", a.c_str(), label(now_[a])));
      for (auto & d : minus(D1, A1)) need("C22", now_[d] == state_after_stop(d), "not deactivated", strf("the switch succeeded but %s is %s instead of %s", d.c_str(), label(now_[d]), label(state_after_stop(d))));
      for (auto & n : restarted)
      {
        need("C22,C23", now_[n] == ACT, "restarted", strf("%s had to change its chained mode and is %s", n.c_str(), label(now_[n])));
        LOCK;
        auto & l = ctl(n).log;
        V got(l.begin() + s.logs[n], l.end());
        need("C23", got == V({"on_deactivate", "on_activate"}), "restart", strf("%s changes its chained mode; callbacks %s ran", n.c_str(), join(got).c_str()));
      }
      if (restarted.empty())
        for (auto & k : robot.comps)
        {
          auto & x = scripts()[k.name];
          V a, d;
          for (auto & n : A1)
            for (auto & i : ctl(n).cmd)
              if (has(k.cmds(), i)) a.push_back(i);
          for (auto & n : D1)
            for (auto & i : ctl(n).cmd)
              if (has(k.cmds(), i)) d.push_back(i);
          auto so = [](V z) { std::sort(z.begin(), z.end()); return z; };
          need("C22", so(x.perf_start) == so(a) && so(x.perf_stop) == so(d), "mode switch", strf("%s was told to start %s and stop %s instead of %s and %s", k.name.c_str(), join(x.perf_start).c_str(), join(x.perf_stop).c_str(), join(a).c_str(), join(d).c_str()));
        }
      ++n_switch_ok;
      n_activated += static_cast<int>(A1.size());
      for (auto & n : order)
        if (known(n))
        {
          ctl(n).st_ = now_[n];
          ctl(n).tainted = false;
          if (now_[n] == UNCONF || now_[n] == FIN) gone(n);
        }
    }
    else
    {
      ++n_act_failed;
      need("C22", !ok, "claims success", strf("the activation of %s failed but the switch was answered as successful", join(fails).c_str()));
      for (auto & d : minus(D1, A1)) need("C22", now_[d] == state_after_stop(d), "not deactivated", strf("%s is %s instead of %s after a switch with failed activations", d.c_str(), label(now_[d]), label(state_after_stop(d))));
      for (auto & a : fails) need("C22", now_[a] != ACT, "failed but active", strf("the activation of %s failed but it is active", a.c_str()));
      if (!best)
        for (auto & a : A1) need("C22", now_[a] != ACT, "half done", strf("the activation of %s failed but %s of the same strict switch is active", join(fails).c_str(), a.c_str()));
      else
      {
        V down = fails;
        close(down);
        for (auto & a : A1)
          if (!has(down, a)) need("C22", now_[a] == ACT, "best effort", strf("the activation of %s failed; %s does not depend on it but is %s", join(fails).c_str(), a.c_str(), label(now_[a])));
      }
      resync(true);
      for (auto & n : order)
        if (known(n) && (ctl(n).st_ == UNCONF || ctl(n).st_ == FIN)) gone(n);
    }
    usual();
  }
  int64_t last_of(const std::string & n)
  {
    auto & k = ctl(n);
    if (!k.active) return -1;
    // the last update since it was activated
    for (size_t i = k.upds.size(); i-- > 0;)
      return k.upds_at_activation <= i ? k.upds[i].t : -1;
    return -1;
  }
  // a controller that left the configured states through an error
  void gone(const std::string &) {}

  // ------------------------------------------------------------------ introspection
  static V sorted(V v)
  {
    std::sort(v.begin(), v.end());
    return v;
  }
  void same(const char * sig, const std::string & what, const V & got, const V & want)
  {
    need("C28", sorted(got) == sorted(want), sig, strf("%s are listed as %s instead of %s", what.c_str(), join(sorted(got)).c_str(), join(sorted(want)).c_str()));
  }
  void same(const char * sig, const std::string & what, const std::string & got, const std::string & want)
  {
    need("C28", got == want, sig, strf("%s is listed as '%s' instead of '%s'", what.c_str(), got.c_str(), want.c_str()));
  }
  std::string yes(bool b) { return b ? "true" : "false"; }
  void query_controllers()
  {
    auto r = call<controller_manager_msgs::srv::ListControllers>("list_controllers");
    V got, want;
    for (auto & x : r->controller) got.push_back(x.name);
    for (auto & n : order)
      if (known(n)) want.push_back(n);
    same("controllers", "the loaded controllers", got, want);
    auto act = active();
    for (auto & x : r->controller)
    {
      auto & k = ctl(x.name);
      const auto & n = x.name;
      bool conf = k.st_ == INACT || k.st_ == ACT;
      same("type", "the type of " + n, x.type, k.type());
      same("state", "the state of " + n, x.state, label(k.st_));
      same("async", "is_async of " + n, yes(x.is_async), "false");
      same("chainable", "is_chainable of " + n, yes(x.is_chainable), yes(k.chain));
      if (conf) same("rate", "the update rate of " + n, strf("%d", x.update_rate), strf("%d", k.live_rate));
      for (auto & y : specs())
        if (y.info.name == n) same("chained", "is_chained of " + n, yes(x.is_chained), yes(y.c->is_in_chained_mode()));
      if (!k.tainted && k.st_ == ACT) same("chained", "is_chained of the active " + n, yes(x.is_chained), yes(k.chain && referenced(n, act)));
      same("required commands", "the required command interfaces of the " + x.state + " " + n, x.required_command_interfaces, conf ? k.cmd : V{});
      same("required states", "the required state interfaces of the " + x.state + " " + n, x.required_state_interfaces, conf ? k.st : V{});
      same("claimed", "the claimed interfaces of the " + x.state + " " + n, x.claimed_interfaces, k.st_ == ACT ? k.held_cmd : V{});
      same("references", "the reference interfaces of the " + x.state + " " + n, x.reference_interfaces, conf && k.chain ? k.refs : V{});
      same("exported states", "the exported state interfaces of the " + x.state + " " + n, x.exported_state_interfaces, conf && k.chain ? k.exps : V{});
      std::map<std::string, V> links, listed;
      if (conf)
        for (auto & i : k.cmd)
          if (auto w = owner(i); !w.empty()) links[w].push_back(i.substr(w.size() + 1));
      V a, b;
      for (auto & y : x.chain_connections)
      {
        a.push_back(y.name);
        need("C28", !listed.count(y.name), "connection twice", strf("the connection of %s with %s is listed twice", n.c_str(), y.name.c_str()));
        listed[y.name] = y.reference_interfaces;
      }
      for (auto & [w, v] : links) b.push_back(w);
      same("connections", "the chain connections of the " + x.state + " " + n, a, b);
      for (auto & [w, v] : links) same("connection interfaces", "the interfaces of the connection of " + n + " with " + w, listed[w], v);
      if (links.size() > 1) ++n_links;
    }
  }
  std::map<std::string, std::string> holders()
  {
    std::map<std::string, std::string> h;
    for (auto & n : active())
      for (auto & i : ctl(n).held_cmd) h[i] = n;
    return h;
  }
  template <class H>
  void query_interface(const H & i, bool cmd, bool available, const std::map<std::string, std::string> & h)
  {
    std::string n = (cmd ? "command interface " : "state interface ") + i.name;
    same("available", "the availability of the " + n, yes(i.is_available), yes(available));
    same("data type", "the data type of the " + n, i.data_type, "double");
    // what is not available cannot be claimed
    same("claimed interface", "is_claimed of the " + n, yes(i.is_claimed), yes(cmd && available && h.count(i.name)));
  }
  void query_hardware()
  {
    auto h = holders();
    auto hs = hw_states();
    auto up = [&](const std::string & comp) { return hs.at(comp) == ACT || hs.at(comp) == INACT; };
    if (c.coin())
    {
      auto r = call<controller_manager_msgs::srv::ListHardwareComponents>("list_hardware_components");
      V got, want;
      for (auto & x : r->component) got.push_back(x.name);
      for (auto & k : robot.comps) want.push_back(k.name);
      same("components", "the hardware components", got, want);
      for (auto & k : robot.comps)
        for (auto & x : r->component)
          if (x.name == k.name)
          {
            same("component type", "the type of " + k.name, x.type, k.type);
            same("component plugin", "the plugin of " + k.name, x.plugin_name, k.plugin);
            same("component state", "the state of " + k.name, x.state.label, label(hs[k.name]));
            same("component state id", "the state of " + k.name, label(x.state.id), label(hs[k.name]));
            same("component rate", "the rate of " + k.name, strf("%d", x.rw_rate), strf("%d", k.rate ? k.rate : CM_RATE));
            same("component async", "is_async of " + k.name, yes(x.is_async), "false");
            V a, b;
            for (auto & i : x.command_interfaces) a.push_back(i.name), query_interface(i, true, up(k.name), h);
            for (auto & i : x.state_interfaces) b.push_back(i.name), query_interface(i, false, up(k.name), h);
            same("component commands", "the command interfaces of " + k.name, a, k.cmds());
            same("component states", "the state interfaces of " + k.name, b, k.states());
          }
      return;
    }
    auto r = call<controller_manager_msgs::srv::ListHardwareInterfaces>("list_hardware_interfaces");
    std::map<std::string, bool> cmds, states;
    for (auto & k : robot.comps)
    {
      for (auto & i : k.cmds()) cmds[i] = up(k.name);
      for (auto & i : k.states()) states[i] = up(k.name);
    }
    for (auto & n : order)
      if (known(n) && ctl(n).exported)
      {
        for (auto & i : ctl(n).full(ctl(n).refs)) cmds[i] = ctl(n).st_ == ACT;
        for (auto & i : ctl(n).full(ctl(n).exps)) states[i] = ctl(n).st_ == ACT;
      }
    V a, b, wa, wb;
    for (auto & i : r->command_interfaces) a.push_back(i.name), query_interface(i, true, cmds.count(i.name) && cmds[i.name], h);
    for (auto & i : r->state_interfaces) b.push_back(i.name), query_interface(i, false, states.count(i.name) && states[i.name], h);
    for (auto & [i, v] : cmds) wa.push_back(i);
    for (auto & [i, v] : states) wb.push_back(i);
    same("commands", "the command interfaces", a, wa);
    same("states", "the state interfaces", b, wb);
  }
  void op_query()
  {
    ++n_query;
    auto s = snap();
    int what = static_cast<int>(c.weighted({5, 4, 1}));
    if (what == 0)
    {
      c.note("list the controllers");
      query_controllers();
    }
    else if (what == 1)
    {
      c.note("list the hardware");
      query_hardware();
    }
    else
    {
      c.note("list the types");
      auto r = call<controller_manager_msgs::srv::ListControllerTypes>("list_controller_types");
      V got;
      for (size_t i = 0; i < r->types.size(); ++i) got.push_back(r->types[i] + " " + r->base_classes[i]);
      same("types", "the controller types", got, {"check/Chain controller_interface::ChainableControllerInterface", "check/Plain controller_interface::ControllerInterface"});
    }
    auto d = difference(s, snap(), true);
    need("C28", d.empty(), "query changed something", "a query changed something:" + d);
  }
};
}  // namespace cmt
