// Resource manager driven by random histories over generated robots with scripted hardware:
// C01 exclusive claims, C04 availability, C05 failures and groups, C06 rates, C07 mode switches,
// C08 description import, C16 command limits.
#include "hardware_interface/resource_manager.hpp"
#include "hw.hpp"
#include "joint_limits/joint_limits.hpp"
using namespace pbt;
using namespace hw;

static std::string prop()
{
  static const std::string p = getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "C04";
  return p;
}
static std::string join(const std::vector<std::string> & v)
{
  std::string r;
  for (auto & x : v) r += x + " ";
  return r;
}
static std::vector<std::string> sorted(std::vector<std::string> v)
{
  std::sort(v.begin(), v.end());
  return v;
}
static bool has(const std::vector<std::string> & v, const std::string & x) { return std::find(v.begin(), v.end(), x) != v.end(); }

struct RmWorld
{
  Case & c;
  Robot robot;
  std::unique_ptr<ResourceManager> rm;
  struct M
  {
    const Comp * d;
    Script * s;
    int state = UNCONF;
    bool pending = false;  // a group member failed, this one has to follow
    bool follow = false;   // ... and may follow
    std::map<std::string, double> states, cmds;
  };
  std::vector<M> m;
  std::map<std::string, bool> gerr;
  // loans, newest last
  struct Loan
  {
    std::string name;
    std::unique_ptr<LoanedCommandInterface> l;
    bool ref = false;
  };
  std::vector<Loan> loans;
  // controller references
  std::vector<CommandInterface::SharedPtr> refs;
  std::vector<std::string> ref_names;
  bool refs_there = false, refs_available = false;
  bool allow_inactive = false, report_deactivate = true;
  int errors = 0, downs = 0, switches = 0, refused = 0, claims = 0, conflicts = 0;

  explicit RmWorld(Case & c_) : c(c_) {}
  ~RmWorld()
  {
    loans.clear();
    rm.reset();
    scripts().clear();
  }
  void start(int max_comps, bool groups)
  {
    scripts().clear();
    shim::fake_clock().now_ns = 1'000'000'000;
    robot = gen_robot(c, max_comps, groups, 0);
    allow_inactive = c.chance(30);
    report_deactivate = c.chance(70);
    ResourceManagerParams p;
    p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
    p.logger = rclcpp::get_logger("rm");
    p.allow_controller_activation_with_inactive_hardware = allow_inactive;
    p.return_failed_hardware_names_on_return_deactivate_write_cycle_ = report_deactivate;
    p.update_rate = 100;
    p.robot_description = robot.xml();
    for (auto & k : robot.comps) scripts()[k.name].legacy = c.chance(20);
    c.notes("robot:");
    for (auto & k : robot.comps) c.notes(strf("  %s %s group '%s'%s  commands [%s] states [%s]", k.type.c_str(), k.name.c_str(), k.group.c_str(), scripts()[k.name].legacy ? " (legacy export)" : "", join(k.cmds()).c_str(), join(k.states()).c_str()));
    c.notes(strf("allow inactive hardware %d, report deactivation %d", allow_inactive, report_deactivate));
    rm = std::make_unique<ResourceManager>(p, true);
    for (auto & k : robot.comps)
    {
      M x;
      x.d = &k;
      x.s = &scripts()[k.name];
      m.push_back(std::move(x));
    }
    c.check(rm->are_components_initialized(), "load", "a valid description was not loaded");
  }
  M * owner(const std::string & cmd)
  {
    for (auto & x : m)
      if (has(x.d->cmds(), cmd)) return &x;
    return nullptr;
  }
  static bool up(const M & x) { return x.state == INACT || x.state == ACT; }
  bool cmd_available(const std::string & n)
  {
    if (has(ref_names, n)) return refs_there && refs_available;
    auto o = owner(n);
    return o && up(*o);
  }
  bool held(const std::string & n)
  {
    for (auto & l : loans)
      if (l.name == n) return true;
    return false;
  }
  std::vector<std::string> all_cmds()
  {
    std::vector<std::string> r;
    for (auto & x : m)
      for (auto & n : x.d->cmds()) r.push_back(n);
    return r;
  }
  void observe_states()
  {
    auto st = rm->get_components_status();
    for (auto & x : m)
    {
      auto it = st.find(x.d->name);
      if (it == st.end()) c.fail("status", x.d->name + " is missing in the component status");
      int id = it->second.state.id();
      if (x.follow && id != x.state && (id == UNCONF || id == FIN))
      {
        x.state = id;
        x.follow = x.pending = false;
      }
      c.checkf(id == x.state, "state", "%s is %s, expected %s", x.d->name.c_str(), label(id), label(x.state));
    }
  }
  void check_all(const char * after)
  {
    observe_states();
    std::vector<std::string> cmds, states, av_c, av_s;
    for (auto & x : m)
    {
      for (auto & n : x.d->cmds())
      {
        cmds.push_back(n);
        if (up(x)) av_c.push_back(n);
      }
      for (auto & n : x.d->states())
      {
        states.push_back(n);
        if (up(x)) av_s.push_back(n);
      }
    }
    if (refs_there)
      for (auto & n : ref_names)
      {
        cmds.push_back(n);
        if (refs_available) av_c.push_back(n);
      }
    auto cmp = [&](const char * what, std::vector<std::string> got, std::vector<std::string> want)
    {
      got = sorted(got);
      want = sorted(want);
      c.checkf(got == want, what, "after %s: %s are [%s], expected [%s]", after, what, join(got).c_str(), join(want).c_str());
    };
    cmp("existing command interfaces", rm->command_interface_keys(), cmds);
    cmp("existing state interfaces", rm->state_interface_keys(), states);
    cmp("available command interfaces", rm->available_command_interfaces(), av_c);
    cmp("available state interfaces", rm->available_state_interfaces(), av_s);
    for (auto & n : cmds)
    {
      c.checkf(rm->command_interface_is_available(n) == has(av_c, n) && rm->command_interface_exists(n), "single command interface", "after %s: availability or existence of %s is wrong", after, n.c_str());
      if (has(av_c, n)) c.checkf(rm->command_interface_is_claimed(n) == held(n), "claimed", "after %s: %s is reported as %s", after, n.c_str(), held(n) ? "free while somebody holds it" : "claimed although nobody holds it");
    }
    for (auto & n : states) c.checkf(rm->state_interface_is_available(n) == has(av_s, n) && rm->state_interface_exists(n), "single state interface", "after %s: availability or existence of %s is wrong", after, n.c_str());
    for (auto & x : m) if (up(x)) values(x, after);
  }
  void values(M & x, const char * after)
  {
    for (auto & [n, v] : x.states)
    {
      auto l = rm->claim_state_interface(n);
      auto got = l.get_optional();
      c.checkf(got && *got == v, "state value", "after %s: %s reads %s, the hardware gave %s", after, n.c_str(), got ? num(*got).c_str() : "nothing", num(v).c_str());
    }
    for (auto & l : loans)
      if (x.cmds.count(l.name))
      {
        auto got = l.l->get_optional();
        c.checkf(got && *got == x.cmds[l.name], "command value", "after %s: %s reads %s, written was %s", after, l.name.c_str(), got ? num(*got).c_str() : "nothing", num(x.cmds[l.name]).c_str());
      }
  }
  Out outcome() { return static_cast<Out>(c.weighted({16, 3, 3, 1})); }
  Out err_outcome() { return static_cast<Out>(c.weighted({8, 1, 1})); }
  void clear_logs()
  {
    for (auto & x : m) x.s->clear();
  }

  void op_state()
  {
    if (c.chance(4))
    {
      rclcpp_lifecycle::State st(c.pick<int>({UNCONF, INACT, ACT, FIN}), "x");
      c.check(rm->set_component_state("nobody", st) == return_type::ERROR, "unknown component", "a state request for an unknown component is answered with success");
      check_all("a state request for an unknown component");
      return;
    }
    M & x = m[c.below(m.size())];
    int target = c.pick<int>({ACT, ACT, INACT, UNCONF, FIN});
    if (target == FIN && c.chance(60)) target = ACT;
    Script & s = *x.s;
    s.configure = outcome();
    s.activate = outcome();
    s.deactivate = outcome();
    s.cleanup = outcome();
    s.shutdown = outcome();
    s.error = err_outcome();
    bool by_label = c.coin();
    c.note("%s -> %s from %s (configure %s, activate %s, deactivate %s, cleanup %s, shutdown %s, on_error %s)", x.d->name.c_str(), label(target), label(x.state), out_name(s.configure), out_name(s.activate), out_name(s.deactivate), out_name(s.cleanup), out_name(s.shutdown), out_name(s.error));
    rclcpp_lifecycle::State st(by_label ? 0 : target, label(target));
    clear_logs();
    Life life{s, {}};
    int to = life.request(x.state, target);
    int from = x.state;
    auto r = rm->set_component_state(x.d->name, st);
    x.state = to;
    // getting there through the error handling may be reported as a failure
    bool by_error = has(life.calls, "on_error");
    c.checkf(r == return_type::OK ? to == target : to != target || by_error, "state request result", "request of %s for %s %s", label(target), x.d->name.c_str(), r == return_type::OK ? "succeeded although it did not get there" : "failed although it got there");
    c.checkf(s.log == life.calls, "callbacks", "request of %s in %s ran [%s], expected [%s]", label(target), label(from), join(s.log).c_str(), join(life.calls).c_str());
    for (auto & o : m)
      if (&o != &x) c.checkf(o.s->log.empty(), "other component", "%s was called", o.d->name.c_str());
    if (to != from && (to == UNCONF || to == FIN)) ++downs;
    // a new start or end of a member ends the failure of its group
    if (!x.d->group.empty() && (has(life.calls, "on_configure") || has(life.calls, "on_cleanup") || (to == FIN && has(life.calls, "on_shutdown"))))
    {
      gerr[x.d->group] = false;
      for (auto & o : m)
        if (o.d->group == x.d->group) o.pending = false;
    }
    check_all("a state request");
    for (auto & o : m) o.follow = o.pending;
  }
  void op_cycle(bool rd)
  {
    clear_logs();
    std::vector<int> before;
    std::map<std::string, Io> io;
    c.note("%s", rd ? "read" : "write");
    for (auto & x : m)
    {
      before.push_back(x.state);
      Script & s = *x.s;
      Io o = static_cast<Io>(c.weighted({20, 3, 2, 1}));
      (rd ? s.read : s.write) = o;
      s.error = err_outcome();
      s.deactivate = outcome();
      bool runs = rd ? up(x) : x.state == ACT && x.d->type != "sensor";
      if (runs) io[x.d->name] = o;
      if (runs && o != IO_OK) c.note("  %s returns %s (on_error %s, deactivate %s)", x.d->name.c_str(), io_name(o), out_name(s.error), out_name(s.deactivate));
      if (rd)
      {
        s.state_out.clear();
        for (auto & n : x.d->states()) s.state_out[n] = c.range(-1000, 1000) * 0.25;
      }
    }
    auto now = rclcpp::Time(shim::fake_clock().now_ns += 10'000'000, RCL_STEADY_TIME);
    auto period = rclcpp::Duration(std::chrono::nanoseconds(10'000'000));
    auto res = rd ? rm->read(now, period) : rm->write(now, period);
    std::vector<std::string> names(res.failed_hardware_names.begin(), res.failed_hardware_names.end());
    // groups in which somebody failed now or earlier
    std::set<std::string> bad_groups;
    for (auto & [g, e] : gerr)
      if (e) bad_groups.insert(g);
    for (auto & x : m)
    {
      auto it = io.find(x.d->name);
      if (it == io.end() || x.d->group.empty()) continue;
      if (it->second == IO_ERROR || it->second == IO_THROW || (rd && it->second == IO_DEACTIVATE)) bad_groups.insert(x.d->group);
    }
    bool any_err = false, any_deact = false, free_result = false;
    for (auto & x : m)
    {
      auto it = io.find(x.d->name);
      bool runs = it != io.end();
      Io o = runs ? it->second : IO_OK;
      bool fails = runs && (o == IO_ERROR || o == IO_THROW || (rd && o == IO_DEACTIVATE));
      bool deact = runs && !rd && o == IO_DEACTIVATE;
      bool in_bad = !x.d->group.empty() && bad_groups.count(x.d->group);
      const char * fn = rd ? "read" : "write";
      const auto & calls = rd ? x.s->reads : x.s->writes;
      bool touched = rd || x.d->type != "sensor";
      if (!in_bad || fails)
      {
        c.checkf(calls.size() == (runs ? 1u : 0u), "cycle call", "%s of the %s component %s was run %zu times", fn, label(x.state), x.d->name.c_str(), calls.size());
        if (runs) c.checkf(calls[0].period == 10'000'000 && calls[0].t == now.nanoseconds(), "cycle time", "%s of %s got time %ld period %ld", fn, x.d->name.c_str(), calls[0].t, calls[0].period);
      }
      if (rd && calls.size() == 1 && o == IO_OK)
        for (auto & n : x.d->states()) x.states[n] = x.s->state_out[n];
      if (!rd && calls.size() == 1)
        for (auto & [n, v] : x.cmds) c.checkf(x.s->cmd_seen[n] == v, "command reaches hardware", "%s of %s arrived as %s", n.c_str(), num(v).c_str(), num(x.s->cmd_seen[n]).c_str());
      bool reported = has(names, x.d->name);
      if (fails)
      {
        ++errors;
        any_err = true;
        x.state = x.s->error == OK ? UNCONF : FIN;
        x.pending = x.follow = false;
        ++downs;
        c.checkf(reported, "failure reported", "%s %s in %s and is not reported", x.d->name.c_str(), io_name(o), fn);
      }
      else if (in_bad)
      {
        free_result = true;
        if (x.pending && up(x) && touched)
        {
          any_err = true;
          c.checkf(reported, "group reported", "%s of the failed group %s is not reported", x.d->name.c_str(), x.d->group.c_str());
          x.state = x.s->error == OK ? UNCONF : FIN;
          x.pending = x.follow = false;
          ++downs;
        }
        else if (up(x))
        {
          // may follow now, has to next time; a component that asks for deactivation may also do that
          x.follow = true;
          int alt = -1;
          if (deact)
          {
            auto st = rm->get_components_status();
            int id = st.at(x.d->name).state.id();
            Life life{*x.s, {}};
            alt = life.deactivate(ACT);
            if (id == alt) x.state = alt;
          }
          int id = rm->get_components_status().at(x.d->name).state.id();
          if ((id == UNCONF || id == FIN) && id != alt) c.checkf(reported, "group reported", "%s followed its failed group %s without being reported", x.d->name.c_str(), x.d->group.c_str());
          if (id == ACT || id == INACT) x.pending = true;
        }
      }
      else if (deact)
      {
        any_deact = true;
        Life life{*x.s, {}};
        x.state = life.deactivate(ACT);
        c.checkf(reported == report_deactivate, "deactivation reported", "%s asks for deactivation and is %sreported", x.d->name.c_str(), reported ? "" : "not ");
      }
      else
      {
        c.checkf(!reported, "innocent reported", "%s is reported as failed by %s", x.d->name.c_str(), fn);
        std::vector<std::string> want;
        if (runs) want.push_back(fn);
        c.checkf(x.s->log == want, "innocent called", "%s of %s ran [%s]", fn, x.d->name.c_str(), join(x.s->log).c_str());
      }
    }
    for (auto & g : bad_groups) gerr[g] = true;
    for (auto & n : names) c.checkf(std::any_of(m.begin(), m.end(), [&](auto & x) { return x.d->name == n; }), "report", "unknown component %s is reported", n.c_str());
    auto r = res.result;
    if (any_err) c.check(r == return_type::ERROR, "cycle result", "a failed component does not make the cycle an error");
    else if (!free_result) c.checkf(r == (any_deact ? return_type::DEACTIVATE : return_type::OK), "cycle result", "result %d", static_cast<int>(r));
    check_all(rd ? "a read cycle" : "a write cycle");
    for (size_t i = 0; i < m.size(); ++i) m[i].follow = m[i].pending;
  }
  void op_claim()
  {
    auto cmds = all_cmds();
    for (auto & n : ref_names) cmds.push_back(n);
    std::string n = cmds.empty() || c.chance(4) ? c.pick<std::string>({"nobody/position", "", "hw0"}) : c.pick(cmds);
    bool may = cmd_available(n) && !held(n);
    c.note("claim %s (%s%s)", n.c_str(), cmd_available(n) ? "available" : "not available", held(n) ? ", held" : "");
    ++claims;
    if (held(n) && cmd_available(n)) ++conflicts;
    try
    {
      auto l = std::make_unique<LoanedCommandInterface>(rm->claim_command_interface(n));
      c.checkf(may, "claim granted", "claiming %s was granted although it is %s", n.c_str(), cmd_available(n) ? "held by somebody else" : "not available");
      c.checkf(l->get_name() == n, "claim name", "claiming %s gave %s", n.c_str(), l->get_name().c_str());
      auto ro = owner(n);
      if (ro && ro->cmds.count(n))
      {
        auto got = l->get_optional();
        c.checkf(got && *got == ro->cmds[n], "claimed value", "%s reads %s after claiming, the last command was %s", n.c_str(), got ? num(*got).c_str() : "nothing", num(ro->cmds[n]).c_str());
      }
      loans.push_back({n, std::move(l), has(ref_names, n)});
    }
    catch (const Failure &)
    {
      throw;
    }
    catch (const std::exception & e)
    {
      c.checkf(!may, "claim refused", "claiming the free and available %s was refused: %s", n.c_str(), e.what());
    }
    check_all("a claim");
  }
  void op_loan()
  {
    if (loans.empty()) return;
    size_t i = c.below(loans.size());
    switch (c.weighted({5, 3, 6}))
    {
      case 0:
        c.note("release %s", loans[i].name.c_str());
        loans.erase(loans.begin() + i);
        check_all("a release");
        break;
      case 1:
      {
        c.note("move %s", loans[i].name.c_str());
        auto n = std::make_unique<LoanedCommandInterface>(std::move(*loans[i].l));
        check_all("a loan was moved");
        loans[i].l.reset();  // the moved-from loan ends
        loans[i].l = std::move(n);
        check_all("the end of a moved-from loan");
        break;
      }
      default:
      {
        double v = c.range(-1000, 1000) * 0.125;
        c.note("set %s = %s", loans[i].name.c_str(), num(v).c_str());
        c.check(loans[i].l->set_value(v), "set", "setting the value of a loan failed");
        if (auto o = owner(loans[i].name)) o->cmds[loans[i].name] = v;
        check_all("setting a command");
      }
    }
  }
  void op_refs()
  {
    if (!refs_there)
    {
      if (ref_names.empty())
        for (const char * n : {"position", "effort"}) ref_names.push_back(std::string("ctl/") + n);
      refs.clear();
      for (auto & n : ref_names)
      {
        InterfaceInfo info{};
        info.name = n.substr(4);
        info.data_type = "double";
        refs.push_back(std::make_shared<CommandInterface>(InterfaceDescription("ctl", info)));
      }
      c.note("import references");
      rm->import_controller_reference_interfaces("ctl", refs);
      refs_there = true;
      refs_available = false;
    }
    else
      switch (c.weighted({4, 2, 1}))
      {
        case 0: c.note("references available"); rm->make_controller_reference_interfaces_available("ctl"); refs_available = true; break;
        case 1: c.note("references unavailable"); rm->make_controller_reference_interfaces_unavailable("ctl"); refs_available = false; break;
        default:
          // only while nobody uses them
          for (auto & n : ref_names)
            if (held(n)) return;
          c.note("remove references");
          rm->remove_controller_reference_interfaces("ctl");
          refs_there = refs_available = false;
      }
    check_all("a change of the references");
  }
  void op_use_state()
  {
    std::vector<std::string> all;
    for (auto & x : m)
      for (auto & n : x.d->states()) all.push_back(n);
    std::string n = c.chance(10) ? "nobody/position" : c.pick(all);
    bool may = false;
    for (auto & x : m) may |= has(x.d->states(), n) && up(x);
    c.note("claim state %s", n.c_str());
    try
    {
      auto l = rm->claim_state_interface(n);
      auto l2 = rm->claim_state_interface(n);  // states may be shared
      c.checkf(may && l.get_name() == n && l2.get_name() == n, "state granted", "the state interface %s was handed out%s", n.c_str(), may ? " under another name" : " although it is not available");
    }
    catch (const Failure &)
    {
      throw;
    }
    catch (const std::exception &)
    {
      c.checkf(!may, "state refused", "the available state interface %s was refused", n.c_str());
    }
    check_all("claiming a state interface");
  }
  void op_mode()
  {
    auto cmds = all_cmds();
    bool bad_too = c.chance(20);
    auto draw = [&]
    {
      std::vector<std::string> r;
      for (auto & n : cmds)
        if ((cmd_available(n) ? true : bad_too && c.chance(30)) && c.chance(35)) r.push_back(n);
      if (bad_too && c.chance(15)) r.push_back("nobody/position");
      if (refs_available && c.chance(20)) r.push_back(ref_names[0]);
      c.shuffle(r);
      return r;
    };
    auto start = draw(), stop = draw();
    bool prepare = c.coin();
    for (auto & x : m) (prepare ? x.s->prepare : x.s->perform) = static_cast<Io>(c.weighted({14, 2, 0, 1}));
    clear_logs();
    c.note("%s start [%s] stop [%s]", prepare ? "prepare" : "perform", join(start).c_str(), join(stop).c_str());
    bool r = prepare ? rm->prepare_command_mode_switch(start, stop) : rm->perform_command_mode_switch(start, stop);
    ++switches;
    const char * fn = prepare ? "prepare" : "perform";
    bool unknown = false, unavailable = false;
    for (auto * v : {&start, &stop})
      for (auto & n : *v)
      {
        if (!owner(n) && !has(ref_names, n)) unknown = true;
        else if (!cmd_available(n)) unavailable = true;
      }
    bool want = true, early = false;
    for (auto & x : m)
    {
      std::vector<std::string> a, b;
      for (auto & n : start)
        if (has(x.d->cmds(), n)) a.push_back(n);
      for (auto & n : stop)
        if (has(x.d->cmds(), n)) b.push_back(n);
      if (a.empty() && b.empty()) continue;
      if (!up(x)) want = false;
      if (x.state == INACT && !a.empty() && !allow_inactive) early = true;
    }
    if (early) want = false;
    if (prepare && (unknown || unavailable)) want = false;
    bool refuse_first = prepare && (unknown || unavailable);
    for (auto & x : m)
    {
      std::vector<std::string> a, b;
      for (auto & n : start)
        if (has(x.d->cmds(), n)) a.push_back(n);
      for (auto & n : stop)
        if (has(x.d->cmds(), n)) b.push_back(n);
      bool concerned = !a.empty() || !b.empty();
      bool inactive_start = x.state == INACT && !a.empty() && !allow_inactive;
      bool ask = concerned && up(x) && !inactive_start && !refuse_first;
      size_t n = std::count(x.s->log.begin(), x.s->log.end(), fn);
      c.checkf(n == x.s->log.size(), "mode switch calls", "%s of a mode switch ran [%s] on %s", fn, join(x.s->log).c_str(), x.d->name.c_str());
      c.checkf(n <= (ask ? 1u : 0u) && (early || n == (ask ? 1u : 0u)), "mode switch asked", "%s (%s, concerned by [%s] and [%s]) was asked %zu times to %s", x.d->name.c_str(), label(x.state), join(a).c_str(), join(b).c_str(), n, fn);
      if (!n) continue;
      auto & ga = prepare ? x.s->prep_start : x.s->perf_start;
      auto & gb = prepare ? x.s->prep_stop : x.s->perf_stop;
      c.checkf(sorted(ga) == sorted(a) && sorted(gb) == sorted(b), "mode switch interfaces", "%s was given start [%s] stop [%s], expected [%s] and [%s]", x.d->name.c_str(), join(ga).c_str(), join(gb).c_str(), join(a).c_str(), join(b).c_str());
      if ((prepare ? x.s->prepare : x.s->perform) != IO_OK) want = false;
    }
    if (!want) ++refused;
    // without hardware that is concerned, an unknown interface is only noticed while preparing
    if (!prepare && unknown) {}
    else c.checkf(r == want, "mode switch result", "the %s of the switch was reported as %s", fn, r ? "possible" : "impossible");
    check_all("a mode switch");
  }
};

static void test_history(Case & c)
{
  RmWorld w(c);
  const auto p = prop();
  w.start(p == "C05" ? 5 : 4, true);
  w.check_all("loading");
  // most histories start with components in use
  if (c.chance(70))
  {
    for (auto & x : w.m)
      if (c.chance(85))
      {
        rclcpp_lifecycle::State st(ACT, "active");
        c.check(w.rm->set_component_state(x.d->name, st) == return_type::OK, "activate", "activation of " + x.d->name + " failed");
        x.state = ACT;
      }
    w.check_all("activation");
  }
  unsigned wt[8] = {6, 3, 3, 4, 4, 2, 1, 3};
  if (p == "C01") wt[3] = 12, wt[4] = 12, wt[5] = 4;
  if (p == "C04") wt[0] = 14;
  if (p == "C05") wt[1] = 10, wt[2] = 10;
  if (p == "C07") wt[7] = 16;
  while (c.more(20))
    switch (c.weighted({wt[0], wt[1], wt[2], wt[3], wt[4], wt[5], wt[6], wt[7]}))
    {
      case 0: w.op_state(); break;
      case 1: w.op_cycle(true); break;
      case 2: w.op_cycle(false); break;
      case 3: w.op_claim(); break;
      case 4: w.op_loan(); break;
      case 5: w.op_refs(); break;
      case 6: w.op_use_state(); break;
      default: w.op_mode();
    }
  if (p == "C01") c.nontrivial(w.claims >= 3 && w.conflicts > 0);
  if (p == "C04") c.nontrivial(w.downs > 0);
  if (p == "C05") c.nontrivial(w.errors > 0);
  if (p == "C07") c.nontrivial(w.switches >= 2 && w.refused > 0);
  if (w.errors) c.label("errors in read or write");
  if (w.conflicts) c.label("claims of held interfaces");
  if (w.downs) c.label("components left the inactive or active state");
}

// ---------------------------------------------------------------- C06
static void test_rates(Case & c)
{
  scripts().clear();
  const int cm = c.pick<int>({100, 50, 10, 200, 1000, 37});
  shim::fake_clock().now_ns = 5'000'000'000;
  Robot robot;
  int n = 1 + static_cast<int>(c.below(4));
  for (int i = 0; i < n; ++i)
  {
    Comp k;
    k.name = strf("hw%d", i);
    k.type = c.pick<std::string>({"system", "actuator", "sensor"});
    k.plugin = plugin_of(k.type);
    k.rate = c.weighted({2, 6, 1}) == 0 ? 0 : c.chance(15) ? cm : c.chance(10) ? cm + c.range(1, 20) : c.range(1, cm);
    Part q;
    q.kind = k.type == "sensor" ? "sensor" : "joint";
    q.name = strf("j%d", i);
    q.states = {"position"};
    if (k.type != "sensor") q.cmds.push_back({"position", "", "", true}), robot.joints.push_back({q.name, "continuous", "", ""});
    k.parts.push_back(q);
    robot.comps.push_back(k);
    c.note("%s %s rate %d, manager %d", k.type.c_str(), k.name.c_str(), k.rate, cm);
  }
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = cm;
  p.robot_description = robot.xml();
  ResourceManager rm(p, true);
  c.check(rm.are_components_initialized(), "load", "a valid description was not loaded");
  struct R
  {
    Script * s;
    const Comp * d;
    int state = UNCONF;
    bool full;
    double T;
    // time of the last run while it ran continuously; -1: fresh (first run due at once), -2: unknown
    int64_t last_r = -2, last_w = -2, since_r = 0;
    int runs = 0, skips = 0;
  };
  std::vector<R> v;
  for (auto & k : robot.comps)
  {
    R r;
    r.s = &scripts()[k.name];
    r.d = &k;
    r.full = k.rate == 0 || k.rate >= cm;
    r.T = r.full ? 1.0 / cm : 1.0 / k.rate;
    v.push_back(r);
  }
  auto request = [&](R & r, int target)
  {
    if (r.state == target) return;
    rclcpp_lifecycle::State st(target, label(target));
    c.note("%s -> %s", r.d->name.c_str(), label(target));
    c.check(rm.set_component_state(r.d->name, st) == return_type::OK, "state request", "state request failed");
    if (target == ACT) r.last_r = r.last_w = -1;
    else
    {
      r.last_w = -2;
      if (target == UNCONF) r.last_r = -2;
      else if (r.state == UNCONF)
      {
        r.last_r = -2;
        r.since_r = shim::fake_clock().now_ns;
      }
    }
    r.state = target;
  };
  for (auto & r : v)
    if (c.chance(90)) request(r, ACT);
  const double dt = 1.0 / cm;
  int jitter = c.weighted({2, 3, 2});  // none, small, large with lost cycles
  int cycles = 0;
  while (c.more(60) && cycles < 400)
  {
    if (c.chance(6)) request(v[c.below(v.size())], c.pick<int>({ACT, INACT, ACT, UNCONF}));
    double step = dt;
    if (jitter == 1) step = dt * c.real(0.9, 1.1);
    if (jitter == 2) step = c.chance(5) ? dt * c.real(2, 30) : dt * c.real(0.3, 2.0);
    int64_t step_ns = static_cast<int64_t>(step * 1e9);
    int64_t now = shim::fake_clock().now_ns += step_ns;
    ++cycles;
    // the cycle period handed to the manager: measured or nominal
    int64_t period = step_ns;
    for (int phase = 0; phase < 2; ++phase)
    {
      bool rd = phase == 0;
      if (!rd) now = shim::fake_clock().now_ns += c.coin() ? 0 : static_cast<int64_t>(dt * 1e9 * c.real(0, 0.2));
      for (auto & r : v) r.s->clear();
      rclcpp::Time t(now, RCL_STEADY_TIME);
      rclcpp::Duration d{std::chrono::nanoseconds(period)};
      auto res = rd ? rm.read(t, d) : rm.write(t, d);
      c.check(res.result == return_type::OK && res.failed_hardware_names.empty(), "result", "a cycle without errors reports one");
      for (auto & r : v)
      {
        const char * fn = rd ? "read" : "write";
        auto & calls = rd ? r.s->reads : r.s->writes;
        auto & last = rd ? r.last_r : r.last_w;
        bool can = rd ? r.state == ACT || r.state == INACT : r.state == ACT && r.d->type != "sensor";
        c.checkf(calls.size() <= (can ? 1u : 0u), "too often", "%s of %s (%s) ran %zu times in one cycle", fn, r.d->name.c_str(), label(r.state), calls.size());
        if (!can) continue;
        bool ran = calls.size() == 1;
        if (r.full)
        {
          c.checkf(ran, "full rate", "%s of %s, which runs at the rate of the manager, was left out", fn, r.d->name.c_str());
          c.checkf(calls[0].period == period && calls[0].t == now, "full rate period", "%s of %s got period %ld at %ld, expected %ld at %ld", fn, r.d->name.c_str(), calls[0].period, calls[0].t, period, now);
          ++r.runs;
          last = now;
          continue;
        }
        const double T = r.T;
        if (last == -1)
        {
          c.checkf(ran, "first run", "%s of %s was not run in the first cycle after its activation", fn, r.d->name.c_str());
          c.checkf(std::fabs(calls[0].period * 1e-9 - T) < 1e-6, "first period", "the first %s of %s got period %.9f, its own is %.9f", fn, r.d->name.c_str(), calls[0].period * 1e-9, T);
        }
        else if (last == -2)
        {
          // configured, or first seen: it has to come within one period
          if (!ran && rd) c.checkf((now - r.since_r) * 1e-9 < T + 1e-6, "starved", "%s of %s did not run for %.6f s, its period is %.6f s", fn, r.d->name.c_str(), (now - r.since_r) * 1e-9, T);
        }
        else
        {
          double e = (now - last) * 1e-9, margin = e - (T - dt / 2);
          if (std::fabs(margin) > 1e-7)
          {
            bool due = margin > 0;
            c.checkf(ran == due, due ? "starved" : "too fast", "%s of %s %s %.9f s after the previous one; its period is %.9f s, that of the manager %.9f s", fn, r.d->name.c_str(), ran ? "ran" : "did not run", e, T, dt);
          }
          if (ran) c.checkf(calls[0].period == now - last, "period", "%s of %s got period %ld ns, %ld ns passed since the previous one", fn, r.d->name.c_str(), calls[0].period, now - last);
        }
        if (ran)
        {
          c.checkf(calls[0].t == now, "time", "%s of %s got time %ld instead of %ld", fn, r.d->name.c_str(), calls[0].t, now);
          last = now;
          ++r.runs;
        }
        else ++r.skips;
      }
    }
  }
  for (auto & r : v)
    if (r.runs >= 3 && r.skips >= 3) c.nontrivial();
  c.label(strf("jitter %d", jitter));
}

// ---------------------------------------------------------------- C08
static void test_import(Case & c)
{
  scripts().clear();
  shim::fake_clock().now_ns = 1'000'000'000;
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = c.pick<int>({100, 20, 500});
  ResourceManager rm(p, false);
  int rounds = 0, bad_rounds = 0;
  auto empty = [&](const char * after)
  {
    c.checkf(rm.command_interface_keys().empty() && rm.state_interface_keys().empty() && rm.available_command_interfaces().empty() && rm.available_state_interfaces().empty(), "leftover interfaces", "interfaces are left after %s: [%s] [%s]", after, join(rm.command_interface_keys()).c_str(), join(rm.state_interface_keys()).c_str());
    c.checkf(rm.get_components_status().empty() && rm.actuator_components_size() == 0 && rm.sensor_components_size() == 0 && rm.system_components_size() == 0, "leftover components", "components are left after %s", after);
    for (auto & [n, s] : scripts()) c.checkf(s.alive == 0, "leftover hardware", "the hardware %s lives on after %s", n.c_str(), after);
  };
  empty("construction");
  while (true)
  {
    ++rounds;
    Robot good = gen_robot(c, 4, true, p.update_rate);
    Robot r = good;
    for (auto & [n, s] : scripts())
    {
      int alive = s.alive;
      s = Script();
      s.alive = alive;
    }
    for (auto & k : good.comps) scripts()[k.name].legacy = c.chance(20);
    int bad = rounds > 5 ? 0 : c.weighted({6, 2, 4, 2, 2, 2, 2, 3, 1});
    size_t who = c.below(r.comps.size());
    Comp & bad_k = r.comps[who];
    const Comp k = bad_k;
    Script & s = scripts()[k.name];
    std::string what = "a valid description", xml;
    bool may_throw = false;
    switch (bad)
    {
      case 1: what = "an unknown plugin"; bad_k.plugin = "check/Nobody"; break;
      case 2:
        s.init = static_cast<Out>(1 + c.below(3));
        what = strf("a component whose initialisation ends with %s", out_name(s.init));
        break;
      case 3:
      {
        Comp d = k;
        for (auto & q : d.parts)
        {
          q.name += "b";
          if (q.kind == "joint") r.joints.push_back({q.name, "continuous", "", ""});
        }
        r.comps.insert(r.comps.begin() + c.below(r.comps.size() + 1), d);
        what = "a duplicate component name";
        break;
      }
      case 4:
      {
        // the command interfaces of one component again in another one
        if (k.cmds().empty()) { bad = 0; break; }
        Comp d = k;
        d.name = "other";
        scripts()["other"] = Script();
        r.comps.insert(r.comps.begin() + c.below(r.comps.size() + 1), d);
        what = "a duplicate command interface";
        break;
      }
      case 5: what = "an export that throws"; s.export_throws = true; if (s.legacy) s.legacy = false; break;
      case 6: what = "an export that leaves out an interface"; s.drop_export = true; s.legacy = false; break;
      case 7: what = "a malformed description"; may_throw = true; break;
      case 8: what = "a plugin whose constructor throws"; bad_k.plugin = "check/Broken"; break;
      default: break;
    }
    xml = r.xml();
    if (bad == 7)
    {
      auto e = xml.find("</ros2_control>");
      switch (c.below(4))
      {
        case 0: xml = xml.substr(0, e + c.below(10)); break;
        case 1: xml.insert(e, "<joint/>"); break;
        case 2: xml.insert(xml.find("<ros2_control"), "<ros2_control name=\"x\" type=\"robot\"><hardware><plugin>p</plugin></hardware></ros2_control>"); break;
        default: xml = c.pick<std::string>({"", "<", "<robot", "hello", "<robot name='r'><ros2_control/></robot>"});
      }
    }
    p.robot_description = xml;
    c.note("import of %s (%zu components, at %s)", what.c_str(), r.comps.size(), k.name.c_str());
    if (bad == 7) c.notes(xml);
    bool limiters = c.coin();
    bool ok = false, thrown = false;
    try
    {
      if (limiters) rm.import_joint_limiters(xml);
      ok = rm.load_and_initialize_components(p);
    }
    catch (const std::exception & e)
    {
      thrown = true;
      c.checkf(may_throw, "exception", "%s made an exception escape: %s", what.c_str(), e.what());
    }
    if (bad)
    {
      ++bad_rounds;
      c.checkf(!ok, "accepted", "%s was accepted", what.c_str());
      if (!thrown) c.checkf(!rm.are_components_initialized(), "initialized", "%s is reported as initialised", what.c_str());
      empty(what.c_str());
      for (auto & q : k.cmds())
      {
        try
        {
          auto l = rm.claim_command_interface(q);
          c.fail("claim", "an interface of a refused description could be claimed");
        }
        catch (const Failure &) { throw; }
        catch (const std::exception &) {}
      }
      // cycles in between do nothing
      auto res = rm.read(rclcpp::Time(0, 0, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(1000)));
      c.check(res.result == return_type::OK && res.failed_hardware_names.empty(), "cycle", "a read without components is an error");
      c.label(what);
      continue;
    }
    c.checkf(ok && rm.are_components_initialized(), "refused", "a valid description was refused in round %d", rounds);
    // exactly what is declared
    std::vector<std::string> cmds, states;
    size_t na = 0, nse = 0, nsy = 0;
    auto st = rm.get_components_status();
    c.checkf(st.size() == r.comps.size(), "components", "%zu components instead of %zu", st.size(), r.comps.size());
    for (auto & d : r.comps)
    {
      (d.type == "actuator" ? na : d.type == "sensor" ? nse : nsy)++;
      for (auto & n : d.cmds()) cmds.push_back(n);
      for (auto & n : d.states()) states.push_back(n);
      c.check(st.count(d.name), "component", d.name + " is missing");
      auto & i = st.at(d.name);
      unsigned rate = d.rate == 0 || d.rate > static_cast<int>(p.update_rate) ? p.update_rate : d.rate;
      c.checkf(i.name == d.name && i.type == d.type && i.group == d.group && i.plugin_name == d.plugin && i.rw_rate == rate && !i.is_async && i.state.id() == UNCONF, "component info", "%s: type %s group %s plugin %s rate %u state %s", d.name.c_str(), i.type.c_str(), i.group.c_str(), i.plugin_name.c_str(), i.rw_rate, i.state.label().c_str());
      c.checkf(sorted(i.command_interfaces) == sorted(d.cmds()) && sorted(i.state_interfaces) == sorted(d.states()), "component interfaces", "%s: commands [%s] states [%s]", d.name.c_str(), join(i.command_interfaces).c_str(), join(i.state_interfaces).c_str());
      c.checkf(scripts()[d.name].alive == 1, "instances", "%d instances of %s", scripts()[d.name].alive, d.name.c_str());
      c.checkf(std::count(scripts()[d.name].log.begin(), scripts()[d.name].log.end(), "on_init") == 1, "initialised", "%s ran [%s]", d.name.c_str(), join(scripts()[d.name].log).c_str());
    }
    c.checkf(na == rm.actuator_components_size() && nse == rm.sensor_components_size() && nsy == rm.system_components_size(), "component kinds", "%zu %zu %zu", rm.actuator_components_size(), rm.sensor_components_size(), rm.system_components_size());
    c.checkf(sorted(rm.command_interface_keys()) == sorted(cmds) && sorted(rm.state_interface_keys()) == sorted(states), "interfaces", "commands [%s] states [%s]", join(rm.command_interface_keys()).c_str(), join(rm.state_interface_keys()).c_str());
    // everything works: states arrive, commands reach their hardware, all of it unclaimed
    for (auto & d : r.comps)
    {
      rclcpp_lifecycle::State a(ACT, "active");
      c.check(rm.set_component_state(d.name, a) == return_type::OK, "activation", d.name + " cannot be activated");
    }
    std::vector<LoanedCommandInterface> loans;
    std::map<std::string, double> val;
    double x = 1;
    for (auto & n : cmds)
    {
      c.check(!rm.command_interface_is_claimed(n), "claimed", n + " is claimed from the beginning");
      loans.push_back(rm.claim_command_interface(n));
      c.check(loans.back().set_value(val[n] = x), "set", "cannot set " + n);
      x += 0.5;
    }
    for (auto & d : r.comps)
      for (auto & n : d.states()) scripts()[d.name].state_out[n] = val["s " + n] = -(x += 0.5);
    rclcpp::Time t(static_cast<int64_t>(2000000000), RCL_STEADY_TIME);
    rclcpp::Duration dd{std::chrono::nanoseconds(1000)};
    auto r1 = rm.read(t, dd), r2 = rm.write(t, dd);
    c.check(r1.result == return_type::OK && r2.result == return_type::OK, "cycle", "the first cycle reports an error");
    for (auto & d : r.comps)
    {
      for (auto & n : d.cmds()) c.checkf(scripts()[d.name].cmd_seen[n] == val[n], "wiring", "command %s arrived as %s instead of %s", n.c_str(), num(scripts()[d.name].cmd_seen[n]).c_str(), num(val[n]).c_str());
      for (auto & n : d.states())
      {
        auto l = rm.claim_state_interface(n);
        c.checkf(l.get_optional() == val["s " + n], "wiring", "state %s has the wrong value", n.c_str());
      }
    }
    break;
  }
  c.nontrivial(bad_rounds > 0);
}

// ---------------------------------------------------------------- C16
struct Lim
{
  double lo = -INFINITY, hi = INFINITY, vel = INFINITY, eff = INFINITY, acc = INFINITY, dec = INFINITY;
  bool soft = false;
};
static void test_limits(Case & c)
{
  scripts().clear();
  shim::fake_clock().now_ns = 1'000'000'000;
  const int cm = c.pick<int>({100, 10, 1000});
  const double dt = 1.0 / cm;
  Robot robot;
  std::map<std::string, Lim> lims;     // by joint
  std::map<std::string, std::vector<std::string>> cmds_of;
  std::map<std::string, std::string> state_owner, cmd_owner;
  int nj = 1 + static_cast<int>(c.below(4)), nc = 1 + static_cast<int>(c.below(3));
  for (int i = 0; i < nc; ++i)
  {
    Comp k;
    k.name = strf("hw%d", i);
    k.type = "system";
    k.plugin = plugin_of(k.type);
    robot.comps.push_back(k);
  }
  auto number = [&](double v) { return strf("%.17g", v); };
  for (int i = 0; i < nj; ++i)
  {
    UrdfJoint j;
    j.name = strf("j%d", i);
    Lim l;
    bool fixed_range = c.chance(70);
    j.type = fixed_range ? c.pick<std::string>({"revolute", "prismatic"}) : "continuous";
    double lo = c.range(-20, 0) * 0.25, hi = c.range(1, 20) * 0.25, v = c.range(1, 40) * 0.25, e = c.range(1, 40) * 0.5;
    bool with_limit = fixed_range || c.chance(60);
    if (with_limit)
    {
      j.limit = "<limit " + (fixed_range ? "lower=\"" + number(lo) + "\" upper=\"" + number(hi) + "\" " : std::string()) + "velocity=\"" + number(v) + "\" effort=\"" + number(e) + "\"/>";
      if (fixed_range) l.lo = lo, l.hi = hi;
      l.vel = v;
      l.eff = e;
    }
    if (fixed_range && c.chance(25))
    {
      j.safety = "<safety_controller soft_lower_limit=\"" + number(lo + 0.1) + "\" soft_upper_limit=\"" + number(hi - 0.1) + "\" k_position=\"10\" k_velocity=\"10\"/>";
      l.soft = true;
    }
    Part q;
    q.kind = "joint";
    q.name = j.name;
    auto names = some(c, {"position", "velocity", "effort"}, true);
    if (c.chance(25)) names.push_back("acceleration");
    q.states = c.chance(50) ? std::vector<std::string>{"position", "velocity"} : c.chance(60) ? std::vector<std::string>{"position"} : std::vector<std::string>{"temperature"};
    // some joints are distributed over two components: states and commands apart
    // (without limits of their own: two components that give a joint different limits contradict each other)
    size_t a = c.below(nc), b = nc > 1 && c.chance(25) ? c.below(nc) : a;
    const bool whole = a == b;
    bool off = a == b && c.chance(12);
    q.limits = !off;
    for (auto & n : names)
    {
      Itf f{n, "", "", true};
      if (n == "position" && whole && c.chance(30))
      {
        double a = c.range(-20, 0) * 0.25, b = c.range(1, 20) * 0.25;
        f.min = number(a);
        f.max = number(b);
        l.lo = std::max(l.lo, a);
        l.hi = std::min(l.hi, b);
      }
      if (n == "velocity" && whole && c.chance(30))
      {
        double b = c.range(1, 40) * 0.25;
        f.min = number(-b);
        f.max = number(b);
        l.vel = std::min(l.vel, b);
      }
      if (n == "effort" && whole && c.chance(30))
      {
        double b = c.range(1, 40) * 0.5;
        f.min = number(-b);
        f.max = number(b);
        l.eff = std::min(l.eff, b);
      }
      if (n == "acceleration" && whole && c.chance(70))
      {
        double b = c.range(1, 40) * 0.5, d = c.range(1, 40) * 0.5;
        f.min = number(-d);
        f.max = number(b);
        l.acc = b, l.dec = d;
      }
      // (whether a safety controller outlives the switched off position limits is left open)
      if (whole && c.chance(10) && !(l.soft && n == "position"))
      {
        f.limits = false;
        if (n == "position") l.lo = -INFINITY, l.hi = INFINITY;
        if (n == "velocity") l.vel = INFINITY;
        if (n == "effort") l.eff = INFINITY;
        if (n == "acceleration") l.acc = l.dec = INFINITY;
      }
      q.cmds.push_back(f);
      cmds_of[j.name].push_back(n);
    }
    if (off) l = Lim();
    if (a == b) robot.comps[a].parts.push_back(q);
    else
    {
      Part q2 = q;
      q2.states.clear();
      q.cmds.clear();
      robot.comps[a].parts.push_back(q);
      robot.comps[b].parts.push_back(q2);
    }
    state_owner[j.name] = robot.comps[a].name;
    cmd_owner[j.name] = robot.comps[b].name;
    lims[j.name] = l;
    robot.joints.push_back(j);
    c.note("%s %s: position [%g, %g] velocity %g effort %g acceleration %g/%g%s, commands [%s] states [%s], %s/%s", j.name.c_str(), j.type.c_str(), l.lo, l.hi, l.vel, l.eff, l.acc, l.dec, l.soft ? " soft" : "", join(cmds_of[j.name]).c_str(), join(q.states).c_str(), robot.comps[a].name.c_str(), robot.comps[b].name.c_str());
  }
  // a gpio with the name of a joint quantity, never limited
  {
    Part g;
    g.kind = "gpio";
    g.name = "io";
    g.cmds.push_back({"position", "-1", "1", true});
    g.states = {"position"};
    robot.comps[0].parts.push_back(g);
  }
  for (size_t i = 0; i < robot.comps.size();)
  {
    if (robot.comps[i].parts.empty()) robot.comps.erase(robot.comps.begin() + i);
    else ++i;
  }
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = cm;
  p.robot_description = robot.xml();
  ResourceManager rm(p, false);
  rm.import_joint_limiters(p.robot_description);
  c.check(rm.load_and_initialize_components(p), "load", "a valid description was not loaded");
  for (auto & k : robot.comps)
  {
    rclcpp_lifecycle::State st(ACT, "active");
    c.check(rm.set_component_state(k.name, st) == return_type::OK, "activate", "activation failed");
  }
  std::map<std::string, std::unique_ptr<LoanedCommandInterface>> loans;
  std::map<std::string, double> pos;  // measured, inside the limits
  auto clampd = [](double x, double a, double b) { return std::min(std::max(x, a), b); };
  for (auto & j : robot.joints) pos[j.name] = clampd(c.range(-8, 8) * 0.25, lims[j.name].lo, lims[j.name].hi);
  std::map<std::string, double> vel;
  int limited = 0, passed = 0;
  auto has_state = [&](const std::string & j, const char * n)
  { return rm.state_interface_exists(j + "/" + n); };
  std::map<std::string, double> last_pos;  // last enforced position command, if continuous
  while (c.more(12))
  {
    // new measurements
    for (auto & k : robot.comps) scripts()[k.name].state_out.clear(), scripts()[k.name].cmd_out.clear();
    std::map<std::string, bool> held_joint;
    for (auto & j : robot.joints)
    {
      auto & l = lims[j.name];
      double step = std::isfinite(l.vel) ? l.vel * dt : 0.5;
      vel[j.name] = (std::isfinite(l.vel) ? l.vel : 1.0) * c.range(-6, 6) * 0.2;
      pos[j.name] = clampd(pos[j.name] + step * c.range(-4, 4) * 0.25, l.lo, l.hi);
      if (has_state(j.name, "position")) scripts()[state_owner[j.name]].state_out[j.name + "/position"] = pos[j.name];
      if (has_state(j.name, "velocity")) scripts()[state_owner[j.name]].state_out[j.name + "/velocity"] = vel[j.name];
      // in some cycles the controllers send nothing new, and the hardware may change its commands by itself
      held_joint[j.name] = c.chance(25);
      if (held_joint[j.name] && c.chance(40))
        for (auto & n : cmds_of[j.name])
          if (c.coin()) scripts()[cmd_owner[j.name]].cmd_out[j.name + "/" + n] = c.chance(20) ? c.pick<double>({1e9, -1e9}) : c.range(-100, 100) * 0.25;
    }
    scripts()[robot.comps[0].name].state_out["io/position"] = 0;
    int64_t now = shim::fake_clock().now_ns += 1'000'000'000 / cm;
    rclcpp::Time t(now, RCL_STEADY_TIME);
    rclcpp::Duration d{std::chrono::nanoseconds(1'000'000'000 / cm)};
    c.check(rm.read(t, d).result == return_type::OK, "read", "read failed");
    // claims come and go
    for (auto & j : robot.joints)
      for (auto & n : cmds_of[j.name])
      {
        auto key = j.name + "/" + n;
        if (!loans[key] && c.chance(60)) loans[key] = std::make_unique<LoanedCommandInterface>(rm.claim_command_interface(key));
        else if (loans[key] && c.chance(5)) loans[key].reset();
      }
    if (!loans["io/position"] && c.coin()) loans["io/position"] = std::make_unique<LoanedCommandInterface>(rm.claim_command_interface("io/position"));
    // commands: some joints are commanded comfortably inside their limits
    std::map<std::string, double> sent;
    std::map<std::string, bool> easy;
    bool all_easy = true, any_beyond = false;
    for (auto & j : robot.joints)
    {
      auto & l = lims[j.name];
      int held = 0;
      for (auto & n : cmds_of[j.name]) held += loans[j.name + "/" + n] ? 1 : 0;
      bool is_easy = c.coin() && !l.soft && held <= 1;
      for (auto & n : cmds_of[j.name])
      {
        auto key = j.name + "/" + n;
        if (!loans[key]) continue;
        double v;
        if (held_joint[j.name])
        {
          v = loans[key]->get_optional().value();
          if (std::isnan(v)) continue;
          sent[key] = v;
          easy[key] = all_easy = false;
          continue;
        }
        bool measured = has_state(j.name, "position");
        if (is_easy)
        {
          if (n == "position")
          {
            // close to the measured position and to the previous command, inside the range
            if (!measured || !last_pos.count(j.name) || std::isfinite(l.acc)) is_easy = false;
            double step = std::isfinite(l.vel) ? 0.2 * l.vel * dt : 10;
            double a = std::max({l.lo, pos[j.name] - step, (last_pos.count(j.name) ? last_pos[j.name] : 0) - step});
            double b = std::min({l.hi, pos[j.name] + step, (last_pos.count(j.name) ? last_pos[j.name] : 0) + step});
            if (a > b) is_easy = false;
            v = is_easy ? c.real(a, b) : pos[j.name];
          }
          else if (n == "velocity")
          {
            v = (std::isfinite(l.vel) ? l.vel : 100.0) * c.real(-0.9, 0.9);
            // it has to stay in the position range for the next period
            if (measured && (pos[j.name] + v * dt * 1.01 > l.hi || pos[j.name] + v * dt * 1.01 < l.lo)) v = 0;
            if (measured && (pos[j.name] >= l.hi || pos[j.name] <= l.lo)) is_easy = false;
            if ((!measured && std::isfinite(l.lo)) || std::isfinite(l.acc)) is_easy = false;
          }
          else if (n == "acceleration")
            v = (std::isfinite(l.acc) ? std::min(l.acc, l.dec) : 100.0) * c.real(-0.9, 0.9);
          else
          {
            v = (std::isfinite(l.eff) ? l.eff : 100.0) * c.real(-0.9, 0.9);
            if (measured && (pos[j.name] >= l.hi || pos[j.name] <= l.lo)) is_easy = false;
            if (has_state(j.name, "velocity") && std::fabs(vel[j.name]) >= l.vel) is_easy = false;
            if (!measured && std::isfinite(l.lo)) is_easy = false;
          }
        }
        else v = c.chance(10) ? c.pick<double>({0.0, 1e9, -1e9}) : c.range(-100, 100) * 0.25;
        if (n == "position" && (v > l.hi + 1e-6 || v < l.lo - 1e-6)) any_beyond = true;
        if (n == "velocity" && std::fabs(v) > l.vel + 1e-6) any_beyond = true;
        if (n == "effort" && std::fabs(v) > l.eff + 1e-6) any_beyond = true;
        sent[key] = v;
        easy[key] = is_easy;
        if (!is_easy) all_easy = false;
      }
    }
    double io = c.range(-50, 50);
    for (auto & [key, v] : sent)
    {
      bool held = held_joint[key.substr(0, key.find('/'))];
      if (!held)
      {
        c.check(loans[key]->set_value(v), "set", "set failed");
        // the fixed limits already hold for what was set
        auto j = key.substr(0, key.find('/')), n = key.substr(key.find('/') + 1);
        auto & l = lims[j];
        double x = loans[key]->get_optional().value();
        const double tol = 1e-9;
        bool in = n == "position" ? x >= l.lo - tol && x <= l.hi + tol : std::fabs(x) <= (n == "velocity" ? l.vel : n == "effort" ? l.eff : std::max(l.acc, l.dec)) + tol;
        c.checkf(in, "set limit", "%s was set to %.9g and is %.9g", key.c_str(), v, x);
        if (easy[key]) c.checkf(std::fabs(x - v) <= 1e-9, "unchanged when set", "%s = %.12g is inside the limits and was set to %.12g", key.c_str(), v, x);
      }
      c.note("  %s = %.6g%s", key.c_str(), v, held ? " (as it was)" : easy[key] ? " (inside)" : "");
    }
    if (loans["io/position"]) c.check(loans["io/position"]->set_value(io), "set", "set failed");
    std::map<std::string, double> before;
    for (auto & [key, l] : loans)
      if (l) before[key] = l->get_optional().value();
    bool r = rm.enforce_command_limits(d);
    c.check(rm.write(t, d).result == return_type::OK, "write", "write failed");
    std::map<std::string, double> got;
    for (auto & k : robot.comps)
      for (auto & [n, v] : scripts()[k.name].cmd_seen) got[n] = v;
    bool changed = false;
    for (auto & [key, b] : before) changed |= !(got[key] == b || (std::isnan(got[key]) && std::isnan(b)));
    c.checkf(r == changed, "report", "the enforcement step %s a command and reports %s", changed ? "changed" : "did not change", r ? "that it limited" : "that it did not limit");
    for (auto & [key, v] : sent)
    {
      auto j = key.substr(0, key.find('/')), n = key.substr(key.find('/') + 1);
      auto & l = lims[j];
      double g = got[key];
      const double tol = 1e-9;
      c.checkf(std::isfinite(g), "finite", "%s = %s became %s", key.c_str(), num(v).c_str(), num(g).c_str());
      if (n == "position") c.checkf(g >= l.lo - tol && g <= l.hi + tol, "position limit", "the hardware received %s = %.9g (sent %.9g), limits [%g, %g], measured %g", key.c_str(), g, v, l.lo, l.hi, pos[j]);
      if (n == "velocity") c.checkf(std::fabs(g) <= l.vel + tol, "velocity limit", "the hardware received %s = %.9g (sent %.9g), limit %g", key.c_str(), g, v, l.vel);
      if (n == "acceleration")
      {
        bool braking = has_state(j, "velocity") && g * vel[j] < 0;
        c.checkf(std::fabs(g) <= (braking ? l.dec : l.acc) + tol, "acceleration limit", "the hardware received %s = %.9g (sent %.9g) with velocity %g, limits %g and %g while braking", key.c_str(), g, v, vel[j], l.acc, l.dec);
      }
      if (n == "effort") c.checkf(std::fabs(g) <= l.eff + tol, "effort limit", "the hardware received %s = %.9g (sent %.9g), limit %g", key.c_str(), g, v, l.eff);
      // what the position and velocity measured in this cycle leave
      bool ranged = std::isfinite(l.lo) && std::isfinite(l.hi) && has_state(j, "position");
      if (n == "velocity" && ranged && std::isfinite(l.vel) && !std::isfinite(l.acc))
        c.checkf(pos[j] + g * dt <= l.hi + 1e-6 && pos[j] + g * dt >= l.lo - 1e-6, "velocity at the range", "the hardware received %s = %.9g (sent %.9g) at %.9g, which leaves [%g, %g] within %g s", key.c_str(), g, v, pos[j], l.lo, l.hi, dt);
      if (n == "effort" && ranged && std::isfinite(l.eff) && has_state(j, "velocity"))
      {
        c.checkf(!(pos[j] <= l.lo && vel[j] <= 0) || g >= -tol, "effort at the range", "the hardware received %s = %.9g (sent %.9g) at %.9g, limits [%g, %g]", key.c_str(), g, v, pos[j], l.lo, l.hi);
        c.checkf(!(pos[j] >= l.hi && vel[j] >= 0) || g <= tol, "effort at the range", "the hardware received %s = %.9g (sent %.9g) at %.9g, limits [%g, %g]", key.c_str(), g, v, pos[j], l.lo, l.hi);
      }
      if (n == "effort" && std::isfinite(l.eff) && std::isfinite(l.vel) && has_state(j, "velocity"))
      {
        c.checkf(!(vel[j] < -l.vel - tol) || g >= -tol, "effort too fast", "the hardware received %s = %.9g (sent %.9g) with velocity %.9g, limit %g", key.c_str(), g, v, vel[j], l.vel);
        c.checkf(!(vel[j] > l.vel + tol) || g <= tol, "effort too fast", "the hardware received %s = %.9g (sent %.9g) with velocity %.9g, limit %g", key.c_str(), g, v, vel[j], l.vel);
      }
      if (n == "position" && !l.soft && std::isfinite(l.vel) && last_pos.count(j))
        c.checkf(std::fabs(g - last_pos[j]) <= l.vel * dt + 1e-9 + 1e-12 * std::fabs(last_pos[j]), "position step", "the hardware received %s = %.9g (sent %.9g) after %.9g, velocity limit %g for %g s", key.c_str(), g, v, last_pos[j], l.vel, dt);
      bool unlimited = !std::isfinite(l.lo) && !std::isfinite(l.hi) && !std::isfinite(l.vel) && !std::isfinite(l.eff) && !std::isfinite(l.acc);
      if (unlimited || easy[key]) c.checkf(std::fabs(g - v) <= 1e-9, "unchanged", "%s = %.12g is %s and became %.12g", key.c_str(), v, unlimited ? "not limited" : "inside the limits", g);
      if (g != v) ++limited;
      else ++passed;
    }
    if (loans["io/position"]) c.checkf(got["io/position"] == io, "gpio", "the command of a gpio became %s instead of %s", num(got["io/position"]).c_str(), num(io).c_str());
    (void)any_beyond;
    (void)all_easy;
    last_pos.clear();
    for (auto & j : robot.joints)
      if (sent.count(j.name + "/position")) last_pos[j.name] = got[j.name + "/position"];
  }
  c.nontrivial(limited > 0 && passed > 0);
}

#ifndef NO_MAIN
int main(int argc, char ** argv)
{
  const auto p = prop();
  Options o;
  o.property = p.c_str();
  o.quick_cases = 60000;
  o.thorough_cases = 2000000;
  o.quick_cap_s = 25;
  o.thorough_cap_s = 400;
  o.worker_init = []
  {
    shim::fake_clock().enabled = true;
    register_plugins();
  };
  std::vector<Test> t;
  if (p == "C06")
  {
    o.rule = "a component with its own rate was run and left out at least three times each";
    t = {{"rates", 1, test_rates}};
  }
  else if (p == "C08")
  {
    o.rule = "at least one broken description was imported before a valid one";
    t = {{"import", 1, test_import}};
  }
  else if (p == "C16")
  {
    o.rule = "some commands were limited and some passed unchanged";
    t = {{"limits", 1, test_limits}};
  }
  else
  {
    o.rule = p == "C01" ? "at least three claims, one of them of a held interface"
             : p == "C05" ? "a component failed in read or write"
             : p == "C07" ? "at least two mode switches, one of them refused"
                          : "a component left the inactive or active state";
    t = {{"history", 1, test_history}};
  }
  return run(argc, argv, o, t);
}
#endif
