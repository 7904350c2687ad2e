// The controller manager: C01 loans end with their holder, C22 switches, C23 chains, C24 update rates,
// C25 failing controllers, C26 failing hardware, C27 life cycle of controllers, C28 introspection.
// Histories of requests and cycles over generated robots and controllers, compared with a model.
#include "cm.hpp"
#include "cm_model.hpp"
using namespace cmt;

// a history of requests and cycles
static void test_history(Case & c)
{
  const auto & p = prop();
  Options o;
  o.rates = p == "C24" || c.chance(30);
  o.fallbacks = p == "C25" || c.chance(p == "C26" ? 50 : 30);
  o.chains = p == "C23" || c.chance(80);
  o.max_ctl = p == "C24" ? 4 : 5;
  o.groups = p == "C26" && c.chance(30);
  o.async = p == "C34";
  if (o.async)
  {
    o.rates = false;
    shim::async_manual().enabled = true;
    shim::async_manual().handlers.clear();
  }
  if (p == "C26") o.max_comps = 3;
  Model w(c, o);
  // prepare, hw states, switches, cycles, load.., hw requests, queries
  unsigned wt[6] = {10, 10, 5, 3, 2, 0};
  if (p == "C24") wt[1] = 40;
  if (p == "C25" || p == "C26") wt[1] = 16, wt[2] = 3;
  if (p == "C27") wt[0] = 6, wt[2] = 16;
  if (p == "C28") wt[5] = 10;
  w.allow_inactive = c.chance(15);
  w.generate();
  // (almost) everything is loaded and configured in most cases
  try
  {
    w.start();
    auto names = w.order;
    c.shuffle(names);
    if (p != "C27" || c.chance(50))
      for (auto & n : names)
        if (c.chance(93))
        {
          w.op_load(n, "", true);
          if (!w.known(n)) continue;
          if (c.chance(95)) w.op_configure(n, true);
        }
    w.invariants();
    int cycles = p == "C24" ? 60 : 14;
    while (c.more(cycles))
    {
      switch (c.weighted({wt[0], wt[1], wt[2], wt[3], wt[4], wt[5]}))
      {
        case 0: w.op_switch(); break;
        case 1: w.op_cycle(); break;
        case 2: w.op_lifecycle(); break;
        case 3: w.op_hardware(); break;
        case 4: w.op_failures(); break;
        default: w.op_query();
      }
      w.invariants();
      if (p == "C28" && c.chance(50)) w.op_query();
    }
  }
  catch (const Stop &)
  {
    c.label("ended by a condition of another property");
  }
  catch (const std::exception & e)
  {
    c.fail("exception", std::string("an exception escaped from the controller manager: ") + e.what());
  }
  if (w.n_chain_active) c.label("chained controllers were updated");
  if (w.n_fail) c.label("controllers failed in update");
  if (w.n_fallback) c.label("fallback controllers took over");
  if (w.n_hw_fail) c.label("hardware failed");
  if (w.n_async_late) c.label("an asynchronous controller was late");
  if (w.n_async_stopped) c.label("an asynchronous controller failed or was stopped by a failure");
  if (w.n_lost) c.label("a switch timed out");
  if (w.n_racing) c.label("controllers failed during a request");
  if (w.n_switch_refused) c.label("switches refused");
  if (w.n_best_effort) c.label("best effort switches");
  if (w.n_partial) c.label("best effort switches that were not strictly possible");
  if (w.n_act_failed) c.label("activation failed");
  if (w.n_links) c.label("controllers with several followers listed");
  if (w.n_open) c.label("switches the model leaves open");
  bool nt = p == "C22"   ? w.n_switch_ok >= 2 && w.n_switch_refused >= 1
            : p == "C23" ? w.n_chain_active > 0 && w.n_switch_ok >= 2
            : p == "C24" ? w.n_rated >= 3
            : p == "C25" ? w.n_fail > 0
            : p == "C26" ? w.n_hw_fail > 0 && w.n_activated > 0
            : p == "C27" ? w.n_refused > 0 && w.n_switch_ok > 0
            : p == "C28" ? w.n_query >= 2 && w.n_switch_ok > 0
            : p == "C34" ? w.n_async >= 3 && w.n_switch_ok >= 1 && (w.n_async_late || w.n_async_stopped)
                         : w.n_switch_ok > 0 && (w.n_fail || w.n_hw_fail || w.n_act_failed || w.n_switch_ok > 1);
  c.nontrivial(nt);
}

// start-up: the initial states, groups and descriptions that arrive later; then state requests
static void test_hardware(Case & c)
{
  Options o;
  Model w(c, o);
  ctls().clear();
  scripts().clear();
  w.robot = gen_robot(c, 4, c.chance(60), 0);
  auto & comps = w.robot.comps;
  w.allow_inactive = c.chance(30);
  std::vector<std::string> unconf, inact;
  for (auto & k : comps)
  {
    int x = static_cast<int>(c.weighted({50, 25, 25}));
    if (x == 1) unconf.push_back(k.name);
    if (x == 2) inact.push_back(k.name);
  }
  if (c.chance(15)) unconf.push_back("nobody");
  if (c.chance(15)) inact.push_back("nothing");
  if (c.chance(5)) inact.push_back("");
  c.shuffle(unconf);
  c.shuffle(inact);
  bool shut = c.chance(20);
  if (unconf.size() || c.coin()) w.extra_params.emplace_back("hardware_components_initial_state.unconfigured", unconf);
  if (inact.size() || c.coin()) w.extra_params.emplace_back("hardware_components_initial_state.inactive", inact);
  if (shut || c.coin()) w.extra_params.emplace_back("hardware_components_initial_state.shutdown_on_initial_state_failure", shut);
  std::string txt;
  auto outcomes = [&](Script & s, int bad)
  {
    for (auto * x : {&s.configure, &s.activate, &s.deactivate, &s.cleanup, &s.shutdown}) *x = w.outcome(bad);
    s.error = c.chance(bad * 2) ? c.pick<Out>({FAIL, ERR}) : OK;
  };
  auto say = [&](const Script & s) { return strf("(configure %s, activate %s, deactivate %s, cleanup %s, shutdown %s, on_error %s)", out_name(s.configure), out_name(s.activate), out_name(s.deactivate), out_name(s.cleanup), out_name(s.shutdown), out_name(s.error)); };
  bool calm = c.chance(30);
  for (auto & k : comps)
  {
    auto & s = scripts()[k.name];
    outcomes(s, calm ? 0 : 12);
    c.note("%s %s%s%s %s%s", k.type.c_str(), k.name.c_str(), k.group.empty() ? "" : " of group ", k.group.c_str(), say(s).c_str(), has(unconf, k.name) ? " stays unconfigured" : has(inact, k.name) ? " is to be inactive" : "");
  }
  if (shut) c.note("failures end the start");
  auto at = [&](const Comp & k) { return has(unconf, k.name) ? UNCONF : has(inact, k.name) ? INACT : ACT; };
  // what each would do on its own
  std::map<std::string, int> alone;
  std::map<std::string, std::vector<const Comp *>> groups;
  bool fails = false, conf_fails = false;
  std::map<std::string, int> broken;  // groups: 1 in configuring, 2 in activating
  for (auto & k : comps)
  {
    Life l{scripts()[k.name], {}};
    alone[k.name] = l.request(UNCONF, at(k));
    bool bad = alone[k.name] != at(k);
    fails |= bad;
    if (!k.group.empty() && at(k) == ACT)
    {
      groups[k.group].push_back(&k);
      Life l2{scripts()[k.name], {}};
      if (bad) broken[k.group] = l2.request(UNCONF, INACT) != INACT ? 1 : std::max(broken[k.group], 2);
      if (broken[k.group] != 1 && bad && l2.calls.size() && broken[k.group] == 0) broken[k.group] = 2;
    }
  }
  for (auto & k : comps)
    if (!k.group.empty() && at(k) == ACT)
    {
      Life l{scripts()[k.name], {}};
      if (l.request(UNCONF, INACT) != INACT) broken[k.group] = 1;
    }
  (void)conf_fails;
  int by_topic = c.chance(30) ? 1 + static_cast<int>(c.weighted({60, 30, 10})) : 0;
  bool threw = false;
  w.order.clear();
  w.clock();
  w.ex = std::make_shared<rclcpp::executors::SingleThreadedExecutor>();
  c.notes(w.robot.xml());
  auto check = [&](bool ok, const char * sig, const std::string & m) { w.need("C29", ok, sig, m); };
  try
  {
    if (!by_topic) w.cm = std::make_unique<Cm>(w.ex, w.robot.xml(), false, "cm", "", w.node_options());
    else
    {
      w.cm = std::make_unique<Cm>(w.ex, std::string(), false, "cm", "", w.node_options());
      std_msgs::msg::String msg;
      for (int i = 1; i < by_topic; ++i)
      {
        // a description that has to be refused
        msg.data = w.robot.xml();
        switch (c.below(3))
        {
          case 0: msg.data = "<robot name=\"x\"><ros2_control"; break;
          case 1: msg.data.insert(msg.data.rfind("</robot>"), "<ros2_control name=\"bad\" type=\"system\"><hardware><plugin>check/None</plugin></hardware><joint name=\"jx\"><state_interface name=\"position\"/></joint></ros2_control>"); break;
          default: msg.data.insert(msg.data.rfind("</robot>"), "<ros2_control name=\"hw0\" type=\"sensor\"><hardware><plugin>check/Sensor</plugin></hardware><sensor name=\"sx\"><state_interface name=\"position\"/></sensor></ros2_control>");
        }
        c.note("a broken description arrives");
        w.cm->robot_description_callback(msg);
        check(w.cm->rm().get_components_status().empty(), "left over", "components of a refused description are there");
        for (auto & [n, s] : scripts()) s.log.clear();
      }
      msg.data = w.robot.xml();
      c.note("the description arrives");
      w.cm->robot_description_callback(msg);
      if (c.coin()) w.cm->robot_description_callback(msg);
    }
  }
  catch (const std::runtime_error & e)
  {
    threw = true;
    check(shut && fails, "start", std::string("the start was aborted: ") + e.what());
  }
  if (!threw)
  {
    check(!(shut && fails), "start", "the start succeeded although an initial state was not reached");
    auto hs = w.hw_states();
    check(hs.size() == comps.size(), "components", strf("%zu components instead of %zu", hs.size(), comps.size()));
    for (auto & k : comps)
    {
      bool grouped = !k.group.empty() && at(k) == ACT;
      if (!grouped || !broken[k.group])
      {
        check(hs[k.name] == alone[k.name], "initial state", strf("%s is %s after the start instead of %s", k.name.c_str(), label(hs[k.name]), label(alone[k.name])));
        Life l{scripts()[k.name], {}};
        l.request(UNCONF, at(k));
        auto & log = scripts()[k.name].log;
        std::vector<std::string> got(std::find(log.begin(), log.end(), "on_init") == log.end() ? log.begin() : std::find(log.begin(), log.end(), "on_init") + 1, log.end());
        check(got == l.calls, "initial callbacks", strf("%s ran %s at the start instead of %s", k.name.c_str(), join(got).c_str(), join(l.calls).c_str()));
        continue;
      }
      bool stops = true;
      for (auto * m : groups[k.group]) stops &= scripts()[m->name].deactivate == OK;
      if (stops || broken[k.group] == 1) check(hs[k.name] != ACT, "half a group", strf("%s is active although its group %s failed at the start", k.name.c_str(), k.group.c_str()));
      else if (scripts()[k.name].deactivate == OK) check(hs[k.name] != ACT, "half a group", strf("%s is active although its group %s failed at the start", k.name.c_str(), k.group.c_str()));
      if (broken[k.group] == 1)
        check(!has(scripts()[k.name].log, "on_activate"), "activated", strf("%s was activated although its group %s failed to configure", k.name.c_str(), k.group.c_str()));
      if (broken[k.group] == 2 && hs[k.name] == UNCONF) check(alone[k.name] == UNCONF || scripts()[k.name].deactivate != OK, "group member", strf("%s is unconfigured although it could be configured", k.name.c_str()));
    }
    int requests = 0, arrived = 0;
    while (c.more(10))
    {
      if (c.chance(8))
      {
        c.note("cycle");
        auto before = w.hw_states();
        w.raw_cycle();
        if (groups.empty() || true)
          for (auto & k : comps)
            if (k.group.empty()) check(w.hw_states()[k.name] == before[k.name], "cycle", k.name + " changed its state in a cycle without errors");
        continue;
      }
      auto q = std::make_shared<controller_manager_msgs::srv::SetHardwareComponentState::Request>();
      auto before = w.hw_states();
      const Comp * k = c.chance(6) ? nullptr : &c.pick(comps);
      q->name = k ? k->name : c.pick<std::string>({"nobody", "", "hw"});
      int target = c.pick<int>({UNCONF, INACT, ACT, ACT, INACT, FIN});
      if (target == FIN && c.chance(60)) target = ACT;
      bool senseless = c.chance(5);
      if (senseless) q->target_state.id = c.pick<int>({0, 5, 10, 13, 255}), q->target_state.label = c.pick<std::string>({"", "actve", "-"});
      else
      {
        int how = static_cast<int>(c.below(3));
        q->target_state.id = static_cast<uint8_t>(how == 0 ? 0 : target);
        q->target_state.label = how == 1 ? "" : label(target);
      }
      if (k) outcomes(scripts()[k->name], calm ? 0 : 12);
      for (auto & [n, s] : scripts()) s.log.clear();
      c.note("request %s (id %d, label '%s') for %s %s", senseless ? "nonsense" : label(target), q->target_state.id, q->target_state.label.c_str(), q->name.c_str(), k ? say(scripts()[k->name]).c_str() : "");
      auto r = w.call<controller_manager_msgs::srv::SetHardwareComponentState>("set_hardware_component_state", q);
      auto after = w.hw_states();
      ++requests;
      for (auto & [n, st] : before)
        if (!k || n != k->name || senseless)
        {
          check(after[n] == st, "other component", strf("a request for %s changed %s from %s to %s", q->name.c_str(), n.c_str(), label(st), label(after[n])));
          check(scripts()[n].log.empty(), "other callbacks", strf("a request for %s ran callbacks of %s", q->name.c_str(), n.c_str()));
        }
      if (!k || senseless)
      {
        check(!r->ok, "senseless", "a request for an unknown component or state succeeded");
        continue;
      }
      Life l{scripts()[k->name], {}};
      int to = l.request(before[k->name], target);
      check(after[k->name] == to, "state", strf("%s is %s after the request instead of %s", k->name.c_str(), label(after[k->name]), label(to)));
      check(scripts()[k->name].log == l.calls, "callbacks", strf("the request ran %s of %s instead of %s", join(scripts()[k->name].log).c_str(), k->name.c_str(), join(l.calls).c_str()));
      check(r->state.id == to && r->state.label == label(to), "answered state", strf("%s is %s, the answer says %s", k->name.c_str(), label(to), r->state.label.c_str()));
      bool by_error = has(l.calls, "on_error");
      check(r->ok ? to == target : to != target || by_error, "answer", strf("the request was answered as %s, %s is %s", r->ok ? "successful" : "failed", k->name.c_str(), label(to)));
      arrived += to == target && to != before[k->name];
    }
    // the settings are in force whichever description came first
    auto av = w.hw_states();
    std::vector<std::string> keys;
    for (auto & k : comps)
      if (av[k.name] == INACT)
        for (auto & i : k.cmds()) keys.push_back(i);
    for (auto & [n, s] : scripts()) s.prepare = s.perform = IO_OK;
    if (keys.size() && c.chance(30))
    {
      bool got = w.cm->rm().prepare_command_mode_switch(keys, {});
      check(got == w.allow_inactive, "setting", strf("a mode switch on inactive hardware was %s although allow_controller_activation_with_inactive_hardware is %s", got ? "accepted" : "refused", w.allow_inactive ? "true" : "false"));
    }
    c.nontrivial(requests >= 2 && arrived >= 1 && comps.size() > 1);
  }
  else c.nontrivial(comps.size() > 1);
  if (fails) c.label("an initial state was not reached");
  if (by_topic > 1) c.label("broken descriptions came first");
  bool bg = false;
  for (auto & [g, b] : broken) bg |= b > 0;
  if (bg) c.label("a group failed at the start");
}
static void test_hardware_stop(Case & c)
{
  try
  {
    test_hardware(c);
  }
  catch (const Stop &)
  {
  }
}

// async.cpp
void async_hardware(Case &);
void async_controller(Case &);
void async_threads(Case &);

#ifndef NO_MAIN
int main(int argc, char ** argv)
{
  const auto p = prop();
  pbt::Options o;
  o.property = p.c_str();
  o.quick_cases = 30000;
  o.thorough_cases = 2000000;
  o.quick_cap_s = 40;
  o.thorough_cap_s = 500;
  o.case_timeout_s = 60;
  o.worker_init = []
  {
    shim::fake_clock().enabled = true;
    register_plugins();
    register_controllers();
  };
  o.rule = p == "C22"   ? "at least two switches succeeded and one was refused"
           : p == "C23" ? "a chained pair was updated and at least two switches succeeded"
           : p == "C24" ? "at least three updates at a lower rate than the manager's"
           : p == "C25" ? "a controller failed in update"
           : p == "C26" ? "hardware failed after a controller had been activated"
           : p == "C27" ? "a request was refused and a switch succeeded"
           : p == "C28" ? "at least two queries and a successful switch"
           : p == "C29" ? "several components, at least two requests and a state was reached"
                        : "a controller was stopped";
  if (p == "C34")
  {
    o.rule = "at least three asynchronous cycles ran and one was late, failed or was due at a transition";
    o.quick_cases = 150000;
    return run(argc, argv, o, {{"hardware", 10, async_hardware}, {"controller", 10, async_controller}, {"threads", 1, async_threads}, {"manager", 6, test_history}});
  }
  if (p == "C29") return run(argc, argv, o, {{"hardware", 1, test_hardware_stop}});
  return run(argc, argv, o, {{"history", 1, test_history}});
}
#endif
