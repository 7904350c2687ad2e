// C21: the base classes of controllers, driven directly: life cycle requests with every callback outcome,
// update rates, chained mode, exported interfaces, updates; compared with a model after every step.
#include <cmath>
#include <limits>

#include "controller_interface/chainable_controller_interface.hpp"
#include "controller_interface/controller_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace hardware_interface;
namespace ci = controller_interface;
using LS = lifecycle_msgs::msg::State;
using CB = ci::CallbackReturn;

struct Exp
{
  std::string prefix, name;
  bool list = false;
  double * legacy = nullptr;
};
struct Plan
{
  int outcome = 0, err = 0;  // 0 success, 1 failure, 2 error, 3 exception
  bool chain_ok = true;
  int sub = 0, upd = 0;      // outcome of the updates
  double from_sub = 0;
  std::vector<Exp> refs, states;
  bool wrong_size = false;
  bool inherited = false;    // what is not exported the old way is left to the base class
  std::vector<std::string> calls;
  std::vector<double> used;  // the references seen by the last update
  int64_t time = 0, period = 0;
  uint8_t id_in_callback = 0;
};
static CB result(int o)
{
  if (o == 3) throw std::runtime_error("scripted");
  return o == 0 ? CB::SUCCESS : o == 1 ? CB::FAILURE : CB::ERROR;
}
template <class Base>
struct Common : Base
{
  Plan p;
  CB on_init() override { p.calls.push_back("init"); return result(p.outcome); }
  CB call(const char * n, int o)
  {
    p.calls.push_back(n);
    p.id_in_callback = this->get_lifecycle_id();
    return result(o);
  }
  CB on_configure(const rclcpp_lifecycle::State &) override { return call("configure", p.outcome); }
  CB on_cleanup(const rclcpp_lifecycle::State &) override { return call("cleanup", p.outcome); }
  CB on_activate(const rclcpp_lifecycle::State &) override { return call("activate", p.outcome); }
  CB on_deactivate(const rclcpp_lifecycle::State &) override { return call("deactivate", p.outcome); }
  CB on_shutdown(const rclcpp_lifecycle::State &) override { return call("shutdown", p.outcome); }
  CB on_error(const rclcpp_lifecycle::State &) override { return call("error", p.err); }
  ci::InterfaceConfiguration command_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  ci::return_type done(int o)
  {
    if (o == 3) throw std::runtime_error("scripted");
    return o ? ci::return_type::ERROR : ci::return_type::OK;
  }
  size_t held() const { return this->command_interfaces_.size() * 100 + this->state_interfaces_.size(); }
};
struct Plain : Common<ci::ControllerInterface>
{
  ci::return_type update(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    p.calls.push_back("update");
    p.time = t.nanoseconds(), p.period = d.nanoseconds();
    return done(p.upd);
  }
};
struct Chain : Common<ci::ChainableControllerInterface>
{
  std::vector<StateInterface> on_export_state_interfaces() override
  {
    std::vector<StateInterface> v;
    size_t n = 0;
    for (auto & e : p.states) n += !e.list;
    if (n == 0 && p.inherited) return ci::ChainableControllerInterface::on_export_state_interfaces();
    state_interfaces_values_.assign(n, 0.0);
    n = 0;
    for (auto & e : p.states)
      if (!e.list) v.emplace_back(e.prefix, e.name, &state_interfaces_values_[n++]);
    return v;
  }
  std::vector<StateInterface::SharedPtr> on_export_state_interfaces_list() override
  {
    std::vector<StateInterface::SharedPtr> v;
    for (auto & e : p.states)
      if (e.list) v.push_back(std::make_shared<StateInterface>(e.prefix, e.name));
    return v;
  }
  std::vector<CommandInterface> on_export_reference_interfaces() override
  {
    std::vector<CommandInterface> v;
    size_t n = 0;
    for (auto & e : p.refs) n += !e.list;
    if (n == 0 && p.inherited && !p.wrong_size) return ci::ChainableControllerInterface::on_export_reference_interfaces();
    reference_interfaces_.assign(n + (p.wrong_size ? 1 : 0), 0.0);
    n = 0;
    for (auto & e : p.refs)
      if (!e.list) v.emplace_back(e.prefix, e.name, &reference_interfaces_[n++]);
    return v;
  }
  std::vector<CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    std::vector<CommandInterface::SharedPtr> v;
    for (auto & e : p.refs)
      if (e.list) v.push_back(std::make_shared<CommandInterface>(e.prefix, e.name));
    return v;
  }
  bool on_set_chained_mode(bool m) override
  {
    p.calls.push_back(m ? "chain" : "unchain");
    return p.chain_ok;
  }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override
  {
    p.calls.push_back("subscribers");
    if (p.sub == 0)
      for (auto & i : ordered_exported_reference_interfaces_) (void)i->set_value(p.from_sub, true);
    return done(p.sub);
  }
  ci::return_type update_and_write_commands(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    p.calls.push_back("update");
    p.used.clear();
    for (auto & i : ordered_exported_reference_interfaces_) p.used.push_back(i->get_optional().value());
    p.time = t.nanoseconds(), p.period = d.nanoseconds();
    return done(p.upd);
  }
  std::vector<std::string> ref_names() const { return exported_reference_interface_names_; }
  std::vector<std::string> state_names() const { return exported_state_interface_names_; }
  void produce(size_t i, double v) { (void)ordered_exported_state_interfaces_[i]->set_value(v, true); }
};

static const char * kState[] = {"unknown", "unconfigured", "inactive", "active", "finalized"};

static void test_base(Case & c)
{
  const bool chainable = c.chance(65);
  std::unique_ptr<Plain> plain;
  std::unique_ptr<Chain> chain;
  if (chainable) chain = std::make_unique<Chain>();
  else plain = std::make_unique<Plain>();
  ci::ControllerInterfaceBase * base = chainable ? static_cast<ci::ControllerInterfaceBase *>(chain.get()) : plain.get();
  Plan & p = chainable ? chain->p : plain->p;
  const std::string name = c.pick<std::string>({"ctrl", "c", "arm_controller"});
  const unsigned cm_rate = c.pick<unsigned>({100, 1, 50, 250, 1000, 333, static_cast<unsigned>(c.range(1, 2000))});
  ci::ControllerInterfaceParams params;
  params.controller_name = name;
  params.update_rate = cm_rate;
  params.controller_manager_update_rate = cm_rate;
  params.robot_description = "<robot/>";
  p.outcome = c.weighted({12, 1, 1}) == 0 ? 0 : static_cast<int>(1 + c.below(2));
  int state = LS::PRIMARY_STATE_UNCONFIGURED;
  {
    int o = p.outcome;
    auto r = base->init(params);
    c.checkf((r == ci::return_type::OK) == (o == 0), "init", "initialising with outcome %d reports %s", o, r == ci::return_type::OK ? "success" : "failure");
    // a failed one is shut down, with the callback of the shutdown failing alike
    std::vector<std::string> want = {"init"};
    if (o) want.push_back("shutdown");
    if (o == 2) want.push_back("error");
    c.check(p.calls == want, "init", "the callbacks of the initialisation are not the right ones");
    if (o) state = o == 2 ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED;
    c.check(base->get_name() == name && base->get_robot_description() == "<robot/>" && base->is_chainable() == chainable, "init", "name, description or kind are not kept");
    if (o == 2)
    {
      // on_error was successful, so the node is unconfigured; nobody goes on with such a controller
      return;
    }
  }
  bool chained = false;
  std::shared_ptr<StateInterface> hs = std::make_shared<StateInterface>("j", "position");
  std::shared_ptr<CommandInterface> hc = std::make_shared<CommandInterface>("j", "position");
  int released = 0, given = 0, held_given = 0;
  std::vector<CommandInterface::SharedPtr> refs;
  std::vector<StateInterface::ConstSharedPtr> states;
  std::map<std::string, double> ref_val;
  int64_t now = 1'000'000'000;
  int rate = -1, transitions = 0, updates = 0, exports = 0, bad = 0;
  auto node = base->get_node();
  auto checks = [&](const char * after)
  {
    int s = base->get_lifecycle_state().id();
    c.checkf(s == state, "state", "after %s the controller is %s instead of %s", after, kState[s > 4 ? 0 : s], kState[state]);
    c.checkf(base->get_lifecycle_id() == state, "state id", "after %s the id of the state is %d instead of %d", after, base->get_lifecycle_id(), state);
    c.checkf(base->is_in_chained_mode() == chained, "chained mode", "after %s the controller is %sin chained mode", after, chained ? "not " : "");
    c.checkf(released == given - held_given, "release", "after %s %d interfaces were released instead of %d", after, released, given - held_given);
    c.checkf((chainable ? chain->held() : plain->held()) == (held_given ? 101u : 0u), "release", "after %s the controller does not hold the interfaces it should", after);
  };
  checks("initialising");
  while (c.more(24))
  {
    p.calls.clear();
    p.outcome = static_cast<int>(c.weighted({10, 2, 2, 1}));
    p.err = static_cast<int>(c.weighted({4, 1, 1, 1}));
    switch (c.weighted({9, 2, 4, chainable ? 4u : 1u, 6, 2}))
    {
      case 0:
      {
        // a request of the life cycle; a legal one most of the time
        static const std::vector<std::string> reqs = {"configure", "activate", "deactivate", "cleanup", "shutdown"};
        std::string q;
        if (c.chance(75))
          q = state == LS::PRIMARY_STATE_UNCONFIGURED ? "configure" : state == LS::PRIMARY_STATE_INACTIVE ? (c.chance(70) ? "activate" : "cleanup") : "deactivate";
        else
          q = c.pick(reqs);
        bool legal = q == "configure" ? state == LS::PRIMARY_STATE_UNCONFIGURED : q == "activate" || q == "cleanup" ? state == LS::PRIMARY_STATE_INACTIVE : q == "deactivate" ? state == LS::PRIMARY_STATE_ACTIVE : state != LS::PRIMARY_STATE_FINALIZED;
        bool negative = false;
        const unsigned before = base->get_update_rate();
        if (q == "configure")
        {
          if (c.chance(60))
          {
            rate = c.weighted({1, 12}) == 0 ? static_cast<int>(c.range(-5, -1)) : c.pick<int>({100, 1, 10, 30, 50, 99, 2000, static_cast<int>(cm_rate), static_cast<int>(c.range(1, cm_rate)), static_cast<int>(c.range(1, 3000))});
            node->set_parameter(rclcpp::Parameter("update_rate", rate));
          }
          negative = rate < 0 && node->get_parameter("update_rate").as_int() < 0;
        }
        if (negative && legal) legal = false;
        c.note("%s%s, outcome %d/%d%s", q.c_str(), legal ? "" : " (not possible)", p.outcome, p.err, q == "configure" ? strf(", rate %d of %u", rate, cm_rate).c_str() : "");
        auto & r = q == "configure" ? base->configure() : q == "activate" ? node->activate() : q == "deactivate" ? node->deactivate() : q == "cleanup" ? node->cleanup() : node->shutdown();
        std::vector<std::string> want;
        if (legal)
        {
          ++transitions;
          want.push_back(q);
          if (p.outcome == 0)
            state = q == "configure" || q == "deactivate" ? LS::PRIMARY_STATE_INACTIVE : q == "activate" ? LS::PRIMARY_STATE_ACTIVE : q == "cleanup" ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED;
          else if (p.outcome == 1)
            state = q == "configure" ? LS::PRIMARY_STATE_UNCONFIGURED : q == "deactivate" ? LS::PRIMARY_STATE_ACTIVE : q == "shutdown" ? LS::PRIMARY_STATE_FINALIZED : LS::PRIMARY_STATE_INACTIVE;
          else
          {
            want.push_back("error");
            state = p.err == 0 ? LS::PRIMARY_STATE_UNCONFIGURED : LS::PRIMARY_STATE_FINALIZED;
          }
          // whoever asks from within the callback must not be told that the controller is active or as before
          bool ex_shutdown = q == "shutdown" && p.outcome == 3, ex_error = p.outcome >= 2 && p.err == 3;
          if (ex_shutdown && !ex_error) held_given = 0;
          if ((q == "shutdown" && !ex_shutdown) || (p.outcome >= 2 && !ex_error)) held_given = 0;
          if (ex_shutdown && ex_error && held_given)
          {
            // callbacks that throw from both leave it open
            held_given = released < given ? 2 : 0;
          }
          else if (ex_error && held_given)
            held_given = released < given ? 2 : 0;
          if (p.outcome) ++bad;
        }
        c.checkf(p.calls == want, "callbacks", "%s in state %s ran %zu callbacks (%s...)", q.c_str(), kState[state], p.calls.size(), p.calls.empty() ? "" : p.calls[0].c_str());
        c.checkf(r.id() == state, "returned state", "%s returned %s instead of %s", q.c_str(), r.label().c_str(), kState[state]);
        unsigned eff = base->get_update_rate();
        if (q == "configure" && legal)
        {
          unsigned want_rate = rate < 0 ? cm_rate : std::min<unsigned>(static_cast<unsigned>(rate), cm_rate);
          c.checkf(eff >= 1 && eff <= cm_rate, "update rate", "the rate %u is above that of the manager (%u)", eff, cm_rate);
          if (cm_rate % want_rate == 0)
            c.checkf(eff == want_rate, "update rate", "the rate is %u instead of %u (manager %u)", eff, want_rate, cm_rate);
          else
          {
            unsigned k = cm_rate / want_rate;
            c.checkf(eff == cm_rate / k || eff == cm_rate / (k + 1), "update rate", "the rate %u is not one of the next possible ones for %u (manager %u)", eff, want_rate, cm_rate);
          }
        }
        else
          c.checkf(eff == before, "update rate", "%s changed the rate from %u to %u", q.c_str(), before, eff);
        checks(q.c_str());
        break;
      }
      case 1:
      {
        if (state == LS::PRIMARY_STATE_FINALIZED || held_given) break;
        std::vector<LoanedCommandInterface> ic;
        std::vector<LoanedStateInterface> is;
        ic.emplace_back(hc, [&released] { ++released; });
        is.emplace_back(hs, [&released] { ++released; });
        given += 2, held_given = 2;
        base->assign_interfaces(std::move(ic), std::move(is));
        c.note("assign interfaces");
        checks("assigning interfaces");
        if (c.chance(30))
        {
          base->release_interfaces();
          held_given = 0;
          checks("releasing interfaces");
        }
        break;
      }
      case 2:
      {
        bool m = c.coin();
        p.chain_ok = c.chance(85);
        c.note("chained mode %d%s", m, p.chain_ok ? "" : " (refused by the controller)");
        bool r = base->set_chained_mode(m);
        bool want = chainable && state != LS::PRIMARY_STATE_ACTIVE && p.chain_ok;
        c.checkf(r == want, "chained mode", "changing the chained mode in state %s reports %s", kState[state], r ? "success" : "failure");
        if (want) chained = m;
        c.checkf(p.calls.size() == (chainable && state != LS::PRIMARY_STATE_ACTIVE ? 1u : 0u), "chained mode", "the callback of the chained mode ran %zu times", p.calls.size());
        checks("changing the chained mode");
        break;
      }
      case 3:
      {
        if (!chainable)
        {
          c.check(base->export_reference_interfaces().empty() && base->export_state_interfaces().empty(), "export", "a controller that is not chainable exports interfaces");
          break;
        }
        std::vector<std::string> prefixes = {name, name + "/joint1", name + "/joint1/a"}, wrong = {"other", "x" + name, "joint1/" + name, ""};
        bool bad_prefix = false, duplicate = false;
        auto gen = [&](std::vector<Exp> & v)
        {
          v.clear();
          std::vector<std::pair<std::string, std::string>> pool;
          for (auto & q : prefixes)
            for (auto n : {"position", "velocity"}) pool.emplace_back(q, n);
          c.shuffle(pool);
          size_t n = c.below(5);
          p.inherited = c.coin();
          const bool all_new = p.inherited && c.coin();
          for (size_t i = 0; i < n; ++i) v.push_back({pool[i].first, pool[i].second, all_new || c.coin()});
        };
        const bool do_refs = c.coin();
        auto & v = do_refs ? p.refs : p.states;
        gen(v);
        if (v.size() && c.chance(12)) v[c.below(v.size())].prefix = c.pick(wrong), bad_prefix = true;
        if (v.size() && !bad_prefix && c.chance(12))
        {
          auto e = c.pick(v);
          if (c.coin()) e.list = !e.list;
          v.insert(v.begin() + static_cast<long>(c.below(v.size() + 1)), e);
          duplicate = true;
        }
        p.wrong_size = do_refs && c.chance(6);
        std::vector<std::string> want;
        for (bool l : {false, true})
          for (auto & e : v)
            if (e.list == l) want.push_back(e.prefix + "/" + e.name);
        std::string t;
        for (auto & e : v) t += " " + e.prefix + "/" + e.name + (e.list ? "*" : "");
        c.note("export %s:%s", do_refs ? "references" : "states", t.c_str());
        bool threw = false;
        std::vector<std::string> got;
        try
        {
          if (do_refs)
          {
            ref_val.clear();
            refs.clear();
            refs = base->export_reference_interfaces();
            for (auto & i : refs) got.push_back(i->get_name()), ref_val[i->get_name()] = i->get_optional().value();
          }
          else
          {
            states.clear();
            states = base->export_state_interfaces();
            for (auto & i : states) got.push_back(i->get_name());
          }
        }
        catch (const std::runtime_error &)
        {
          threw = true;
        }
        c.checkf(threw == (bad_prefix || duplicate || p.wrong_size), "export", "exporting%s was %s", t.c_str(), threw ? "refused" : "accepted");
        if (threw)
        {
          ++bad;
          if (do_refs)
          {
            // the manager gives up on such a controller; start anew
            p.refs.clear(), p.wrong_size = false;
            refs = base->export_reference_interfaces();
            c.check(refs.empty(), "export", "interfaces of a refused export appear later");
          }
          else
          {
            p.states.clear();
            states = base->export_state_interfaces();
            c.check(states.empty(), "export", "interfaces of a refused export appear later");
          }
          break;
        }
        ++exports;
        auto a = got, b = want;
        std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
        c.checkf(a == b, "export", "exporting%s gave %zu interfaces", t.c_str(), got.size());
        auto mine = do_refs ? chain->ref_names() : chain->state_names();
        c.check(mine == got, "export", "the names of the exported interfaces are not kept in their order");
        if (!do_refs)
          for (size_t i = 0; i < states.size(); ++i)
          {
            double x = c.range(-1000, 1000) / 8.0;
            chain->produce(i, x);
            c.checkf(states[i]->get_optional().value() == x, "exported state", "the exported state %s does not show what the controller sets", got[i].c_str());
          }
        break;
      }
      case 4:
      {
        if (state != LS::PRIMARY_STATE_ACTIVE && !c.chance(10)) break;
        p.sub = static_cast<int>(c.weighted({8, 1})), p.upd = static_cast<int>(c.weighted({8, 1, 0, 1}));
        p.from_sub = c.range(-1000, 1000) / 16.0;
        for (auto & r : refs)
          if (c.coin())
          {
            double x = c.range(-1000, 1000) / 32.0;
            if (!r->set_value(x, true)) c.fail("setup", "a reference could not be set");
            ref_val[r->get_name()] = x;
          }
        int64_t dt = c.range(1, 100'000'000);
        now += dt;
        c.note("update, %schained, outcomes %d %d", chained ? "" : "not ", p.sub, p.upd);
        rclcpp::Time t(now, RCL_STEADY_TIME);
        rclcpp::Duration d(std::chrono::nanoseconds{dt});
        bool threw = false, direct = c.coin();
        ci::return_type r = ci::return_type::ERROR;
        try
        {
          if (direct)
            r = base->update(t, d);
          else
          {
            auto s = base->trigger_update(t, d);
            r = s.result;
            c.check(s.successful && s.period && s.period->nanoseconds() == dt && s.execution_time && s.execution_time->count() >= 0, "trigger", "the status of a synchronous update is not right");
          }
        }
        catch (const std::runtime_error &)
        {
          threw = true;
        }
        std::vector<std::string> want;
        bool ok = true;
        if (chainable && !chained)
        {
          want.push_back("subscribers");
          ok = p.sub == 0;
          if (ok)
            for (auto & [n, v] : ref_val) v = p.from_sub;
        }
        if (ok) want.push_back("update");
        c.checkf(p.calls == want, "update", "an update (%schained) ran %zu callbacks, the first %s", chained ? "" : "not ", p.calls.size(), p.calls.empty() ? "" : p.calls[0].c_str());
        c.checkf(threw == (ok && p.upd == 3), "update", "an exception was %s", threw ? "made up" : "lost");
        if (!threw) c.checkf((r == ci::return_type::OK) == (ok && p.upd == 0), "update", "the update reports %s", r == ci::return_type::OK ? "success" : "failure");
        if (ok)
        {
          c.check(p.time == now && p.period == dt, "update", "time or period of the update are not the given ones");
          if (chainable)
          {
            c.check(p.used.size() == refs.size(), "references", "wrong number of references");
            for (size_t i = 0; i < refs.size(); ++i)
              c.checkf(p.used[i] == ref_val[refs[i]->get_name()] || (std::isnan(p.used[i]) && std::isnan(ref_val[refs[i]->get_name()])), "references", "the update used %g instead of %g for %s (%schained)", p.used[i], ref_val[refs[i]->get_name()], refs[i]->get_name().c_str(), chained ? "" : "not ");
          }
          ++updates;
        }
        break;
      }
      default:
        // other parameters may be set at any time without effect on a configured controller
        if (state == LS::PRIMARY_STATE_INACTIVE || state == LS::PRIMARY_STATE_ACTIVE)
        {
          unsigned before = base->get_update_rate();
          rate = static_cast<int>(c.range(1, 1000));
          node->set_parameter(rclcpp::Parameter("update_rate", rate));
          c.note("set the rate to %d later", rate);
          c.check(base->get_update_rate() == before, "update rate", "the rate of a configured controller changed");
        }
    }
  }
  c.nontrivial(transitions >= 2 && (!chainable || updates + exports >= 1));
  c.label(chainable ? "chainable" : "not chainable");
  if (bad) c.label("failing callbacks or exports");
  if (updates) c.label("updates");
  if (exports) c.label("exports");
  if (chained) c.label("chained mode");
}

#ifndef NO_MAIN
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C21";
  o.quick_cases = 120000;
  o.thorough_cases = 8000000;
  o.quick_cap_s = 25;
  o.thorough_cap_s = 400;
  o.rule = "at least two transitions and, for chainable controllers, an update or export";
  return run(argc, argv, o, {{"base", 1, test_base}});
}
#endif
