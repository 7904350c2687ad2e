// C19: the mock system, run by a resource manager: generated joints, sensors, GPIOs, mimic joints and
// parameters, histories of commands, mode switches and reads, compared with a model of the documentation.
#include <cmath>
#include <limits>

#include "hardware_interface/resource_manager.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace hardware_interface;
using LS = lifecycle_msgs::msg::State;
static const double NaN = std::numeric_limits<double>::quiet_NaN();

struct J
{
  std::string name;
  std::vector<std::string> cmds, states;  // names of interfaces
  std::map<std::string, bool> is_bool;
  std::map<std::string, std::string> initial;
  int mimics = -1;
  double mult = 1, off = 0;
  std::string mode = "position";
};
template <class T>
static bool has(const std::vector<T> & v, const T & x)
{
  return std::find(v.begin(), v.end(), x) != v.end();
}
static bool has(const std::vector<std::string> & v, const char * x) { return has(v, std::string(x)); }

static void test_mock(Case & c)
{
  std::vector<J> joints, gpios, sensors;
  std::vector<std::string> names = {"joint1", "joint10", "joint", "joint1_2", "my_joint1", "j", "joint11"};
  c.shuffle(names);
  const bool dyn = c.chance(45), disabled = c.chance(8), mock_sensor = c.coin(), mock_gpio = c.coin();
  double offset = 0;
  std::string custom;
  bool has_offset = c.chance(40);
  if (has_offset) offset = c.pick<double>({0.25, -3.0, 0.0, 1e-3, 17.5});
  if (has_offset && c.chance(45)) custom = c.pick<std::string>({"foo", "bar", "nope"});
  int nj = static_cast<int>(c.range(1, 4));
  for (int i = 0; i < nj; ++i)
  {
    J j;
    j.name = names[i];
    bool whole = dyn && c.chance(75);
    for (auto x : {"position", "velocity", "acceleration"})
    {
      if (c.chance(60)) j.cmds.push_back(x);
      if (whole || c.chance(70)) j.states.push_back(x);
    }
    for (auto x : {"effort", "foo", "bar"})
    {
      if (c.chance(25)) j.cmds.push_back(x);
      if (c.chance(35)) j.states.push_back(x);
      if (std::string(x) != "effort" && x != custom && c.chance(20)) j.is_bool[x] = true;
    }
    if (i && c.chance(25))
    {
      int m = static_cast<int>(c.below(i));
      if (joints[m].mimics < 0)
      {
        j.mimics = m;
        j.mult = c.pick<double>({1.0, -2.0, 0.5, 0.0});
        j.off = c.pick<double>({0.0, 0.75, -1.5});
        j.cmds.clear();
      }
    }
    if (j.states.empty()) j.states.push_back("position");
    joints.push_back(j);
  }
  // the order in which joints are listed is arbitrary
  std::vector<size_t> perm;
  for (size_t i = 0; i < joints.size(); ++i) perm.push_back(i);
  c.shuffle(perm);
  auto other = [&](const char * base, std::vector<J> & v, bool cmds)
  {
    for (int i = static_cast<int>(c.below(3)); i > 0; --i)
    {
      J g;
      g.name = base + std::string(i == 1 ? "" : "1");
      for (auto x : {"a", "b", "position"})
      {
        if (cmds && c.chance(45)) g.cmds.push_back(x);
        if (c.chance(60)) g.states.push_back(x);
        if (c.chance(25)) g.is_bool[x] = true;
      }
      if (g.states.empty() && (!cmds || g.cmds.empty())) g.states.push_back("a");
      v.push_back(g);
    }
  };
  other("io", gpios, true);
  other("sens", sensors, false);
  std::map<std::string, double> st;     // the model: values of all states
  std::map<std::string, bool> isb;      // boolean interfaces
  std::vector<std::string> cmds;
  std::string xml = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>";
  for (auto & j : joints)
  {
    xml += "<link name=\"l_" + j.name + "\"/><joint name=\"" + j.name + "\" type=\"continuous\"><parent link=\"world\"/><child link=\"l_" + j.name + "\"/>";
    if (j.mimics >= 0) xml += "<mimic joint=\"" + joints[j.mimics].name + "\" multiplier=\"" + num(j.mult) + "\" offset=\"" + num(j.off) + "\"/>";
    xml += "</joint>";
  }
  xml += "<ros2_control name=\"mock\" type=\"system\"><hardware><plugin>mock_components/GenericSystem</plugin>";
  auto param = [&](const char * n, bool v, int always)
  {
    if (v || c.chance(always)) xml += std::string("<param name=\"") + n + "\">" + (v ? c.pick<std::string>({"true", "True"}) : c.pick<std::string>({"false", "False"})) + "</param>";
  };
  param("calculate_dynamics", dyn, 30);
  param("disable_commands", disabled, 30);
  param("mock_gpio_commands", mock_gpio, 30);
  param("mock_sensor_commands", mock_sensor, 30);
  if (has_offset) xml += "<param name=\"position_state_following_offset\">" + num(offset) + "</param>";
  if (!custom.empty()) xml += "<param name=\"custom_interface_with_following_offset\">" + custom + "</param>";
  xml += "</hardware>";
  auto itf = [&](J & j, const char * kind, const std::string & n, bool state)
  {
    bool b = j.is_bool.count(n) && j.is_bool[n];
    xml += std::string("<") + kind + " name=\"" + n + "\"" + (b ? " data_type=\"bool\"" : "") + ">";
    double init = b ? 0 : NaN;
    if (state && c.chance(40))
    {
      std::string v = b ? c.pick<std::string>({"true", "false"}) : num(c.pick<double>({3.45, -2.0, 0.0, 100.5}));
      xml += "<param name=\"initial_value\">" + v + "</param>";
      init = b ? v == "true" : std::stod(v);
    }
    xml += std::string("</") + kind + ">";
    auto full = j.name + "/" + n;
    if (state) st[full] = init;
    else cmds.push_back(full);
    isb[full] = b;
  };
  auto part = [&](J & j, const char * tag)
  {
    xml += std::string("<") + tag + " name=\"" + j.name + "\">";
    for (auto & n : j.cmds) itf(j, "command_interface", n, false);
    for (auto & n : j.states) itf(j, "state_interface", n, true);
    xml += std::string("</") + tag + ">";
  };
  for (auto i : perm) part(joints[i], "joint");
  for (auto & g : gpios) part(g, "gpio");
  for (auto & s : sensors) part(s, "sensor");
  xml += "</ros2_control></robot>";
  c.notes(xml);
  // commands for faking sensors and GPIOs
  auto fake = [&](std::vector<J> & v)
  {
    for (auto & g : v)
      for (auto & n : g.states)
        if (!has(g.cmds, n)) cmds.push_back(g.name + "/" + n);
  };
  if (mock_sensor) fake(sensors);
  if (mock_gpio) fake(gpios);

  int64_t now = 1'000'000'000'000;
  shim::fake_clock().now_ns = now;
  ResourceManagerParams p;
  p.robot_description = xml;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.logger = rclcpp::get_logger("x");
  p.update_rate = 100;
  std::unique_ptr<ResourceManager> rm;
  try
  {
    rm = std::make_unique<ResourceManager>(p, false);
    c.check(rm->load_and_initialize_components(p), "load", "the description was refused");
  }
  catch (const std::exception & e)
  {
    c.fail("load", std::string("the description was refused: ") + e.what());
  }
  auto sorted = [](std::vector<std::string> v) { std::sort(v.begin(), v.end()); return v; };
  {
    std::vector<std::string> want;
    for (auto & [n, v] : st) want.push_back(n);
    c.check(sorted(rm->state_interface_keys()) == want, "state interfaces", "the exported state interfaces are not the declared ones");
    c.check(sorted(rm->command_interface_keys()) == sorted(cmds), "command interfaces", "the exported command interfaces are not the declared ones and those to fake");
  }
  auto go = [&](int target)
  {
    rclcpp_lifecycle::State s(static_cast<uint8_t>(target), "x");
    c.check(rm->set_component_state("mock", s) == return_type::OK, "state request", "the component did not reach the requested state");
  };
  go(LS::PRIMARY_STATE_INACTIVE);
  std::map<std::string, std::unique_ptr<LoanedStateInterface>> in;
  std::map<std::string, std::unique_ptr<LoanedCommandInterface>> out;
  for (auto & [n, v] : st) in[n] = std::make_unique<LoanedStateInterface>(rm->claim_state_interface(n));
  for (auto & n : cmds) out[n] = std::make_unique<LoanedCommandInterface>(rm->claim_command_interface(n));
  auto value = [&](auto & i, bool b) -> double
  {
    if (b) return i.template get_optional<bool>().value();
    return i.get_optional().value();
  };
  auto near = [](double a, double b, double scale) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-9 * std::max(1.0, std::max(scale, std::fabs(b))); };
  double scale = 1;
  auto compare = [&](const char * after)
  {
    for (auto & [n, v] : st)
    {
      double g = value(*in[n], isb[n]);
      scale = std::max(scale, std::isfinite(v) ? std::fabs(v) : 0.0);
      if (!near(g, v, scale)) c.fail(strf("%s", n.substr(n.find('/') + 1).c_str()), strf("after %s %s is %.17g instead of %.17g", after, n.c_str(), g, v));
      st[n] = g;
    }
  };
  // configured: states of joints without initial value are zero, the offset is added to positions
  for (auto & j : joints)
    for (auto & n : j.states)
    {
      auto f = j.name + "/" + n;
      if (!isb[f] && std::isnan(st[f])) st[f] = 0;
      if (n == "position" && custom.empty()) st[f] += offset;
    }
  compare("configuring");
  if (c.chance(80))
  {
    go(LS::PRIMARY_STATE_ACTIVE);
    compare("activating");
  }
  auto cmd = [&](const std::string & n) { return out.count(n) ? value(*out[n], isb[n]) : NaN; };
  for (auto & [n, o] : out)
    if (!isb[n])  // those to fake a state may start from its initial value
      c.check(std::isnan(cmd(n)) || (st.count(n) && cmd(n) == st[n]), "initial command", n + " has a command before one was given");
  int mirrored = 0, moved = 0, switches = 0;
  while (c.more(16))
  {
    switch (c.weighted({5, 6, dyn ? 3u : 1u, 1, 1}))
    {
      case 0:
        for (int x = 1 + static_cast<int>(c.below(4)); x > 0 && !cmds.empty(); --x)
        {
          auto & n = c.pick(cmds);
          double v = isb[n] ? c.coin() : c.weighted({1, 8}) == 0 ? NaN : c.pick<double>({0.0, 1.0, -1.0, 0.5, 2.75, -17.25, c.range(-1000, 1000) / 64.0});
          c.note("command %s = %g", n.c_str(), v);
          c.check(isb[n] ? out[n]->set_value<bool>(v != 0) : out[n]->set_value(v), "set", "a command could not be set");
        }
        break;
      case 1:
      {
        double dt = c.weighted({4, 1}) == 0 ? 0.01 : c.pick<double>({0.001, 0.02, 0.5, 1.0});
        int64_t dn = std::llround(dt * 1e9);
        now += dn;
        shim::fake_clock().now_ns = now;
        c.note("read after %g s", dt);
        auto r = rm->read(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(dn)));
        c.check(r.result == return_type::OK, "read", "the read failed");
        bool open_custom = false;
        if (!disabled)
        {
          for (auto & j : joints)
          {
            auto S = [&](const char * n) -> double { auto it = st.find(j.name + "/" + n); return it == st.end() ? NaN : it->second; };
            auto C = [&](const char * n) { return cmd(j.name + "/" + n); };
            auto put = [&](const char * n, double v)
            {
              auto it = st.find(j.name + "/" + n);
              if (it == st.end() || !std::isfinite(v)) return;
              if (it->second != v) ++moved;
              it->second = v;
            };
            const double shift = custom.empty() ? offset : 0.0;
            double pos = S("position"), vel = S("velocity"), acc = S("acceleration");
            auto known = [](double x) { return std::isfinite(x) ? x : 0.0; };
            if (!dyn)
            {
              put("position", C("position") + shift);
              if (j.mimics < 0) put("velocity", C("velocity")), put("acceleration", C("acceleration"));
            }
            else if (j.mode == "position")
            {
              double x = C("position") + shift;
              if (std::isfinite(x))
              {
                double v = (x - pos) / dt;
                put("position", x);
                put("velocity", v);
                put("acceleration", (v - known(vel)) / dt);
              }
            }
            else
            {
              double v = vel, a = acc;
              if (j.mode == "velocity")
              {
                if (std::isfinite(C("velocity")))
                {
                  v = C("velocity");
                  a = (v - known(vel)) / dt;
                }
              }
              else
              {
                if (std::isfinite(C("acceleration"))) a = C("acceleration");
                v = known(vel) + known(a) * dt;
              }
              put("position", pos + known(v) * dt);
              put("velocity", v);
              put("acceleration", a);
            }
            for (auto & n : j.states)
            {
              auto f = j.name + "/" + n;
              if (n == "position" || n == "velocity" || n == "acceleration") continue;
              double x = cmd(f);
              if (out.count(f) && !std::isnan(x)) st[f] = x, ++mirrored;
              if (n == custom)
              {
                double y = C("position") + offset;
                if (std::isfinite(y)) st[f] = y, ++mirrored;
                // what follows in the other modes is not said
                if (dyn && j.mode != "position" && std::isfinite(y)) open_custom = true, st[f] = value(*in[f], false);
              }
            }
          }
          for (auto & j : joints)
            if (j.mimics >= 0)
              for (auto n : {"position", "velocity", "acceleration"})
              {
                auto f = j.name + "/" + n, g = joints[j.mimics].name + "/" + n;
                if (st.count(f) && st.count(g)) st[f] = j.mult * st[g] + (n == std::string("position") ? j.off : 0.0);
              }
          auto loop = [&](std::vector<J> & v)
          {
            for (auto & g : v)
              for (auto & n : g.states)
              {
                auto f = g.name + "/" + n;
                if (out.count(f) && !std::isnan(cmd(f))) st[f] = cmd(f), ++mirrored;
              }
          };
          loop(sensors);
          loop(gpios);
        }
        if (open_custom) c.label("custom interface in another mode");
        compare("reading");
        break;
      }
      case 2:
      {
        // start interfaces; with dynamics exactly one of the three has to be among those of a joint
        std::vector<std::string> start, stop;
        bool good = true;
        for (auto & j : joints)
        {
          if (j.cmds.empty() || !c.chance(50)) continue;
          std::vector<std::string> mine;
          if (c.chance(65))
          {
            mine.push_back(c.pick(j.cmds));
            for (auto & n : j.cmds)
              if (n != mine[0] && n != "position" && n != "velocity" && n != "acceleration" && c.coin()) mine.push_back(n);
          }
          else
            for (auto & n : j.cmds)
              if (c.coin()) mine.push_back(n);
          int modes = 0;
          for (auto & n : mine)
          {
            modes += n == "position" || n == "velocity" || n == "acceleration";
            start.push_back(j.name + "/" + n);
          }
          if (dyn && mine.size() && modes != 1) good = false;
        }
        for (auto & n : cmds)
          if (n.rfind("io", 0) == 0 && c.chance(10)) start.push_back(n);
        for (auto & n : cmds)
          if (!has(start, n) && c.chance(15)) stop.push_back(n);
        if (start.empty() && stop.empty()) break;
        c.shuffle(start);
        std::string t;
        for (auto & n : start) t += " " + n;
        bool active = rm->get_components_status().at("mock").state.id() == LS::PRIMARY_STATE_ACTIVE;
        if (!active) break;
        c.note("switch to%s", t.c_str());
        bool ok = rm->prepare_command_mode_switch(start, stop);
        c.checkf(ok == good, "mode switch", "a switch to%s was %s", t.c_str(), ok ? "accepted" : "refused");
        if (ok)
        {
          ++switches;
          c.check(rm->perform_command_mode_switch(start, stop), "perform", "an accepted mode switch was refused");
          for (auto & j : joints)
            for (auto n : {"position", "velocity", "acceleration"})
              if (has(start, j.name + "/" + n)) j.mode = n;
        }
        compare("a mode switch");
        break;
      }
      case 4:
      {
        // through the life cycle and back: nothing changes, but what configuring initialises
        const bool again = !dyn && c.chance(40);
        go(LS::PRIMARY_STATE_INACTIVE);
        c.note(again ? "cleaned up and configured" : "deactivated and activated");
        if (again)
        {
          go(LS::PRIMARY_STATE_UNCONFIGURED);
          compare("cleaning up");
          go(LS::PRIMARY_STATE_INACTIVE);
          for (auto & j : joints)
            for (auto & n : j.states)
            {
              auto f = j.name + "/" + n;
              if (isb[f]) continue;
              if (std::isnan(st[f])) st[f] = 0;
              // whether the offset is part of the position already is not said
              if (n == "position" && custom.empty() && near(value(*in[f], false), st[f] + offset, 1 + std::fabs(st[f]))) st[f] += offset;
            }
          compare("configuring again");
          c.label("configured again");
        }
        if (c.chance(85)) go(LS::PRIMARY_STATE_ACTIVE);
        compare("activating again");
        break;
      }
      default:
        c.note("write");
        c.check(rm->write(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(10'000'000))).result == return_type::OK, "write", "the write failed");
        compare("writing");
    }
  }
  // an infinite command cannot be mirrored
  std::vector<std::string> inf;
  for (auto & n : cmds)
    if (auto last = n.substr(n.find('/') + 1); !isb[n] && st.count(n) && (!has(names, n.substr(0, n.find('/'))) || (last != "position" && last != "velocity" && last != "acceleration"))) inf.push_back(n);
  if (!inf.empty() && c.chance(20))
  {
    auto & n = c.pick(inf);
    const double v = c.coin() ? INFINITY : -INFINITY;
    c.note("command %s = %g", n.c_str(), v);
    c.check(out[n]->set_value(v), "set", "a command could not be set");
    now += 10'000'000;
    shim::fake_clock().now_ns = now;
    auto r = rm->read(rclcpp::Time(now, RCL_STEADY_TIME), rclcpp::Duration(std::chrono::nanoseconds(10'000'000)));
    c.checkf((r.result == return_type::OK) == disabled, "infinite command", "the read after an infinite command reports %s", r.result == return_type::OK ? "success" : "failure");
    c.label("infinite command");
  }
  c.nontrivial(mirrored + moved >= 3 || (disabled && cmds.size() > 2));
  if (disabled) c.label("commands disabled");
  if (dyn && moved) c.label("dynamics");
  if (switches) c.label("mode switches");
  for (auto & j : joints)
    if (j.mimics >= 0 && moved) c.label("mimic joints");
}

#ifndef NO_MAIN
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C19";
  o.quick_cases = 60000;
  o.thorough_cases = 3000000;
  o.quick_cap_s = 25;
  o.thorough_cap_s = 400;
  o.worker_init = [] { shim::fake_clock().enabled = true; };
  o.rule = "at least three states followed a command (or commands are disabled)";
  return run(argc, argv, o, {{"mock", 1, test_mock}});
}
#endif
