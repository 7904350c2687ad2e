RMSRC = T.HI + T.JL
KIT = ['hw.hpp', 'pbt.hpp']
RM_HEAD = r'''
#include "hardware_interface/resource_manager.hpp"
#include "hw.hpp"
using namespace hw;
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("line %d: %s does not hold\n", __LINE__, #x); bad = 1; } } while (0)
static Comp comp(std::string name, std::string type, std::string joint, std::vector<std::string> cmds, std::vector<std::string> states)
{
  Comp k;
  k.name = name; k.type = type; k.plugin = plugin_of(type);
  Part p; p.kind = type == "sensor" ? "sensor" : "joint"; p.name = joint; p.states = states;
  for (auto & c : cmds) p.cmds.push_back({c, "", "", true});
  k.parts.push_back(p);
  return k;
}
static void go(ResourceManager & rm, const std::string & n, int id) { rclcpp_lifecycle::State s(id, label(id)); rm.set_component_state(n, s); }
'''
EXPECT = r'''
#include <cstdio>
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("line %d: %s does not hold\n", __LINE__, #x); bad = 1; } } while (0)
'''
PYHEAD = r'''
import importlib, os, sys
os.environ['VERIF_REPO'] = sys.argv[1]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyfakes as F
F.install()
'''
SEEDS = {
'C16-one-joint-per-cycle': dict(
  property='C16', needs='two joints whose hardware changes its own commands to values beyond the limits in the same cycle',
  breaks='The enforcement step stops at the first joint it had to limit; the commands of the others reach the hardware as they are.',
  edits=[('hardware_interface/src/resource_manager.cpp',
   '      enforce_result |= resource_storage_->enforce_command_limits(joint_name, period);',
   '''      enforce_result =
        enforce_result || resource_storage_->enforce_command_limits(joint_name, period);''')],
  src=RMSRC, kit=KIT,
  demo=RM_HEAD + r'''
int main()
{
  shim::fake_clock().enabled = true;
  shim::fake_clock().now_ns = 1'000'000'000;
  register_plugins();
  Robot r;
  r.comps = {comp("a", "system", "ja", {"velocity"}, {"position"}), comp("b", "system", "jb", {"velocity"}, {"position"})};
  for (auto n : {"ja", "jb"}) r.joints.push_back({n, "revolute", "<limit lower=\"-100\" upper=\"100\" velocity=\"1\" effort=\"10\"/>", ""});
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = 100;
  p.robot_description = r.xml();
  ResourceManager rm(p, false);
  rm.import_joint_limiters(p.robot_description);
  EXPECT(rm.load_and_initialize_components(p));
  for (auto n : {"a", "b"}) go(rm, n, 3);
  auto ca = rm.claim_command_interface("ja/velocity"), cb = rm.claim_command_interface("jb/velocity");
  scripts()["a"].state_out = {{"ja/position", 0}};
  scripts()["b"].state_out = {{"jb/position", 0}};
  scripts()["a"].cmd_out = {{"ja/velocity", 7}};
  scripts()["b"].cmd_out = {{"jb/velocity", 7}};
  rclcpp::Duration dt(0, 10'000'000);
  rm.read(rclcpp::Time(int64_t{1'010'000'000}, RCL_STEADY_TIME), dt);
  EXPECT(rm.enforce_command_limits(dt));
  rm.write(rclcpp::Time(int64_t{1'010'000'000}, RCL_STEADY_TIME), dt);
  EXPECT(scripts()["a"].cmd_seen["ja/velocity"] <= 1.0);
  EXPECT(scripts()["b"].cmd_seen["jb/velocity"] <= 1.0);
  return bad;
}
'''),
'C13-signed-velocity': dict(
  property='C13', needs='acceleration limits and a joint that moves in the negative direction',
  breaks='The reachable range is computed from the signed velocity, so that commands a joint moving backwards can reach are cut.',
  edits=[('joint_limits/src/joint_limits_helpers.cpp',
   'act_vel.has_value() ? std::fabs(act_vel.value()) : 0.0;', 'act_vel.has_value() ? std::max(act_vel.value(), 0.0) : 0.0;')],
  src=T.JL,
  demo=EXPECT + r'''
#include "joint_limits/joint_saturation_limiter.hpp"
using namespace joint_limits;
static double limited(double velocity, double command)
{
  JointLimits l;
  l.has_position_limits = true, l.min_position = -100, l.max_position = 100;
  l.has_velocity_limits = true, l.max_velocity = 5;
  l.has_acceleration_limits = true, l.max_acceleration = 2;
  JointSaturationLimiter<JointControlInterfacesData> s;
  JointLimiterInterface<JointControlInterfacesData> & i = s;
  i.init({"j"}, {l}, {}, nullptr, nullptr);
  JointControlInterfacesData actual, want;
  actual.joint_name = want.joint_name = "j";
  actual.position = 0.0, actual.velocity = velocity;
  want.position = 0.0;
  i.enforce(actual, want, rclcpp::Duration::from_seconds(0.5));
  want.position = command;
  i.enforce(actual, want, rclcpp::Duration::from_seconds(0.5));
  return *want.position;
}
int main()
{
  EXPECT(limited(4, 2.25) == 2.25);
  EXPECT(limited(-4, -2.25) == -2.25);
  return bad;
}
'''),
'C15-acceleration-limit-while-braking': dict(
  property='C15', needs='a joint with both acceleration and deceleration limits, the latter higher, that brakes without exceeding it',
  breaks='A deceleration inside its own limit is cut down to the acceleration limit.',
  edits=[('joint_limits/src/joint_saturation_limiter.cpp',
   'if (joint_limits_[index].has_acceleration_limits && !deceleration_limit_applied)',
   'if (joint_limits_[index].has_acceleration_limits && !limit_applied)')],
  src=T.JL,
  demo=EXPECT + r'''
#include "joint_limits/joint_saturation_limiter.hpp"
#include "trajectory_msgs/msg/joint_trajectory_point.hpp"
using namespace joint_limits;
using Point = trajectory_msgs::msg::JointTrajectoryPoint;
int main()
{
  JointLimits l;
  l.has_velocity_limits = true, l.max_velocity = 10;
  l.has_acceleration_limits = true, l.max_acceleration = 1;
  l.has_deceleration_limits = true, l.max_deceleration = 8;
  JointSaturationLimiter<Point> s;
  JointLimiterInterface<Point> & i = s;
  i.init({"j"}, {l}, {}, nullptr, nullptr);
  Point cur, want;
  cur.positions = {0}, cur.velocities = {3};
  want.velocities = {2.5};
  bool limited = i.enforce(cur, want, rclcpp::Duration::from_seconds(0.1));
  EXPECT(!limited);
  EXPECT(want.velocities[0] == 2.5);
  return bad;
}
'''),
'C06-write-clock-kept': dict(
  property='C06', needs='a component is deactivated, time passes, and it is activated again',
  breaks='The first write after the activation gets the time since the last write before the deactivation as its period.',
  edits=[('hardware_interface/src/hardware_component.cpp',
   '''  last_read_cycle_time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED);
  last_write_cycle_time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED);
  read_statistics_.reset_statistics();
  if (impl_''',
   '''  last_read_cycle_time_ = rclcpp::Time(0, 0, RCL_CLOCK_UNINITIALIZED);
  read_statistics_.reset_statistics();
  if (impl_''')],
  src=RMSRC, kit=KIT,
  demo=RM_HEAD + r'''
int main()
{
  shim::fake_clock().enabled = true;
  int64_t now = shim::fake_clock().now_ns = 1'000'000'000;
  register_plugins();
  Robot r;
  r.comps = {comp("a", "system", "ja", {"velocity"}, {"position"})};
  r.comps[0].rate = 50;
  r.joints.push_back({"ja", "continuous", "", ""});
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.update_rate = 100;
  p.robot_description = r.xml();
  ResourceManager rm(p, false);
  EXPECT(rm.load_and_initialize_components(p));
  rclcpp::Duration dt(0, 10'000'000);
  auto run = [&](int n)
  {
    for (int i = 0; i < n; ++i)
    {
      now = shim::fake_clock().now_ns += 10'000'000;
      rm.read(rclcpp::Time(now, RCL_STEADY_TIME), dt);
      rm.write(rclcpp::Time(now, RCL_STEADY_TIME), dt);
    }
  };
  go(rm, "a", 3);
  run(8);
  go(rm, "a", 2);
  run(40);
  auto & s = scripts()["a"];
  s.writes.clear();
  go(rm, "a", 3);
  run(8);
  EXPECT(!s.writes.empty());
  for (auto & w : s.writes) { EXPECT(w.period <= 20'000'000); }
  return bad;
}
'''),
'C21-ghost-references': dict(
  property='C21', needs='a controller is configured a second time and exports other references than before',
  breaks='The list of the names of the exported references keeps those of the first configuration.',
  edits=[('controller_interface/src/chainable_controller_interface.cpp',
   '''  exported_reference_interfaces_.clear();
  exported_reference_interface_names_.clear();
  ordered_exported_reference_interfaces_.clear();

#pragma''',
   '''  exported_reference_interfaces_.clear();
  ordered_exported_reference_interfaces_.clear();

#pragma''')],
  src=T.CI + T.HI + T.JL,
  demo=EXPECT + r'''
#include "controller_interface/chainable_controller_interface.hpp"
namespace ci = controller_interface;
using CB = ci::CallbackReturn;
struct C : ci::ChainableControllerInterface
{
  std::vector<std::string> refs;
  CB on_init() override { return CB::SUCCESS; }
  ci::InterfaceConfiguration command_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  ci::InterfaceConfiguration state_interface_configuration() const override { return {ci::interface_configuration_type::NONE, {}}; }
  std::vector<hardware_interface::CommandInterface::SharedPtr> on_export_reference_interfaces_list() override
  {
    std::vector<hardware_interface::CommandInterface::SharedPtr> v;
    for (auto & n : refs) v.push_back(std::make_shared<hardware_interface::CommandInterface>("c", n));
    return v;
  }
  ci::return_type update_reference_from_subscribers(const rclcpp::Time &, const rclcpp::Duration &) override { return ci::return_type::OK; }
  ci::return_type update_and_write_commands(const rclcpp::Time &, const rclcpp::Duration &) override { return ci::return_type::OK; }
};
int main()
{
  C c;
  ci::ControllerInterfaceParams p;
  p.controller_name = "c";
  p.update_rate = p.controller_manager_update_rate = 100;
  EXPECT(c.init(p) == ci::return_type::OK);
  for (auto refs : {std::vector<std::string>{"a", "b"}, std::vector<std::string>{"b", "d"}})
  {
    c.refs = refs;
    try
    {
      auto v = c.export_reference_interfaces();
      EXPECT(v.size() == refs.size());
      for (size_t i = 0; i < v.size() && i < refs.size(); ++i) { EXPECT(v[i]->get_name() == "c/" + refs[i]); }
    }
    catch (const std::exception & e)
    {
      printf("%s\n", e.what());
      bad = 1;
    }
  }
  return bad;
}
'''),
'C31-group-timeouts-swapped': dict(
  property='C31', needs='controllers activated as a group with a switch timeout other than that of the service calls',
  breaks='The request to switch the group carries the time-out of the service calls instead of the given one.',
  edits=[('controller_manager/controller_manager/spawner.py',
   '''                controllers_to_activate,
                strictness,
                switch_asap,
                switch_timeout,
                service_call_timeout,
''',
   '''                controllers_to_activate,
                strictness,
                switch_asap,
                service_call_timeout,
                switch_timeout,
''')],
  kit=['pyfakes.py'],
  py=PYHEAD + r'''
w = F.World(dict(cm='/controller_manager'))
main = importlib.import_module('controller_manager.spawner').main
rc = F.run(main, ['spawner', 'a', 'b', '--activate-as-group', '--switch-timeout', '3.0', '--service-call-timeout', '7.0'], w)
switches = [x for x in w.log if x[0] == 'switch']
print(rc, switches)
sys.exit(not (rc == 0 and len(switches) == 1 and sorted(switches[0][1]) == ['a', 'b'] and switches[0][5] == 3 * 10**9))
'''),
'C32-root-namespace-key': dict(
  property='C32', needs='a spawner in the root namespace and a parameter file whose key is the full name of the controller',
  breaks='The section "/name" of a parameter file is not found in the root namespace.',
  edits=[('controller_manager/controller_manager/controller_manager_services.py',
   '''        with open(parameter_file) as f:
            namespaced_controller = (
                f"/{controller_name}" if namespace == "/" else f"{namespace}/{controller_name}"
            )
            WILDCARD_KEY = "/**"
            ROS_PARAMS_KEY = "ros__parameters"
            parameters = load_parameters(f)
            # check for the parameter in''',
   '''        with open(parameter_file) as f:
            namespaced_controller = f"{namespace}/{controller_name}"
            WILDCARD_KEY = "/**"
            ROS_PARAMS_KEY = "ros__parameters"
            parameters = load_parameters(f)
            # check for the parameter in''')],
  kit=['pyfakes.py'],
  py=PYHEAD + r'''
import tempfile
w = F.World(dict(cm='/controller_manager'))
main = importlib.import_module('controller_manager.spawner').main
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'p.yaml')
    with open(f, 'w') as h:
        h.write('/a:\n  ros__parameters:\n    type: some/Type\n')
    rc = F.run(main, ['spawner', 'a', '--param-file', f], w)
print(rc, w.param)
sys.exit(not (rc == 0 and w.param.get('a.type') == 'some/Type' and w.param.get('a.params_file') == [f]))
'''),
}
