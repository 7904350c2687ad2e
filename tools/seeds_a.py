RMSRC = T.HI + T.JL
RM_HEAD = r'''
#include "hardware_interface/resource_manager.hpp"
#include "hw.hpp"
using namespace hw;
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("line %d: %s does not hold\n", __LINE__, #x); bad = 1; } } while (0)
static Comp comp(std::string name, std::string type, std::string joint, std::vector<std::string> cmds, std::vector<std::string> states)
{
  Comp k;
  k.name = name; k.type = type; k.plugin = plugin_of(type);
  Part p; p.kind = type == "sensor" ? "sensor" : "joint"; p.name = joint; p.states = states;
  for (auto & c : cmds) p.cmds.push_back({c, "", "", true});
  k.parts.push_back(p);
  return k;
}
static std::unique_ptr<ResourceManager> load(Robot & r, int rate = 100)
{
  shim::fake_clock().enabled = true;
  shim::fake_clock().now_ns = 1'000'000'000;
  register_plugins();
  for (auto & k : r.comps) for (auto & p : k.parts) if (p.kind == "joint") r.joints.push_back({p.name, "continuous", "", ""});
  ResourceManagerParams p;
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  p.logger = rclcpp::get_logger("rm");
  p.update_rate = rate;
  p.robot_description = r.xml();
  return std::make_unique<ResourceManager>(p, true);
}
static void go(ResourceManager & rm, const std::string & n, int id) { rclcpp_lifecycle::State s(id, label(id)); rm.set_component_state(n, s); }
static const rclcpp::Duration dt(0, 10'000'000);
static HardwareReadWriteStatus rd(ResourceManager & rm) { return rm.read(rclcpp::Time(shim::fake_clock().now_ns, RCL_STEADY_TIME), dt); }
static HardwareReadWriteStatus wr(ResourceManager & rm) { return rm.write(rclcpp::Time(shim::fake_clock().now_ns, RCL_STEADY_TIME), dt); }
'''
KIT = ['hw.hpp', 'pbt.hpp']
SEEDS = {
'C17-fourbar-offset-scaled': dict(
  property='C17', needs='a four bar linkage whose second joint has an offset and a reduction other than 1',
  breaks='The offset of the second joint is divided by its reduction when actuator positions are mapped to joint space, so the documented formula and the round trip fail.',
  edits=[('transmission_interface/include/transmission_interface/four_bar_linkage_transmission.hpp',
   '''      (act_pos[1].get_value() / ar[1] - act_pos[0].get_value() / (jr[0] * ar[0])) / jr[1] +
      joint_offset_[1]);''',
   '''      (act_pos[1].get_value() / ar[1] - act_pos[0].get_value() / (jr[0] * ar[0]) +
       joint_offset_[1]) /
      jr[1]);''')],
  src=[],
  demo=r'''
#include <cmath>
#include <cstdio>
#include "transmission_interface/four_bar_linkage_transmission.hpp"
using namespace transmission_interface;
int main()
{
  FourBarLinkageTransmission t({2.0, 3.0}, {4.0, 5.0}, {0.5, 0.25});
  double a[2] = {1.5, -2.5}, j[2] = {0, 0};
  std::vector<JointHandle> jh;
  std::vector<ActuatorHandle> ah;
  for (int i = 0; i < 2; ++i)
  {
    jh.emplace_back("joint" + std::to_string(i + 1), "position", &j[i]);
    ah.emplace_back("act" + std::to_string(i + 1), "position", &a[i]);
  }
  t.configure(jh, ah);
  t.actuator_to_joint();
  t.joint_to_actuator();
  printf("%g %g\n", a[0], a[1]);
  return std::abs(a[0] - 1.5) < 1e-9 && std::abs(a[1] + 2.5) < 1e-9 ? 0 : 1;
}
'''),
'C07-stale-buffer-for-stateless-component': dict(
  property='C07', needs='a component without command interfaces next to one of the same kind that is concerned by the switch',
  breaks='A component that exports no command interfaces is asked to prepare and perform the switch with the interfaces of the component that was handled before it.',
  edits=[('hardware_interface/src/resource_manager.cpp',
   '''  hw_interfaces.clear();

  // decide which input vector is shorter.''',
   '''  // nothing in common with components that have no command interfaces
  if (hw_command_itfs.empty())
  {
    return;
  }
  hw_interfaces.clear();

  // decide which input vector is shorter.''')],
  src=RMSRC, kit=KIT,
  demo=RM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("a", "system", "j1", {"position"}, {"position"}), comp("b", "system", "j2", {}, {"position"})};
  auto rm = load(r);
  go(*rm, "a", ACT);
  go(*rm, "b", ACT);
  EXPECT(rm->prepare_command_mode_switch({"j1/position"}, {}));
  EXPECT(rm->perform_command_mode_switch({"j1/position"}, {}));
  auto & log = scripts()["b"].log;
  EXPECT(std::find(log.begin(), log.end(), "prepare") == log.end());
  EXPECT(std::find(log.begin(), log.end(), "perform") == log.end());
  auto & la = scripts()["a"].log;
  EXPECT(std::count(la.begin(), la.end(), "prepare") == 1);
  return bad;
}
'''),
'C01-release-needs-availability': dict(
  property='C01', needs='the hardware of a claimed interface stops being available before the loan ends',
  breaks='A loan that ends while its interface is not available is never given back; the interface stays claimed after the hardware has recovered.',
  edits=[('hardware_interface/src/resource_manager.cpp',
   '''  std::lock_guard<std::recursive_mutex> guard_claimed(claimed_command_interfaces_lock_);
  resource_storage_->claimed_command_interface_map_[key] = false;''',
   '''  std::lock_guard<std::recursive_mutex> guard_claimed(claimed_command_interfaces_lock_);
  if (!command_interface_is_available(key))
  {
    // nobody can use the interface at the moment
    return;
  }
  resource_storage_->claimed_command_interface_map_[key] = false;''')],
  src=RMSRC, kit=KIT,
  demo=RM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("a", "system", "j1", {"position"}, {"position"})};
  auto rm = load(r);
  go(*rm, "a", ACT);
  {
    auto loan = rm->claim_command_interface("j1/position");
    EXPECT(rm->command_interface_is_claimed("j1/position"));
    go(*rm, "a", UNCONF);
  }
  EXPECT(!rm->command_interface_is_claimed("j1/position"));
  go(*rm, "a", ACT);
  try { auto loan = rm->claim_command_interface("j1/position"); } catch (const std::exception & e) { printf("%s\n", e.what()); bad = 1; }
  return bad;
}
'''),
'C09-params-swallow-siblings': dict(
  property='C09', needs='a parameter of a joint followed by an element of another kind with a name and a text',
  breaks='Elements that follow a parameter are taken for parameters too, so a joint or interface gets parameters that the document does not declare (or the document is refused).',
  edits=[('hardware_interface/src/component_parser.cpp',
   '''    params_it = params_it->NextSiblingElement(kParamTag);
  }
  return parameters;''',
   '''    params_it = params_it->NextSiblingElement();
  }
  return parameters;''')],
  src=['hardware_interface/src/component_parser.cpp', 'hardware_interface/src/lexical_casts.cpp'],
  demo=r'''
#include <cstdio>
#include "hardware_interface/component_parser.hpp"
int main()
{
  const char * x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"w\"/><link name=\"l\"/><joint name=\"j1\" type=\"continuous\"><parent link=\"w\"/><child link=\"l\"/></joint>"
    "<ros2_control name=\"a\" type=\"system\"><hardware><plugin>p</plugin></hardware><joint name=\"j1\"><param name=\"gain\">3</param>"
    "<command_interface name=\"position\"><param name=\"min\">-1</param></command_interface><note name=\"hint\">text</note><state_interface name=\"position\"/></joint></ros2_control></robot>";
  try
  {
    auto v = hardware_interface::parse_control_resources_from_urdf(x);
    auto & p = v.at(0).joints.at(0).parameters;
    for (auto & [k, t] : p) printf("%s=%s\n", k.c_str(), t.c_str());
    return p.size() == 1 && p.at("gain") == "3" ? 0 : 1;
  }
  catch (const std::exception & e)
  {
    printf("refused: %s\n", e.what());
    return 1;
  }
}
'''),
'C03-shutdown-when-finalized': dict(
  property='C03', needs='a second shutdown request, after the component has been finalized',
  breaks='The shutdown callback runs again in the finalized state, and an error it reports can bring the component back from there.',
  edits=[('hardware_interface/src/hardware_component.cpp',
   '''    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN &&
    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_FINALIZED)
  {
    impl_->pause_async_operations();
    switch (impl_->on_shutdown(impl_->get_lifecycle_state()))''',
   '''    impl_->get_lifecycle_id() != lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN)
  {
    impl_->pause_async_operations();
    switch (impl_->on_shutdown(impl_->get_lifecycle_state()))''')],
  src=[x for x in T.HI if 'resource_manager' not in x],
  demo=r'''
#include <cstdio>
#include "hardware_interface/actuator.hpp"
#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/hardware_component.hpp"
using namespace hardware_interface;
static int calls = 0;
struct A : ActuatorInterface
{
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return ++calls == 1 ? CallbackReturn::SUCCESS : CallbackReturn::ERROR; }
  return_type read(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
  return_type write(const rclcpp::Time &, const rclcpp::Duration &) override { return return_type::OK; }
};
int main()
{
  HardwareComponent a(std::make_unique<A>());
  HardwareComponentParams p;
  p.hardware_info.name = "a";
  p.hardware_info.type = "actuator";
  p.logger = rclcpp::get_logger("a");
  p.clock = std::make_shared<rclcpp::Clock>(RCL_STEADY_TIME);
  a.initialize(p);
  a.configure();
  a.shutdown();
  int id = a.get_lifecycle_id();
  a.shutdown();
  printf("%d calls, state %d then %d\n", calls, id, a.get_lifecycle_id());
  return calls == 1 && id == a.get_lifecycle_id() ? 0 : 1;
}
'''),
}
