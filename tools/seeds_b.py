RMSRC = T.HI + T.JL
CMSRC = T.HI + T.JL + T.CI + T.CM
CMKIT = ['hw.hpp', 'pbt.hpp', 'cm.hpp']
CM_HEAD = r'''
#include "cm.hpp"
using namespace cmt;
static int bad = 0;
#define EXPECT(x) do { if (!(x)) { printf("line %d: %s does not hold\n", __LINE__, #x); bad = 1; } } while (0)
static int64_t now_ns = 1'000'000'000'000;
static std::unique_ptr<Cm> cm;
static Comp comp(std::string name, std::string type, std::string joint, std::vector<std::string> cmds, std::vector<std::string> states)
{
  Comp k;
  k.name = name; k.type = type; k.plugin = plugin_of(type);
  Part p; p.kind = type == "sensor" ? "sensor" : "joint"; p.name = joint; p.states = states;
  for (auto & c : cmds) p.cmds.push_back({c, "", "", true});
  k.parts.push_back(p);
  return k;
}
static Ctl & ctl(std::string name, std::vector<std::string> cmd, std::vector<std::string> st, std::vector<std::string> refs = {}, int rate = -1)
{
  auto & k = ctls()[name];
  k.name = name; k.cmd = cmd; k.st = st; k.refs = refs; k.chain = !refs.empty(); k.rate = rate;
  return k;
}
static void tick(int64_t dt = TICK)
{
  now_ns += dt;
  shim::fake_clock().now_ns = now_ns;
  rclcpp::Time t = cm->get_trigger_clock()->now();
  auto d = rclcpp::Duration(std::chrono::nanoseconds(dt));
  cm->read(t, d);
  cm->update(t, d);
  cm->write(t, d);
}
static void boot(Robot & r)
{
  shim::fake_clock().enabled = true;
  shim::fake_clock().now_ns = now_ns;
  register_plugins();
  register_controllers();
  for (auto & k : r.comps) for (auto & p : k.parts) if (p.kind == "joint") r.joints.push_back({p.name, "continuous", "", ""});
  auto no = controller_manager::get_cm_node_options();
  std::vector<rclcpp::Parameter> ps{rclcpp::Parameter("update_rate", CM_RATE)};
  for (auto & [n, k] : ctls())
  {
    ps.emplace_back(n + ".type", k.type());
    if (!k.fallbacks.empty()) ps.emplace_back(n + ".fallback_controllers", k.fallbacks);
  }
  no.parameter_overrides(ps);
  cm = std::make_unique<Cm>(std::make_shared<rclcpp::executors::SingleThreadedExecutor>(), r.xml(), true, "cm", "", no);
}
// a request beside running cycles
template <class F>
static void beside(F f)
{
  std::atomic<bool> done{false};
  std::thread t([&] { f(); done = true; });
  while (!done) { std::this_thread::sleep_for(std::chrono::microseconds(300)); if (!done) tick(); }
  t.join();
}
static bool configure(std::string n)
{
  bool ok = false;
  beside([&] { cm->load_controller(n); ok = cm->configure_controller(n) == CR::OK; });
  return ok;
}
static bool sw(std::vector<std::string> a, std::vector<std::string> d, int strictness = SW::STRICT)
{
  bool ok = false;
  beside([&] { ok = cm->switch_controller(a, d, strictness, true, rclcpp::Duration(10, 0)) == CR::OK; });
  return ok;
}
static int state(std::string n)
{
  for (auto & x : cm->get_loaded_controllers()) if (x.info.name == n) return x.c->get_lifecycle_state().id();
  return -1;
}
'''
SEEDS = {
'C24-period-across-restart': dict(
  property='C24', needs='a controller with an own rate is deactivated, cycles pass, and it is activated again',
  breaks='The time of the last update of the previous activation is kept, so that the first update after a restart gets the time since then as its period.',
  edits=[('controller_manager/src/controller_manager.cpp',
   '''    // reset the last update cycle time for newly activated controllers
    *found_it->last_update_cycle_time =
      rclcpp::Time(0, 0, this->get_trigger_clock()->get_clock_type());

''', '')],
  src=CMSRC, kit=CMKIT,
  demo=CM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("hw", "system", "j", {"position"}, {"position"})};
  auto & a = ctl("a", {"j/position"}, {}, {}, 50);
  boot(r);
  EXPECT(configure("a"));
  EXPECT(sw({"a"}, {}));
  for (int i = 0; i < 6; ++i) tick();
  EXPECT(sw({}, {"a"}));
  for (int i = 0; i < 20; ++i) tick();
  EXPECT(sw({"a"}, {}));
  size_t n = a.upds_at_activation;
  tick();
  tick();
  EXPECT(a.upds.size() > n);
  if (!bad) printf("first period after the restart: %lld\n", (long long)a.upds[n].period);
  EXPECT(!bad && a.upds[n].period == 20'000'000);
  cm.reset();
  return bad;
}
'''),
'C23-unchained-references-stay': dict(
  property='C23', needs='a chainable controller that is active without being in chained mode is deactivated',
  breaks='Its exported interfaces stay available although it is not active.',
  edits=[('controller_manager/src/controller_manager.cpp',
   '''        if (controller->is_chainable())
        {
          controller->set_chained_mode(false);
          resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);''',
   '''        if (controller->is_chainable() && controller->is_in_chained_mode())
        {
          controller->set_chained_mode(false);
          resource_manager_->make_controller_exported_state_interfaces_unavailable(controller_name);''')],
  src=CMSRC, kit=CMKIT,
  demo=CM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("hw", "system", "j", {"position"}, {"position"})};
  ctl("low", {"j/position"}, {}, {"ref"});
  auto & other = ctl("other", {"j/position"}, {});
  (void)other;
  boot(r);
  EXPECT(configure("low"));
  EXPECT(sw({"low"}, {}));
  EXPECT(cm->rm().command_interface_is_available("low/ref"));
  tick();
  // it stops by itself, so that no request tidies up behind it
  ctls()["low"].upd = U_ERROR;
  tick();
  EXPECT(state("low") == INACT);
  EXPECT(!cm->rm().command_interface_is_available("low/ref"));
  cm.reset();
  return bad;
}
'''),
'C25-first-error-only': dict(
  property='C25', needs='two controllers that do not depend on each other fail in the same cycle',
  breaks='Only the controllers connected to the one that fails first are stopped; the other one stays active after its error.',
  edits=[('controller_manager/src/controller_manager.cpp',
   '''        if (controller_ret != controller_interface::return_type::OK)
        {
          const std::vector<std::string> & controller_chain =''',
   '''        if (
          ret == controller_interface::return_type::OK &&
          controller_ret != controller_interface::return_type::OK)
        {
          const std::vector<std::string> & controller_chain =''')],
  src=CMSRC, kit=CMKIT,
  demo=CM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("hw", "system", "j", {"position", "velocity"}, {"position"})};
  ctl("a", {"j/position"}, {});
  ctl("b", {"j/velocity"}, {});
  boot(r);
  EXPECT(configure("a"));
  EXPECT(configure("b"));
  EXPECT(sw({"a", "b"}, {}));
  tick();
  ctls()["a"].upd = ctls()["b"].upd = U_ERROR;
  tick();
  ctls()["a"].upd = ctls()["b"].upd = U_OK;
  EXPECT(state("a") == INACT);
  EXPECT(state("b") == INACT);
  cm.reset();
  return bad;
}
'''),
'C22-failed-activation-unnoticed': dict(
  property='C22', needs='a strict switch of several controllers in which one activation callback fails',
  breaks='The other controllers of the abandoned switch stay active and the request is reported as fulfilled only by its own final check.',
  edits=[('controller_manager/src/controller_manager.cpp',
   '''      is_successful = false;
      controller->release_interfaces();
      ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);''',
   '''      controller->release_interfaces();
      ros2_control::add_items(failed_controllers_command_interfaces, command_interface_names);''')],
  src=CMSRC, kit=CMKIT,
  demo=CM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("hw", "system", "j", {"position", "velocity", "effort"}, {"position"})};
  ctl("a", {"j/position"}, {});
  ctl("b", {"j/velocity"}, {});
  ctl("c", {"j/effort"}, {});
  boot(r);
  for (auto n : {"a", "b", "c"}) EXPECT(configure(n));
  ctls()["c"].s.activate = FAIL;
  EXPECT(!sw({"a", "b", "c"}, {}));
  for (auto n : {"a", "b", "c"}) EXPECT(state(n) == INACT);
  EXPECT(!cm->rm().command_interface_is_claimed("j/position"));
  cm.reset();
  return bad;
}
'''),
'C26-first-component-only': dict(
  property='C26', needs='a controller that uses interfaces of two components, and the second of them fails',
  breaks='The controller is only linked to the first component it uses and goes on when the other one fails.',
  edits=[('hardware_interface/src/resource_manager.cpp',
   '''        resource_storage_->hardware_used_by_controllers_[hw_name] = controllers;
        break;
''',
   '''        resource_storage_->hardware_used_by_controllers_[hw_name] = controllers;
        return;
''')],
  src=CMSRC, kit=CMKIT,
  demo=CM_HEAD + r'''
int main()
{
  Robot r;
  r.comps = {comp("hw", "system", "j", {"position"}, {"position"}), comp("imu", "sensor", "s", {}, {"rate"})};
  ctl("a", {"j/position"}, {"s/rate"});
  boot(r);
  EXPECT(configure("a"));
  EXPECT(sw({"a"}, {}));
  tick();
  bool stopped[2];
  int i = 0;
  for (std::string hw : {"hw", "imu"})
  {
    EXPECT(state("a") == ACT);
    scripts()[hw].read = IO_ERROR;
    tick();
    scripts()[hw].read = IO_OK;
    stopped[i++] = state("a") == INACT;
    EXPECT(stopped[i - 1]);
    if (bad) break;
    rclcpp_lifecycle::State active(lifecycle_msgs::msg::State::PRIMARY_STATE_ACTIVE, "active");
    beside([&] { EXPECT(cm->rm().set_component_state(hw, active) == hardware_interface::return_type::OK); });
    EXPECT(sw({"a"}, {}));
    tick();
  }
  cm.reset();
  return bad;
}
'''),
}
