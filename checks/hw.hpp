// Scripted hardware components, loaded by the resource manager as plugins, and generated robot
// descriptions that use them.  Shared by the resource manager and controller manager checks.
#pragma once
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>

#include "hardware_interface/actuator_interface.hpp"
#include "hardware_interface/sensor_interface.hpp"
#include "hardware_interface/system_interface.hpp"
#include "lifecycle_msgs/msg/state.hpp"
#include "pbt.hpp"
#include "pluginlib/class_loader.hpp"

namespace hw
{
using namespace hardware_interface;
using pbt::Case;
using pbt::strf;
using LS = lifecycle_msgs::msg::State;
constexpr int UNCONF = LS::PRIMARY_STATE_UNCONFIGURED, INACT = LS::PRIMARY_STATE_INACTIVE, ACT = LS::PRIMARY_STATE_ACTIVE,
              FIN = LS::PRIMARY_STATE_FINALIZED;

enum Out { OK, FAIL, ERR, THROW };
inline const char * out_name(int o)
{
  static const char * n[] = {"success", "failure", "error", "exception"};
  return n[o];
}
enum Io { IO_OK, IO_ERROR, IO_DEACTIVATE, IO_THROW };
inline const char * io_name(int o)
{
  static const char * n[] = {"ok", "error", "deactivate", "exception"};
  return n[o];
}
inline const char * label(int id)
{
  switch (id)
  {
    case LS::PRIMARY_STATE_UNKNOWN: return "unknown";
    case UNCONF: return "unconfigured";
    case INACT: return "inactive";
    case ACT: return "active";
    case FIN: return "finalized";
    default: return "?";
  }
}
struct Boom : std::runtime_error
{
  Boom() : std::runtime_error("boom") {}
};

struct IoCall
{
  int64_t t, period;
};
// what a component is to do, and what it was asked to do; outlives the component
struct Script
{
  Out init = OK, configure = OK, activate = OK, deactivate = OK, cleanup = OK, shutdown = OK, error = OK;
  Io read = IO_OK, write = IO_OK, prepare = IO_OK, perform = IO_OK;
  bool legacy = false;        // hands out its interfaces the old way
  bool export_throws = false, drop_export = false, ctor_throws = false;
  std::vector<std::string> log;  // callbacks in order
  std::vector<IoCall> reads, writes;
  std::vector<std::string> prep_start, prep_stop, perf_start, perf_stop;
  std::map<std::string, double> state_out;   // written into the state interfaces at read
  std::map<std::string, double> cmd_seen;    // the commands at the last write
  std::map<std::string, double> cmd_out;     // written into the command interfaces at read
  std::function<void()> on_write, on_read;
  int alive = 0, state_at_last_io = 0;
  // the callbacks of one component may come from the cycles and from a request
  static std::mutex & mutex()
  {
    static std::mutex m;
    return m;
  }
  void logged(const char * n)
  {
    std::lock_guard<std::mutex> g(mutex());
    log.push_back(n);
  }
  void logged(const char * n, std::vector<std::string> & to_a, const std::vector<std::string> & a, std::vector<std::string> & to_b, const std::vector<std::string> & b)
  {
    std::lock_guard<std::mutex> g(mutex());
    log.push_back(n);
    to_a = a;
    to_b = b;
  }
  void clear()
  {
    log.clear();
    reads.clear();
    writes.clear();
    prep_start.clear();
    prep_stop.clear();
    perf_start.clear();
    perf_stop.clear();
  }
};
inline std::map<std::string, Script> & scripts()
{
  static std::map<std::string, Script> s;
  return s;
}

template <class Base>
struct Hw : Base
{
  Script * s = nullptr;
  std::map<std::string, double> legacy_cmd, legacy_state;
  ~Hw() override
  {
    if (s) --s->alive;
  }
  CallbackReturn ret(const char * n, Out o)
  {
    s->logged(n);
    switch (o)
    {
      case OK: return CallbackReturn::SUCCESS;
      case FAIL: return CallbackReturn::FAILURE;
      case ERR: return CallbackReturn::ERROR;
      default: throw Boom();
    }
  }
  CallbackReturn on_init(const HardwareComponentInterfaceParams & p) override
  {
    s = &scripts()[p.hardware_info.name];
    ++s->alive;
    Base::on_init(p);
    return ret("on_init", s->init);
  }
  CallbackReturn on_configure(const rclcpp_lifecycle::State &) override { return ret("on_configure", s->configure); }
  CallbackReturn on_cleanup(const rclcpp_lifecycle::State &) override { return ret("on_cleanup", s->cleanup); }
  CallbackReturn on_shutdown(const rclcpp_lifecycle::State &) override { return ret("on_shutdown", s->shutdown); }
  CallbackReturn on_activate(const rclcpp_lifecycle::State &) override { return ret("on_activate", s->activate); }
  CallbackReturn on_deactivate(const rclcpp_lifecycle::State &) override { return ret("on_deactivate", s->deactivate); }
  CallbackReturn on_error(const rclcpp_lifecycle::State &) override { return ret("on_error", s->error); }
  static return_type io(Io o)
  {
    switch (o)
    {
      case IO_OK: return return_type::OK;
      case IO_ERROR: return return_type::ERROR;
      case IO_DEACTIVATE: return return_type::DEACTIVATE;
      default: throw Boom();
    }
  }
  std::vector<std::string> names(const std::vector<ComponentInfo> & v, bool cmd) const
  {
    std::vector<std::string> r;
    for (auto & j : v)
      for (auto & i : cmd ? j.command_interfaces : j.state_interfaces) r.push_back(j.name + "/" + i.name);
    return r;
  }
  std::vector<std::string> cmd_names() const
  {
    auto r = names(this->info_.joints, true);
    for (auto & n : names(this->info_.gpios, true)) r.push_back(n);
    return r;
  }
  std::vector<std::string> state_names() const
  {
    auto r = names(this->info_.joints, false);
    for (auto & n : names(this->info_.gpios, false)) r.push_back(n);
    for (auto & n : names(this->info_.sensors, false)) r.push_back(n);
    return r;
  }
  std::vector<StateInterface> export_state_interfaces() override
  {
    std::vector<StateInterface> v;
    if (!s->legacy) return v;
    for (auto & n : state_names())
    {
      auto p = n.find('/');
      v.emplace_back(n.substr(0, p), n.substr(p + 1), &(legacy_state[n] = 0));
    }
    return v;
  }
  std::vector<StateInterface::ConstSharedPtr> on_export_state_interfaces() override
  {
    if (s->export_throws) throw Boom();
    auto v = Base::on_export_state_interfaces();
    if (s->drop_export && !v.empty()) v.pop_back();
    return v;
  }
  return_type read(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    s->logged("read");
    s->reads.push_back({t.nanoseconds(), d.nanoseconds()});
    s->state_at_last_io = this->get_lifecycle_state().id();
    if (s->on_read) s->on_read();
    if (s->read == IO_OK)
      for (auto & [n, v] : s->state_out)
      {
        if (s->legacy) legacy_state[n] = v;
        else this->set_state(n, v);
      }
    return io(s->read);
  }
  return_type prepare_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    s->logged("prepare", s->prep_start, a, s->prep_stop, b);
    return io(s->prepare);
  }
  return_type perform_command_mode_switch(const std::vector<std::string> & a, const std::vector<std::string> & b) override
  {
    s->logged("perform", s->perf_start, a, s->perf_stop, b);
    return io(s->perform);
  }
};
template <class Base>
struct HwCmd : Hw<Base>
{
  using H = Hw<Base>;
  std::vector<CommandInterface> export_command_interfaces() override
  {
    std::vector<CommandInterface> v;
    if (!H::s->legacy) return v;
    for (auto & n : H::cmd_names())
    {
      auto p = n.find('/');
      v.emplace_back(n.substr(0, p), n.substr(p + 1), &(H::legacy_cmd[n] = std::numeric_limits<double>::quiet_NaN()));
    }
    return v;
  }
  std::vector<CommandInterface::SharedPtr> on_export_command_interfaces() override
  {
    if (H::s->export_throws) throw Boom();
    auto v = Base::on_export_command_interfaces();
    if (H::s->drop_export && !v.empty()) v.pop_back();
    return v;
  }
  return_type read(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    auto r = H::read(t, d);
    for (auto & [n, v] : H::s->cmd_out)
    {
      if (H::s->legacy) H::legacy_cmd[n] = v;
      else this->set_command(n, v);
    }
    return r;
  }
  return_type write(const rclcpp::Time & t, const rclcpp::Duration & d) override
  {
    Script * s = H::s;
    s->logged("write");
    s->writes.push_back({t.nanoseconds(), d.nanoseconds()});
    s->state_at_last_io = this->get_lifecycle_state().id();
    s->cmd_seen.clear();
    for (auto & n : H::cmd_names()) s->cmd_seen[n] = s->legacy ? H::legacy_cmd[n] : this->template get_command<double>(n);
    if (s->on_write) s->on_write();
    return H::io(s->write);
  }
};
inline void register_plugins()
{
  pluginlib::registry<ActuatorInterface>()["check/Actuator"] = [] { return new HwCmd<ActuatorInterface>(); };
  pluginlib::registry<SensorInterface>()["check/Sensor"] = [] { return new Hw<SensorInterface>(); };
  pluginlib::registry<SystemInterface>()["check/System"] = [] { return new HwCmd<SystemInterface>(); };
  pluginlib::registry<ActuatorInterface>()["check/Broken"] = []() -> ActuatorInterface * { throw Boom(); };
  pluginlib::registry<SensorInterface>()["check/Broken"] = []() -> SensorInterface * { throw Boom(); };
  pluginlib::registry<SystemInterface>()["check/Broken"] = []() -> SystemInterface * { throw Boom(); };
}

// ---------------------------------------------------------------- descriptions
struct Itf
{
  std::string name, min, max;  // texts, empty: not given
  bool limits = true;          // <limits enable=...>
};
struct Part  // joint, sensor or gpio
{
  std::string kind, name;
  std::vector<Itf> cmds;
  std::vector<std::string> states;
  bool limits = true;
};
struct Comp
{
  std::string name, type, group, plugin;
  int rate = 0;  // 0: not given
  std::vector<Part> parts;
  bool is_async = false;
  std::string async_props;
  std::vector<std::string> cmds() const
  {
    std::vector<std::string> r;
    for (auto & p : parts)
      for (auto & i : p.cmds) r.push_back(p.name + "/" + i.name);
    return r;
  }
  std::vector<std::string> states() const
  {
    std::vector<std::string> r;
    for (auto & p : parts)
      for (auto & i : p.states) r.push_back(p.name + "/" + i);
    return r;
  }
};
struct UrdfJoint
{
  std::string name, type = "continuous", limit, safety;
};
struct Robot
{
  std::vector<UrdfJoint> joints;
  std::vector<Comp> comps;
  std::string xml() const
  {
    std::string x = "<?xml version=\"1.0\"?><robot name=\"r\"><link name=\"world\"/>";
    for (auto & j : joints)
      x += "<link name=\"l_" + j.name + "\"/><joint name=\"" + j.name + "\" type=\"" + j.type + "\"><parent link=\"world\"/><child link=\"l_" +
           j.name + "\"/>" + j.limit + j.safety + "</joint>";
    for (auto & c : comps)
    {
      x += "<ros2_control name=\"" + c.name + "\" type=\"" + c.type + "\"";
      if (c.rate) x += strf(" rw_rate=\"%d\"", c.rate);
      if (c.is_async) x += " is_async=\"true\"";
      x += "><hardware><plugin>" + c.plugin + "</plugin>";
      if (!c.group.empty()) x += "<group>" + c.group + "</group>";
      x += "</hardware>";
      if (c.is_async && !c.async_props.empty()) x += "<properties><async " + c.async_props + "/></properties>";
      for (auto & p : c.parts)
      {
        x += "<" + p.kind + " name=\"" + p.name + "\">";
        if (!p.limits) x += "<limits enable=\"false\"/>";
        for (auto & i : p.cmds)
        {
          x += "<command_interface name=\"" + i.name + "\">";
          if (!i.min.empty()) x += "<param name=\"min\">" + i.min + "</param>";
          if (!i.max.empty()) x += "<param name=\"max\">" + i.max + "</param>";
          if (!i.limits) x += "<limits enable=\"false\"/>";
          x += "</command_interface>";
        }
        for (auto & s : p.states) x += "<state_interface name=\"" + s + "\"/>";
        x += "</" + p.kind + ">";
      }
      x += "</ros2_control>";
    }
    return x + "</robot>";
  }
};
inline const char * plugin_of(const std::string & type) { return type == "actuator" ? "check/Actuator" : type == "sensor" ? "check/Sensor" : "check/System"; }

inline std::vector<std::string> some(Case & c, const std::vector<std::string> & all, bool at_least_one)
{
  std::vector<std::string> r;
  for (auto & a : all)
    if (c.coin()) r.push_back(a);
  if (r.empty() && at_least_one) r.push_back(c.pick(all));
  return r;
}
inline Robot gen_robot(Case & c, int max_comps, bool groups, int cm_rate)
{
  Robot r;
  int n = 1 + static_cast<int>(c.below(max_comps)), joint = 0;
  for (int i = 0; i < n; ++i)
  {
    Comp k;
    k.type = c.pick<std::string>({"system", "actuator", "sensor"});
    k.name = strf("hw%d", i);
    k.plugin = plugin_of(k.type);
    if (groups) k.group = c.pick<std::string>({"", "g1", "g2"});
    if (cm_rate && c.chance(25)) k.rate = c.range(1, cm_rate + 5);
    int np = k.type == "actuator" ? 1 : 1 + static_cast<int>(c.below(2));
    for (int p = 0; p < np; ++p)
    {
      Part q;
      q.kind = k.type == "sensor" ? "sensor" : k.type == "actuator" ? "joint" : c.pick<std::string>({"joint", "gpio", "joint"});
      q.name = strf("%s%d", q.kind == "joint" ? "j" : q.kind == "gpio" ? "io" : "s", joint++);
      if (k.type != "sensor")
        for (auto & x : some(c, {"position", "velocity", "effort"}, !c.chance(15))) q.cmds.push_back({x, "", "", true});
      q.states = some(c, {"position", "velocity", "temperature"}, true);
      if (q.kind == "joint") r.joints.push_back({q.name, "continuous", "", ""});
      k.parts.push_back(q);
    }
    r.comps.push_back(k);
  }
  return r;
}

// ---------------------------------------------------------------- the managed life cycle
// runs one callback from the given state; returns the new state and adds the callbacks that run
struct Life
{
  const Script & s;
  std::vector<std::string> calls;
  int error(int from)
  {
    if (from == INACT || from == ACT || from == UNCONF) calls.push_back("on_error");
    return s.error == OK ? UNCONF : FIN;
  }
  int step(int from, const char * cb, Out o, int ok, int fail)
  {
    calls.push_back(cb);
    if (o == THROW) return from;
    if (o == OK) return ok;
    if (o == FAIL && fail >= 0) return fail;
    return error(from);
  }
  int configure(int f) { return step(f, "on_configure", s.configure, INACT, UNCONF); }
  int cleanup(int f) { return step(f, "on_cleanup", s.cleanup, UNCONF, -1); }
  int shutdown(int f) { return step(f, "on_shutdown", s.shutdown, FIN, -1); }
  int activate(int f) { return step(f, "on_activate", s.activate, ACT, INACT); }
  int deactivate(int f) { return step(f, "on_deactivate", s.deactivate, INACT, ACT); }
  // a request to bring the component to the target; returns the state it ends in
  int request(int f, int target)
  {
    if (f == target || f == FIN) return f;
    if (target == UNCONF)
    {
      if (f == ACT && (f = deactivate(f)) != INACT) return f;
      return cleanup(f);
    }
    if (target == INACT) return f == ACT ? deactivate(f) : configure(f);
    if (target == ACT)
    {
      if (f == UNCONF && (f = configure(f)) != INACT) return f;
      return activate(f);
    }
    if (f == ACT && (f = deactivate(f)) != INACT) return f;
    return shutdown(f);
  }
};
}  // namespace hw
