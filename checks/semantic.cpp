// C20: semantic components and the ordering of interfaces: generated kinds, subsets and orders of offered
// interfaces, histories of values, busy interfaces, binding and releasing, compared with a table of fields.
#include <cassert>
#include <cmath>
#include <limits>
#include <set>

#include "controller_interface/helpers.hpp"
#include "pbt.hpp"
#include "semantic_components/force_torque_sensor.hpp"
#include "semantic_components/gps_sensor.hpp"
#include "semantic_components/imu_sensor.hpp"
#include "semantic_components/led_rgb_device.hpp"
#include "semantic_components/magnetic_field_sensor.hpp"
#include "semantic_components/pose_sensor.hpp"
#include "semantic_components/range_sensor.hpp"
using namespace pbt;
using namespace hardware_interface;
namespace sc = semantic_components;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
using V = std::vector<double>;

// one component under test, whatever its kind
struct Dev
{
  std::string kind;
  std::vector<std::string> names;              // documented names of the interfaces, in the order of get_values
  std::vector<int> field;                      // the field each of them is bound to
  V known;                                     // fields as far as they are known to the component
  bool floats = false;
  bool fresh_only = false;                     // nothing is remembered: a busy interface gives `unknown`
  std::function<std::vector<std::string>()> get_names;
  std::function<bool(std::vector<LoanedStateInterface> &)> assign;
  std::function<void()> release;
  std::function<bool(V &)> values;
  std::function<V()> getters;                  // the fields as reported by the getters
  std::vector<std::pair<size_t, std::function<V()>>> parts;  // single getters and the first field of each
  std::function<bool(V & fields, bool & others_untouched)> message;
  std::shared_ptr<void> owner;
};
template <class C>
static void common(Dev & d, std::shared_ptr<C> s)
{
  d.owner = s;
  d.get_names = [s] { return s->get_state_interface_names(); };
  d.assign = [s](auto & v) { return s->assign_loaned_state_interfaces(v); };
  d.release = [s] { s->release_interfaces(); };
  d.values = [s](V & v) { return s->get_values(v); };
}
static void add(V & v, const auto & a) { v.insert(v.end(), a.begin(), a.end()); }
static void force_torque(Dev & d, sc::ForceTorqueSensor * p)
{
  d.getters = [p] { V v; add(v, p->get_forces()); add(v, p->get_torques()); return v; };
  d.parts = {{0, [p] { V v; add(v, p->get_forces()); return v; }}, {3, [p] { V v; add(v, p->get_torques()); return v; }}};
  d.message = [p](V & v, bool & ok)
  {
    geometry_msgs::msg::Wrench m;
    bool r = p->get_values_as_message(m);
    v = {m.force.x, m.force.y, m.force.z, m.torque.x, m.torque.y, m.torque.z};
    ok = true;
    return r;
  };
}
static void fill(std_msgs::msg::Header & h) { h.frame_id = "frame", h.stamp.sec = 17, h.stamp.nanosec = 23; }
static bool kept(const std_msgs::msg::Header & h) { return h.frame_id == "frame" && h.stamp.sec == 17 && h.stamp.nanosec == 23; }
static std::array<double, 9> marks() { return {1.5, 2, 3, 4, 5, 6, 7, 8, 9}; }

static Dev make(Case & c)
{
  Dev d;
  std::string n = c.pick<std::string>({"s", "sensor", "arm/sensor"});
  auto named = [&](std::initializer_list<const char *> l)
  {
    for (auto x : l) d.field.push_back(static_cast<int>(d.names.size())), d.names.push_back(n + "/" + x);
  };
  switch (c.below(9))
  {
    case 0:
    {
      d.kind = "force torque sensor";
      named({"force.x", "force.y", "force.z", "torque.x", "torque.y", "torque.z"});
      d.known = V(6, NaN);
      auto s = std::make_shared<sc::ForceTorqueSensor>(n);
      common(d, s);
      force_torque(d, s.get());
      break;
    }
    case 1:
    {
      d.kind = "custom force torque sensor";
      std::array<std::string, 6> a;
      std::vector<std::string> pool = {"s/fx", "s/fy", "s/fz", "s/tx", "s/ty", "s/tz", "other/force.x", "s/force", "a/b/c"};
      c.shuffle(pool);
      for (int i = 0; i < 6; ++i)
        if (c.chance(65) || (i == 5 && d.names.empty()))
        {
          a[i] = pool[i];
          d.names.push_back(a[i]);
          d.field.push_back(i);
        }
      d.known = V(6, NaN);
      auto s = std::make_shared<sc::ForceTorqueSensor>(a[0], a[1], a[2], a[3], a[4], a[5]);
      common(d, s);
      force_torque(d, s.get());
      break;
    }
    case 2:
    {
      d.kind = "IMU";
      named({"orientation.x", "orientation.y", "orientation.z", "orientation.w", "angular_velocity.x", "angular_velocity.y",
        "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z"});
      d.known = {0, 0, 0, 1, 0, 0, 0, 0, 0, 0};
      auto s = std::make_shared<sc::IMUSensor>(n);
      common(d, s);
      auto p = s.get();
      d.getters = [p] { V v; add(v, p->get_orientation()); add(v, p->get_angular_velocity()); add(v, p->get_linear_acceleration()); return v; };
      d.parts = {{0, [p] { V v; add(v, p->get_orientation()); return v; }}, {4, [p] { V v; add(v, p->get_angular_velocity()); return v; }}, {7, [p] { V v; add(v, p->get_linear_acceleration()); return v; }}};
      d.message = [p](V & v, bool & ok)
      {
        sensor_msgs::msg::Imu m;
        fill(m.header);
        m.orientation_covariance = m.angular_velocity_covariance = m.linear_acceleration_covariance = marks();
        bool r = p->get_values_as_message(m);
        v = {m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w, m.angular_velocity.x, m.angular_velocity.y,
          m.angular_velocity.z, m.linear_acceleration.x, m.linear_acceleration.y, m.linear_acceleration.z};
        ok = kept(m.header) && m.orientation_covariance == marks() && m.angular_velocity_covariance == marks() && m.linear_acceleration_covariance == marks();
        return r;
      };
      break;
    }
    case 3:
    {
      d.kind = "range sensor";
      named({"range"});
      d.known = {NaN};
      d.floats = d.fresh_only = true;
      auto s = std::make_shared<sc::RangeSensor>(n);
      common(d, s);
      auto p = s.get();
      d.getters = [p] { return V{p->get_range()}; };
      d.message = [p](V & v, bool & ok)
      {
        sensor_msgs::msg::Range m;
        fill(m.header);
        m.radiation_type = 1, m.field_of_view = 0.5f, m.min_range = 0.25f, m.max_range = 7, m.variance = 3;
        bool r = p->get_values_as_message(m);
        v = {m.range};
        ok = kept(m.header) && m.radiation_type == 1 && m.field_of_view == 0.5f && m.min_range == 0.25f && m.max_range == 7 && m.variance == 3;
        return r;
      };
      break;
    }
    case 4:
    {
      d.kind = "pose sensor";
      named({"position.x", "position.y", "position.z", "orientation.x", "orientation.y", "orientation.z", "orientation.w"});
      d.known = {0, 0, 0, 0, 0, 0, 1};
      auto s = std::make_shared<sc::PoseSensor>(n);
      common(d, s);
      auto p = s.get();
      d.getters = [p] { V v; add(v, p->get_position()); add(v, p->get_orientation()); return v; };
      d.parts = {{0, [p] { V v; add(v, p->get_position()); return v; }}, {3, [p] { V v; add(v, p->get_orientation()); return v; }}};
      d.message = [p](V & v, bool & ok)
      {
        geometry_msgs::msg::Pose m;
        bool r = p->get_values_as_message(m);
        v = {m.position.x, m.position.y, m.position.z, m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w};
        ok = true;
        return r;
      };
      break;
    }
    case 5:
    {
      d.kind = "magnetic field sensor";
      named({"magnetic_field.x", "magnetic_field.y", "magnetic_field.z"});
      d.known = {0, 0, 0};
      auto s = std::make_shared<sc::MagneticFieldSensor>(n);
      common(d, s);
      auto p = s.get();
      d.message = [p](V & v, bool & ok)
      {
        sensor_msgs::msg::MagneticField m;
        fill(m.header);
        m.magnetic_field_covariance = marks();
        bool r = p->get_values_as_message(m);
        v = {m.magnetic_field.x, m.magnetic_field.y, m.magnetic_field.z};
        ok = kept(m.header) && m.magnetic_field_covariance == marks();
        return r;
      };
      break;
    }
    case 6:
    {
      d.kind = "GPS with covariance";
      named({"status", "service", "latitude", "longitude", "altitude", "latitude_covariance", "longitude_covariance", "altitude_covariance"});
      d.known = {0, 0, 0, 0, 0, 0, 0, 0};
      d.fresh_only = true;
      auto s = std::make_shared<sc::GPSSensor<sc::GPSSensorOption::WithCovariance>>(n);
      common(d, s);
      auto p = s.get();
      d.getters = [p]
      {
        V v{double(p->get_status()), double(p->get_service()), p->get_latitude(), p->get_longitude(), p->get_altitude()};
        auto & k = p->get_covariance();
        add(v, V{k[0], k[4], k[8]});
        return v;
      };
      d.message = [p](V & v, bool & ok)
      {
        sensor_msgs::msg::NavSatFix m;
        fill(m.header);
        m.position_covariance_type = 2;
        bool r = p->get_values_as_message(m);
        auto k = m.position_covariance;
        v = {double(m.status.status), double(m.status.service), m.latitude, m.longitude, m.altitude, k[0], k[4], k[8]};
        k[0] = k[4] = k[8] = 0;
        ok = kept(m.header) && m.position_covariance_type == 2 && k == std::array<double, 9>{};
        return r;
      };
      break;
    }
    case 7:
    {
      d.kind = "GPS";
      named({"status", "service", "latitude", "longitude", "altitude"});
      d.known = {0, 0, 0, 0, 0};
      d.fresh_only = true;
      auto s = std::make_shared<sc::GPSSensor<sc::GPSSensorOption::WithoutCovariance>>(n);
      common(d, s);
      auto p = s.get();
      d.getters = [p] { return V{double(p->get_status()), double(p->get_service()), p->get_latitude(), p->get_longitude(), p->get_altitude()}; };
      d.message = [p](V & v, bool & ok)
      {
        sensor_msgs::msg::NavSatFix m;
        fill(m.header);
        m.position_covariance_type = 2;
        m.position_covariance = marks();
        bool r = p->get_values_as_message(m);
        v = {double(m.status.status), double(m.status.service), m.latitude, m.longitude, m.altitude};
        ok = kept(m.header) && m.position_covariance_type == 2 && m.position_covariance == marks();
        return r;
      };
      break;
    }
    default:
    {
      using S = sc::SemanticComponentInterface<geometry_msgs::msg::Wrench>;
      size_t k = 1 + c.below(5);
      std::shared_ptr<S> s;
      if (c.coin())
      {
        d.kind = "numbered component";
        for (size_t i = 1; i <= k; ++i) d.field.push_back(static_cast<int>(i - 1)), d.names.push_back(n + "/" + std::to_string(i));
        s = std::make_shared<S>(n, k);
      }
      else
      {
        d.kind = "listed component";
        std::vector<std::string> pool = {"x/a", "y/a", "x/b", "x/a/b", "xx/a"};
        c.shuffle(pool);
        for (size_t i = 0; i < k; ++i) d.field.push_back(static_cast<int>(i)), d.names.push_back(pool[i]);
        s = std::make_shared<S>(n, d.names);
      }
      d.known = V(k, NaN);
      common(d, s);
    }
  }
  return d;
}

struct Offered
{
  std::map<std::string, std::shared_ptr<StateInterface>> states;
  std::map<std::string, double> val;
  std::set<std::string> busy;
  ~Offered()
  {
    for (auto & b : busy) states[b]->get_mutex().unlock();
  }
};
static void split(const std::string & full, std::string & prefix, std::string & name)
{
  auto p = full.rfind('/');
  prefix = full.substr(0, p), name = full.substr(p + 1);
}
static InterfaceDescription desc(const std::string & full)
{
  std::string p, n;
  split(full, p, n);
  InterfaceInfo i{};
  i.name = n;
  i.data_type = "double";
  return InterfaceDescription(p, i);
}
static double some(Case & c, const std::string & kind, const std::string & full)
{
  bool gps = kind.rfind("GPS", 0) == 0;
  if (gps && full.ends_with("/status")) return static_cast<double>(c.range(-1, 2));
  if (gps && full.ends_with("/service")) return static_cast<double>(c.range(0, 15));
  return c.pick<double>({0.0, 1.0, -1.0, 0.5, 1e-9, 1e12, -3.25, c.range(-100000, 100000) / 128.0, NaN, std::numeric_limits<double>::infinity()});
}

static void test_sensor(Case & c)
{
  Dev d = make(c);
  Offered o;
  std::vector<std::string> all = d.names;
  auto used = d.get_names();
  c.checkf(used == d.names, "names", "%s: the names of the interfaces are not the documented ones", d.kind.c_str());
  for (auto x : {"other/force.x", "s/position", "sensor/1", "s/force.x.y", "sensor2/range", "s/11", "x/a", "s"})
    if (std::string(x).find('/') != std::string::npos && std::find(all.begin(), all.end(), x) == all.end()) all.push_back(x);
  for (auto & n : all)
  {
    o.states[n] = std::make_shared<StateInterface>(desc(n));
    o.val[n] = some(c, d.kind, n);
    if (!o.states[n]->set_value(o.val[n], true)) c.fail("setup", "a state could not be set");
  }
  c.note("%s with %zu interfaces", d.kind.c_str(), d.names.size());
  std::vector<LoanedStateInterface> offered;
  bool bound = false, touched = false;
  int compared = 0, assigned = 0;
  auto unlock = [&]
  {
    for (auto & b : o.busy) o.states[b]->get_mutex().unlock();
    o.busy.clear();
  };
  while (c.more(20))
  {
    switch (c.weighted({bound ? 1u : 6u, 5, bound ? 7u : 0u, bound ? 3u : 1u, bound ? 1u : 0u, 2}))
    {
      case 0:
      {
        // in a controller: bound when activated, released when deactivated, bound again after a failure
        if (bound)
        {
          d.release();
          bound = false;
        }
        offered.clear();
        auto l = all;
        c.shuffle(l);
        std::set<std::string> gone;
        if (c.chance(30)) gone.insert(c.pick(d.names));
        for (auto & n : l)
          if (!gone.count(n) && (std::find(d.names.begin(), d.names.end(), n) != d.names.end() || c.chance(40)))
          {
            offered.emplace_back(o.states[n]);
            if (c.chance(6)) offered.emplace_back(o.states[n]), c.label("offered twice");
          }
        bool r = d.assign(offered);
        c.note("offer %zu interfaces%s%s", offered.size(), gone.empty() ? "" : " without ", gone.empty() ? "" : gone.begin()->c_str());
        c.checkf(r == gone.empty(), "binding", "%s: binding reports %s", d.kind.c_str(), r ? "success although an interface is missing" : "failure although all interfaces are there");
        bound = r;
        ++assigned;
        if (!r && c.chance(30)) d.release();
        if (!r) c.label("failed binding");
        break;
      }
      case 1:
      {
        auto & n = c.pick(all);
        if (o.busy.count(n)) break;
        o.val[n] = some(c, d.kind, n);
        touched = true;
        c.note("%s = %g", n.c_str(), o.val[n]);
        if (!o.states[n]->set_value(o.val[n], true)) c.fail("setup", "a state could not be set");
        break;
      }
      case 2:
      {
        bool by_message = d.message && (!d.getters || c.coin());
        if (!d.message && !d.getters) break;
        V got;
        bool others = true;
        size_t first = 0;
        const bool part = !by_message && !d.parts.empty() && c.coin();
        if (part)
        {
          auto & g = c.pick(d.parts);
          first = g.first;
          got = g.second();
        }
        else if (by_message)
          c.checkf(d.message(got, others), "message", "%s: no message was made", d.kind.c_str());
        else
          got = d.getters();
        c.checkf(others, "other fields", "%s: fields of the message without interface were changed", d.kind.c_str());
        c.note("%s", by_message ? "message" : part ? "one getter" : "getters");
        V want = d.known;
        std::vector<bool> open(want.size());
        for (size_t i = 0; i < d.names.size(); ++i)
        {
          if (o.busy.count(d.names[i]))
          {
            if (d.fresh_only) open[d.field[i]] = true;
            continue;
          }
          want[d.field[i]] = o.val[d.names[i]];
        }
        c.check(part ? first + got.size() <= want.size() && !got.empty() : got.size() == want.size(), "size", d.kind + ": wrong number of fields");
        const size_t last = first + got.size();
        got.insert(got.begin(), first, NaN);
        for (size_t i = first; i < last; ++i)
        {
          double w = d.floats ? static_cast<float>(want[i]) : want[i];
          // what a busy interface gives is either the value before or no value
          if (open[i])
          {
            bool none = std::isnan(got[i]) || got[i] == std::numeric_limits<int8_t>::max() || got[i] == std::numeric_limits<uint16_t>::max();
            c.checkf(none || same(got[i], want[i]), "busy", "%s: field %zu of a busy interface is %g", d.kind.c_str(), i, got[i]);
            continue;
          }
          c.checkf(same(got[i], w), strf("field %zu", i).c_str(), "%s: field %zu is %.17g instead of %.17g (%s)", d.kind.c_str(), i, got[i], w, by_message ? "message" : "getters");
        }
        d.known = want;
        ++compared;
        break;
      }
      case 3:
      {
        size_t n = bound ? d.names.size() : 0;
        bool right = c.chance(75);
        V v;
        v.reserve(right ? n : n + 1 + c.below(3));
        if (!right && v.capacity() == n) break;
        bool busy = false;
        if (!bound) d.release();
        if (right && bound)
          for (auto & x : d.names) busy |= o.busy.count(x) > 0;
        bool r = false;
        try
        {
          r = d.values(v);
        }
        catch (const std::exception & e)
        {
          c.fail("values", d.kind + ": reading the values throws: " + e.what());
        }
        c.note("values");
        c.checkf(r == (right && !busy), "values", "%s: reading the values reports %s", d.kind.c_str(), r ? "success" : "failure");
        if (r)
        {
          c.check(v.size() == n, "values", d.kind + ": wrong number of values");
          for (size_t i = 0; i < n; ++i)
            c.checkf(same(v[i], o.val[d.names[i]]), strf("value %zu", i).c_str(), "%s: value %zu is %.17g instead of %.17g", d.kind.c_str(), i, v[i], o.val[d.names[i]]);
          compared += n > 0;
        }
        else
          c.check(v.empty(), "values", d.kind + (right ? ": values were given although one of them could not be read" : ": values were given in spite of the wrong size"));
        break;
      }
      case 4:
        d.release();
        bound = false;
        offered.clear();
        c.note("release");
        break;
      default:
        if (c.coin())
          unlock(), c.note("free");
        else
        {
          auto & n = c.pick(d.names);
          if (o.busy.insert(n).second) o.states[n]->get_mutex().lock();
          c.note("%s is busy", n.c_str());
          c.label("busy interfaces");
        }
    }
  }
  unlock();
  c.nontrivial(compared >= 2 && assigned && touched);
  c.label(d.kind);
}

template <class M>
struct Cmd : sc::SemanticComponentCommandInterface<M>
{
  using sc::SemanticComponentCommandInterface<M>::SemanticComponentCommandInterface;
  bool set_values_from_message(const M &) override { return false; }
};
static void test_command(Case & c)
{
  bool led = c.coin();
  std::string n = c.pick<std::string>({"led", "arm/led"});
  std::vector<std::string> names;
  std::shared_ptr<sc::SemanticComponentCommandInterface<std_msgs::msg::ColorRGBA>> s;
  if (led)
  {
    std::vector<std::string> k = {"r", "g", "b", "red", "interface_1"};
    c.shuffle(k);
    for (int i = 0; i < 3; ++i) names.push_back(n + "/" + k[i]);
    s = std::make_shared<sc::LedRgbDevice>(n, k[0], k[1], k[2]);
  }
  else
  {
    std::vector<std::string> k = {"x/a", "y/a", "x/b", "x/a/b", "led/r", "z/r"};
    c.shuffle(k);
    names.assign(k.begin(), k.begin() + 1 + static_cast<long>(c.below(5)));
    s = std::make_shared<Cmd<std_msgs::msg::ColorRGBA>>(n, names);
  }
  c.check(s->get_command_interface_names() == names, "names", "the names of the command interfaces are not the documented ones");
  std::map<std::string, std::shared_ptr<CommandInterface>> itfs;
  std::map<std::string, double> val;
  std::vector<std::string> all = names;
  for (auto x : {"led/r", "led/x", "x/a", "lled/g"})
    if (std::find(all.begin(), all.end(), x) == all.end()) all.push_back(x);
  for (auto & x : all) itfs[x] = std::make_shared<CommandInterface>(desc(x)), val[x] = NaN;
  std::vector<LoanedCommandInterface> offered;
  std::set<std::string> busy;
  bool bound = false;
  int written = 0, refused = 0;
  auto unlock = [&]
  {
    for (auto & b : busy) itfs[b]->get_mutex().unlock();
    busy.clear();
  };
  auto compare = [&](const char * after)
  {
    for (auto & [x, i] : itfs)
    {
      if (busy.count(x)) continue;
      double g = i->get_optional().value();
      c.checkf(same(g, val[x]), "command", "after %s the command of %s is %.17g instead of %.17g", after, x.c_str(), g, val[x]);
    }
  };
  while (c.more(16))
  {
    switch (c.weighted({bound ? 1u : 5u, bound ? 6u : 1u, bound && led ? 6u : 0u, bound ? 1u : 0u, 2}))
    {
      case 0:
      {
        if (bound) s->release_interfaces();
        offered.clear();
        auto l = all;
        c.shuffle(l);
        std::string gone;
        if (c.chance(25)) gone = c.pick(names);
        for (auto & x : l)
          if (x != gone && (std::find(names.begin(), names.end(), x) != names.end() || c.coin())) offered.emplace_back(itfs[x]);
        bool r = s->assign_loaned_command_interfaces(offered);
        c.note("offer %zu interfaces%s%s", offered.size(), gone.empty() ? "" : " without ", gone.c_str());
        c.checkf(r == gone.empty(), "binding", "binding of commands reports %s", r ? "success although an interface is missing" : "failure although all are there");
        bound = r;
        break;
      }
      case 1:
      {
        if (!bound) s->release_interfaces();
        size_t k = bound ? names.size() : 0;
        bool right = c.chance(80);
        V v(right ? k : k + 1 + c.below(2));
        if (!right && k > 0 && c.coin()) v.resize(k - 1);
        for (auto & x : v) x = some(c, "", "");
        bool r = s->set_values(v), clear = true;
        if (right)
          for (size_t i = 0; i < k; ++i)
          {
            if (busy.count(names[i])) clear = false;
            else val[names[i]] = v[i], ++written;
          }
        c.note("%zu values", v.size());
        c.checkf(r == (right && clear), "set values", "setting %zu values for %zu interfaces reports %s", v.size(), k, r ? "success" : "failure");
        if (!right) ++refused;
        compare("setting values");
        break;
      }
      case 2:
      {
        std_msgs::msg::ColorRGBA m;
        float * f[3] = {&m.r, &m.g, &m.b};
        bool good = true, clear = true;
        m.a = c.pick<float>({0.f, 1.f, 7.f});
        for (auto p : f)
        {
          *p = c.chance(85) ? c.pick<float>({0.f, 1.f, 0.5f, 0.25f, 0.75f, c.range(0, 1000) / 1000.f}) : c.pick<float>({-0.001f, 1.001f, -1.f, 255.f, std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity()});
          good &= *p >= 0 && *p <= 1;
        }
        bool r = s->set_values_from_message(m);
        c.note("message %g %g %g", m.r, m.g, m.b);
        if (good)
          for (int i = 0; i < 3; ++i)
          {
            if (busy.count(names[i])) clear = false;
            else val[names[i]] = *f[i], ++written;
          }
        else
          ++refused;
        c.checkf(r == (good && clear), "set message", "the colour %g %g %g reports %s", m.r, m.g, m.b, r ? "success" : "failure");
        compare("a message");
        break;
      }
      case 3:
        s->release_interfaces();
        bound = false;
        offered.clear();
        c.note("release");
        break;
      default:
        if (c.chance(70))
          unlock(), c.note("free");
        else
        {
          auto & x = c.pick(names);
          if (busy.insert(x).second) itfs[x]->get_mutex().lock();
          c.note("%s is busy", x.c_str());
        }
    }
  }
  unlock();
  compare("all");
  c.nontrivial(written >= 2);
  c.label(led ? "LED" : "generic command component");
  if (refused && written) c.label("refused values");
}

// the ordering by joints and types or by full names
template <class Loaned, class Handle_>
static void order(Case & c)
{
  std::vector<std::string> joints = {"j1", "j10", "j", "arm/j1", "j1/j"}, types = {"position", "velocity", "pos"};
  std::vector<std::shared_ptr<Handle_>> handles;
  std::vector<Loaned> offered;
  std::vector<std::string> full;
  int twice = 0;
  for (auto & j : joints)
    for (auto & t : types)
      if (c.chance(60)) full.push_back(j + "/" + t);
  c.shuffle(full);
  for (auto & f : full)
  {
    // an interface may also be named beneath its prefix
    std::string p, n;
    split(f, p, n);
    auto q = p.find('/');
    if (q != std::string::npos && c.coin()) n = p.substr(q + 1) + "/" + n, p = p.substr(0, q);
    InterfaceInfo i{};
    i.name = n, i.data_type = "double";
    handles.push_back(std::make_shared<Handle_>(InterfaceDescription(p, i)));
    offered.emplace_back(handles.back());
    if (c.chance(6)) offered.emplace_back(handles.back()), ++twice;
  }
  std::string type = c.chance(60) ? c.pick(types) : "";
  std::vector<std::string> names, want;
  auto pool = joints;
  if (type.empty())
  {
    pool.clear();
    for (auto & j : joints)
      for (auto & t : types) pool.push_back(j + "/" + t);
  }
  c.shuffle(pool);
  names.assign(pool.begin(), pool.begin() + static_cast<long>(c.below(std::min<size_t>(pool.size(), 6) + 1)));
  for (auto & n : names)
  {
    auto f = type.empty() ? n : n + "/" + type;
    if (std::find(full.begin(), full.end(), f) != full.end()) want.push_back(f);
  }
  std::vector<std::reference_wrapper<Loaned>> out;
  bool small = names.size() && c.chance(10), threw = false, r = false;
  out.reserve(small ? c.below(names.size()) : names.size());
  if (small && out.capacity() >= names.size()) c.discard();
  try
  {
    r = controller_interface::get_ordered_interfaces(offered, names, type, out);
  }
  catch (const std::range_error &)
  {
    threw = true;
  }
  c.check(threw == small, "capacity", "the room for the result was judged wrongly");
  if (small) return;
  std::string got, exp, of;
  for (auto & o : out) got += " " + o.get().get_name();
  for (auto & w : want) exp += " " + w;
  for (auto & o : offered) of += " " + o.get_name();
  c.checkf(got == exp, "order", "offered%s for type '%s': got%s instead of%s", of.c_str(), type.c_str(), got.c_str(), exp.c_str());
  c.checkf(r == (want.size() == names.size()), "found", "offered%s: %zu of %zu were found, reported %s", of.c_str(), want.size(), names.size(), r ? "all" : "not all");
  c.nontrivial(names.size() >= 2 && want.size() >= 1);
  if (r && names.size() > 1) c.label("all found");
  if (twice) c.label("offered twice");
}
static void test_order(Case & c)
{
  if (c.coin())
    order<LoanedStateInterface, StateInterface>(c);
  else
    order<LoanedCommandInterface, CommandInterface>(c);
}

#ifndef NO_MAIN
int main(int argc, char ** argv)
{
  Options o;
  o.property = "C20";
  o.quick_cases = 120000;
  o.thorough_cases = 8000000;
  o.quick_cap_s = 25;
  o.thorough_cap_s = 400;
  o.rule = "sensors: bound, changed and compared at least twice; commands: at least two values written; order: at least two names and one found";
  return run(argc, argv, o, {{"sensor", 3, test_sensor}, {"command", 2, test_command}, {"order", 2, test_order}});
}
#endif
