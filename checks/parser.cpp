// C09 and C10: generated robot descriptions. A description is generated together with the hardware list it declares, rendered
// in arbitrary formatting and parsed; for C10 it is broken in one documented way, mutated or replaced by arbitrary text.
#include <map>

#include "hardware_interface/component_parser.hpp"
#include "pbt.hpp"
using namespace pbt;
using namespace hardware_interface;

struct El
{
  std::string tag;
  std::vector<std::pair<std::string, std::string>> attr;
  std::vector<El> kids;
  std::string text;
  bool has_text = false;
  bool closed = false;  // other elements would change the meaning
  El & a(const std::string & k, const std::string & v) { attr.emplace_back(k, v); return *this; }
};
static El leaf(const std::string & tag, const std::string & text) { El e; e.tag = tag; e.text = text; e.has_text = true; return e; }
static El el(const std::string & tag) { El e; e.tag = tag; return e; }

static const std::vector<std::string> WORDS = {"a", "ab", "joint1", "joint10", "j", "left/j", "x.y", "arm & tool", "<tag>", "quo\"te", "it's", "\xc3\xa9\xe6\xbc\xa2", "Name With Space", "0", "true", "UPPER", "-1.5", "position", "velocity"};
static std::string word(Case & c) { return c.chance(70) ? c.pick(WORDS) : c.pick(WORDS) + c.pick(WORDS); }
static std::string fresh(Case & c, std::set<std::string> & used)
{
  std::string w = word(c);
  while (!used.insert(w).second) w += c.pick<std::string>({"0", "1", "_", "a"});
  return w;
}
static std::string numtext(Case & c)
{
  switch (c.below(4))
  {
    case 0: return strf("%d", (int)c.range(-20, 20));
    case 1: return strf("%.17g", c.real(-10, 10));
    case 2: return strf("%.3f", c.real(-10, 10));
    default: return strf("%.6e", c.real(-10, 10));
  }
}

// ---------------------------------------------------------------- canonical text of a parsed description
static std::string map_text(const std::unordered_map<std::string, std::string> & m)
{
  std::map<std::string, std::string> s(m.begin(), m.end());
  std::string r = "{";
  for (auto & [k, v] : s) r += "<" + k + ">=<" + v + "> ";
  return r + "}";
}
static std::string itf_text(const InterfaceInfo & i)
{
  return strf("      itf <%s> min <%s> max <%s> init <%s> type <%s> size %d limits %d ", i.name.c_str(), i.min.c_str(), i.max.c_str(), i.initial_value.c_str(), i.data_type.c_str(), i.size, i.enable_limits) + map_text(i.parameters) + "\n";
}
static std::string comp_text(const char * kind, const ComponentInfo & k)
{
  std::string r = strf("  %s <%s> type <%s> mimic %d limits %d ", kind, k.name.c_str(), k.type.c_str(), (int)k.is_mimic, k.enable_limits) + map_text(k.parameters) + "\n    command:\n";
  for (auto & i : k.command_interfaces) r += itf_text(i);
  r += "    state:\n";
  for (auto & i : k.state_interfaces) r += itf_text(i);
  return r;
}
template <class T>
static std::string part_text(const char * kind, const T & p)
{
  std::string r = strf("    %s <%s> role <%s> red %.17g off %.17g ro %d cmd:", kind, p.name.c_str(), p.role.c_str(), p.mechanical_reduction, p.offset, p.read_only);
  for (auto & i : p.command_interfaces) r += " <" + i + ">";
  r += " state:";
  for (auto & i : p.state_interfaces) r += " <" + i + ">";
  return r + "\n";
}
static std::string hw_text(const HardwareInfo & h)
{
  std::string r = strf("hw <%s> type <%s> group <%s> rate %u async %d plugin <%s> prio %d policy <%s> warn %d cores", h.name.c_str(), h.type.c_str(), h.group.c_str(), h.rw_rate, h.is_async, h.hardware_plugin_name.c_str(),
    h.async_params.thread_priority, h.async_params.scheduling_policy.c_str(), h.async_params.print_warnings);
  for (int k : h.async_params.cpu_affinity_cores) r += strf(" %d", k);
  r += " " + map_text(h.hardware_parameters) + "\n";
  for (auto & k : h.joints) r += comp_text("joint", k);
  for (auto & k : h.sensors) r += comp_text("sensor", k);
  for (auto & k : h.gpios) r += comp_text("gpio", k);
  for (auto & m : h.mimic_joints) r += strf("  mimic %zu of %zu x %.17g + %.17g\n", m.joint_index, m.mimicked_joint_index, m.multiplier, m.offset);
  for (auto & t : h.transmissions)
  {
    r += "  transmission <" + t.name + "> type <" + t.type + "> " + map_text(t.parameters) + "\n";
    for (auto & j : t.joints) r += part_text("joint", j);
    for (auto & a : t.actuators) r += part_text("actuator", a);
  }
  std::set<std::string> lim;
  for (auto & l : h.limits) lim.insert(l.first);
  r += "  limits of";
  for (auto & l : lim) r += " <" + l + ">";
  lim.clear();
  for (auto & l : h.soft_limits) lim.insert(l.first);
  r += "\n  soft limits of";
  for (auto & l : lim) r += " <" + l + ">";
  return r + "\n";
}

// ---------------------------------------------------------------- generator
struct Doc
{
  El root;
  std::vector<HardwareInfo> hw;
  int joints = 0, parts = 0, mimic = 0, trans = 0;
};
static void gen_params(Case & c, El & e, std::unordered_map<std::string, std::string> & out, std::vector<El> & into, int avg)
{
  (void)e;
  std::set<std::string> used;
  while (c.more(avg))
  {
    std::string k = fresh(c, used), v = c.chance(10) ? "" : c.chance(50) ? numtext(c) : word(c);
    if (k == "min" || k == "max" || k == "initial_value") continue;
    out[k] = v;
    into.push_back(leaf("param", v).a("name", k));
  }
}
static InterfaceInfo gen_itf(Case & c, El & e, const std::string & name)
{
  InterfaceInfo i{};
  i.data_type = "double", i.size = 1, i.enable_limits = true;
  i.name = name;
  e.a("name", name);
  for (auto [k, p] : {std::pair<const char *, std::string *>{"min", &i.min}, {"max", &i.max}, {"initial_value", &i.initial_value}})
    if (c.chance(30)) { *p = numtext(c); i.parameters[k] = *p; e.kids.push_back(leaf("param", *p).a("name", k)); }
  gen_params(c, e, i.parameters, e.kids, 1);
  if (c.chance(25)) { i.data_type = c.pick<std::string>({"double", "bool", "int32", "uint8", "float32", "custom type"}); e.a("data_type", i.data_type); }
  if (c.chance(20)) { i.size = c.coin() ? c.range(1, 12) : c.range(1, 2000000); e.a("size", strf("%d", i.size)); }
  if (c.chance(25)) { i.enable_limits = c.coin(); e.kids.push_back(el("limits").a("enable", i.enable_limits ? c.pick<std::string>({"true", "True", "TRUE"}) : c.pick<std::string>({"false", "False"}))); }
  return i;
}
// keeps the relative order of elements with the same tag
static void interleave(Case & c, std::vector<El> & v)
{
  for (size_t i = 1; i < v.size(); ++i)
    for (size_t j = i; j > 0 && v[j].tag != v[j - 1].tag && c.coin(); --j) std::swap(v[j], v[j - 1]);
}
static ComponentInfo gen_component(Case & c, El & e, const std::string & kind, const std::string & name, bool commands, int mimic_attr)
{
  ComponentInfo k;
  k.name = name, k.type = kind, k.is_mimic = MimicAttribute::NOT_SET, k.enable_limits = true;
  e.tag = kind;
  e.a("name", name);
  if (mimic_attr >= 0 && kind == "joint") { k.is_mimic = mimic_attr ? MimicAttribute::TRUE : MimicAttribute::FALSE; e.a("mimic", mimic_attr ? "true" : "false"); }
  if (kind != "gpio" && c.chance(20)) { k.enable_limits = c.coin(); e.kids.push_back(el("limits").a("enable", k.enable_limits ? "true" : "false")); }
  std::set<std::string> cn, sn;
  auto name_of = [&](std::set<std::string> & u) { return c.chance(60) && u.insert("position").second ? std::string("position") : fresh(c, u); };
  if (commands)
    while (c.more(2))
    {
      El i = el("command_interface");
      k.command_interfaces.push_back(gen_itf(c, i, name_of(cn)));
      interleave(c, i.kids);
      e.kids.push_back(i);
    }
  while (c.more(2))
  {
    El i = el("state_interface");
    k.state_interfaces.push_back(gen_itf(c, i, name_of(sn)));
    interleave(c, i.kids);
    e.kids.push_back(i);
  }
  for (auto * v : {&k.command_interfaces, &k.state_interfaces})
    for (auto & i : *v) i.enable_limits = i.enable_limits && k.enable_limits;
  gen_params(c, e, k.parameters, e.kids, 1);
  interleave(c, e.kids);
  return k;
}
static double num_of(const std::string & t) { return strtod(t.c_str(), nullptr); }

static Doc generate(Case & c)
{
  Doc d;
  El & r = d.root;
  r = el("robot").a("name", "r");
  static const char * TYPE[] = {"revolute", "prismatic", "continuous", "floating", "planar"};
  size_t nh = c.range(1, 3);
  std::set<std::string> names, hwnames;
  r.kids.push_back(el("link").a("name", "world"));
  int link = 0;
  auto robot_joint = [&](const std::string & n, int type, std::vector<El> extra) {
    El j = el("joint").a("name", n).a("type", type < 0 ? "fixed" : TYPE[type]);
    j.kids.push_back(el("parent").a("link", link && c.coin() ? strf("l%d", (int)c.below(link)) : "world"));
    j.kids.push_back(el("child").a("link", strf("l%d", link)));
    if (type >= 0) j.kids.push_back(el("axis").a("xyz", "0 0 1"));
    if (type == 0 || type == 1 || (type == 2 && c.coin())) j.kids.push_back(el("limit").a("lower", "-1").a("upper", "1.5").a("velocity", "2").a("effort", "30"));
    for (auto & x : extra) j.kids.push_back(x);
    r.kids.push_back(el("link").a("name", strf("l%d", link++)));
    r.kids.push_back(j);
  };
  if (c.coin()) robot_joint("fixed_joint", -1, {});
  for (size_t h = 0; h < nh; ++h)
  {
    HardwareInfo hw{};
    hw.async_params = HardwareAsyncParams();
    El e = el("ros2_control");
    hw.name = fresh(c, hwnames);
    hw.type = c.pick<std::string>({"system", "system", "actuator", "sensor"});
    e.a("name", hw.name).a("type", hw.type);
    if (c.chance(40)) { hw.rw_rate = c.coin() ? c.below(1000) : c.below(2147483647); e.a("rw_rate", strf("%u", hw.rw_rate)); }
    if (c.chance(40)) { hw.is_async = c.coin(); e.a("is_async", hw.is_async ? "true" : "false"); }
    hw.async_params.thread_priority = hw.is_async ? 50 : std::numeric_limits<int>::max();
    if (hw.is_async && c.coin()) { hw.async_params.thread_priority = c.range(1, 99); e.a("thread_priority", strf("%d", hw.async_params.thread_priority)); }
    if (c.chance(90))
    {
      El x = el("hardware");
      hw.hardware_plugin_name = word(c);
      x.kids.push_back(leaf("plugin", hw.hardware_plugin_name));
      if (c.chance(40)) { hw.group = word(c); x.kids.push_back(leaf("group", hw.group)); }
      gen_params(c, x, hw.hardware_parameters, x.kids, 2);
      interleave(c, x.kids);
      e.kids.push_back(x);
    }
    if (c.chance(30))
    {
      El x = el("properties"), a = el("async");
      if (c.coin())
      {
        std::string t;
        size_t n = c.below(4);
        for (size_t i = 0; i < n; ++i) { int k = c.below(64); hw.async_params.cpu_affinity_cores.push_back(k); t += (i ? c.pick<std::string>({",", ", "}) : "") + strf("%d", k); }
        a.a("affinity", "[" + t + "]");
      }
      if (c.coin()) { hw.async_params.scheduling_policy = c.pick<std::string>({"synchronized", "detached"}); a.a("scheduling_policy", hw.async_params.scheduling_policy == "detached" && c.coin() ? "Detached" : hw.async_params.scheduling_policy); }
      if (c.coin()) { hw.async_params.thread_priority = c.range(1, 99); a.a("thread_priority", strf("%d", hw.async_params.thread_priority)); }
      if (c.coin()) { hw.async_params.print_warnings = c.coin(); a.a("print_warnings", hw.async_params.print_warnings ? "true" : "false"); }
      if (c.chance(90)) x.kids.push_back(a); else hw.async_params = [&] { HardwareAsyncParams p; p.thread_priority = hw.is_async ? 50 : std::numeric_limits<int>::max(); for (auto & [k, v] : e.attr) if (k == "thread_priority") p.thread_priority = atoi(v.c_str()); return p; }();
      e.kids.push_back(x);
    }
    size_t nj = c.range(hw.type == "sensor" ? 0 : 1, hw.type == "actuator" ? 1 : 4);
    struct Mim { size_t i; std::string target; double mul, off; };
    std::vector<Mim> mims;
    std::vector<std::string> jn;
    for (size_t j = 0; j < nj; ++j) jn.push_back(fresh(c, names));
    for (size_t j = 0; j < nj; ++j)
    {
      std::vector<El> extra;
      int attr = -1;
      bool commands = true;
      if (nj > 1 && c.chance(25))
      {
        size_t t = c.below(nj - 1);
        t += t >= j;
        El m = el("mimic").a("joint", jn[t]);
        std::string mul = "1", off = "0";
        if (c.coin()) m.a("multiplier", mul = strf("%g", c.real(-3, 3)));
        if (c.coin()) m.a("offset", off = strf("%g", c.real(-3, 3)));
        extra.push_back(m);
        attr = (int)c.below(3) - 1;
        if (attr != 0)
        {
          commands = false;
          hw.mimic_joints.push_back({j, t, num_of(mul), num_of(off)});
          ++d.mimic;
        }
      }
      else if (c.chance(10)) attr = 0;
      if (c.chance(20)) { extra.push_back(el("safety_controller").a("soft_lower_limit", "-0.5").a("soft_upper_limit", "0.5").a("k_position", "3").a("k_velocity", "4")); hw.soft_limits[jn[j]]; }
      robot_joint(jn[j], c.chance(85) ? c.below(3) : c.below(5), extra);
      El x;
      hw.joints.push_back(gen_component(c, x, "joint", jn[j], commands, attr));
      hw.limits[jn[j]];
      e.kids.push_back(x);
      ++d.joints;
    }
    std::set<std::string> used(jn.begin(), jn.end());
    while (c.more(1)) { El x; hw.sensors.push_back(gen_component(c, x, "sensor", fresh(c, used), c.chance(10), -1)); e.kids.push_back(x); ++d.parts; }
    while (c.more(1)) { El x; hw.gpios.push_back(gen_component(c, x, "gpio", fresh(c, used), true, -1)); e.kids.push_back(x); ++d.parts; }
    std::set<std::string> tn;
    while (nj && c.more(1))
    {
      TransmissionInfo t{};
      El x = el("transmission");
      t.name = fresh(c, tn);
      x.a("name", t.name);
      t.type = word(c);
      x.kids.push_back(leaf("plugin", t.type));
      auto part = [&](auto & p, El & y) {
        p.mechanical_reduction = 1, p.offset = 0, p.read_only = false;
        p.role = word(c);
        y.a("name", p.name).a("role", p.role);
        if (c.chance(30)) { p.read_only = c.coin(); y.a("read_only", p.read_only ? "true" : "false"); }
        if (c.coin()) { std::string s = numtext(c); p.mechanical_reduction = num_of(s); y.kids.push_back(leaf("mechanical_reduction", s)); }
        if (c.coin()) { std::string s = numtext(c); p.offset = num_of(s); y.kids.push_back(leaf("offset", s)); }
        interleave(c, y.kids);
      };
      std::vector<size_t> order(nj);
      for (size_t j = 0; j < nj; ++j) order[j] = j;
      c.shuffle(order);
      size_t n = hw.type == "actuator" ? 1 : c.range(0, nj);
      for (size_t j = 0; j < n; ++j)
      {
        JointInfo p{};
        El y = el("joint");
        p.name = jn[order[j]];
        part(p, y);
        for (auto & i : hw.joints[order[j]].command_interfaces) p.command_interfaces.push_back(i.name);
        for (auto & i : hw.joints[order[j]].state_interfaces) p.state_interfaces.push_back(i.name);
        t.joints.push_back(p);
        x.kids.push_back(y);
      }
      while (c.more(1)) { ActuatorInfo p{}; El y = el("actuator"); p.name = word(c); part(p, y); t.actuators.push_back(p); x.kids.push_back(y); }
      if (hw.type == "actuator") { ActuatorInfo p{"actuator1", t.joints[0].state_interfaces, t.joints[0].command_interfaces, "actuator1", 1.0, 0.0, false}; t.actuators.push_back(p); }
      gen_params(c, x, t.parameters, x.kids, 1);
      interleave(c, x.kids);
      hw.transmissions.push_back(t);
      e.kids.push_back(x);
      ++d.trans;
    }
    interleave(c, e.kids);
    for (auto & k : e.kids) k.closed = k.closed;
    e.closed = true;  // only known elements directly below
    r.kids.push_back(e);
    d.hw.push_back(hw);
  }
  interleave(c, r.kids);
  return d;
}

// ---------------------------------------------------------------- rendering
static std::string esc(Case & c, const std::string & s, bool attr, char quote, bool variants)
{
  std::string r;
  for (char ch : s)
    switch (ch)
    {
      case '&': r += "&amp;"; break;
      case '<': r += "&lt;"; break;
      case '>': r += variants && !attr && c.coin() ? ">" : "&gt;"; break;
      case '"': r += attr && quote == '"' ? "&quot;" : variants && c.coin() ? "&#34;" : "\""; break;
      case '\'': r += attr && quote == '\'' ? "&apos;" : "'"; break;
      default: if (variants && isalpha((unsigned char)ch) && c.chance(2)) r += strf("&#%d;", ch); else r += ch;
    }
  return r;
}
static std::string ws(Case & c, bool variants) { return variants ? c.pick<std::string>({"", "\n", " ", "\t", "\r\n  "}) : ""; }
// pad: ros2_control values are stripped, those of the robot model are not
static std::string render(Case & c, const El & e, bool v, bool in_control)
{
  bool mine = in_control || e.tag == "ros2_control";
  std::string s = "<" + e.tag;
  auto attrs = e.attr;
  if (v) c.shuffle(attrs);
  if (v && mine && c.chance(5)) attrs.insert(attrs.begin() + c.below(attrs.size() + 1), {"unrelated", "1"});
  for (auto & [k, val] : attrs)
  {
    char q = v && c.coin() ? '\'' : '"';
    std::string pad1 = v && mine && c.chance(8) ? c.pick<std::string>({" ", "\t", "\n"}) : "", pad2 = v && mine && c.chance(8) ? c.pick<std::string>({" ", "  ", "\n"}) : "";
    s += (v && c.chance(20) ? "\n  " : " ") + k + (v && c.chance(5) ? " = " : "=") + q + pad1 + esc(c, val, true, q, v) + pad2 + q;
  }
  if (e.kids.empty() && !(e.has_text && !e.text.empty())) return s + (v && c.coin() && !e.has_text ? "></" + e.tag + ">" : v && c.coin() ? " />" : "/>");
  s += ">";
  if (e.has_text)
  {
    bool cd = v && c.chance(5) && e.text.find("]]>") == std::string::npos;
    s += (cd ? "" : ws(c, v && mine)) + (cd ? "<![CDATA[" + e.text + "]]>" : esc(c, e.text, false, 0, v) + ws(c, v && mine)) + "</" + e.tag + ">";
    return s;
  }
  auto filler = [&]() {
    if (!v) return std::string();
    std::string f = ws(c, v);
    if (c.chance(6)) f += "<!-- " + std::string(c.pick<std::string>({"comment", "<joint name='x'/>", "</ros2_control>", "a=\"1\""})) + " -->" + ws(c, v);
    if (c.chance(4) && mine && !e.closed) f += "<unrelated name=\"u\"><plugin>no</plugin><param name=\"min\">9</param></unrelated>";
    if (c.chance(4) && e.tag == "robot") f += "<gazebo reference=\"x\"><joint name=\"no\"/></gazebo>";
    return f;
  };
  for (auto & k : e.kids) s += filler() + render(c, k, v, mine);
  return s + filler() + "</" + e.tag + ">";
}
static std::string document(Case & c, const Doc & d, bool v)
{
  std::string s = v && c.coin() ? "" : "<?xml version=\"1.0\" encoding=\"utf-8\"?>\n";
  if (v && c.chance(20)) s += "<!-- head -->\n";
  s += render(c, d.root, v, false);
  if (v && c.coin()) s += "\n";
  return s;
}

static void compare(Case & c, const std::string & doc, const std::vector<HardwareInfo> & want, const char * what)
{
  std::vector<HardwareInfo> got;
  try { got = parse_control_resources_from_urdf(doc); }
  catch (const std::exception & e) { c.fail("refused", strf("a well-formed description (%s) was refused: ", what) + e.what()); }
  c.checkf(got.size() == want.size(), "count", "%zu components instead of %zu", got.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
  {
    std::string g = hw_text(got[i]), w = hw_text(want[i]);
    if (g != w)
    {
      size_t p = 0;
      while (p < g.size() && p < w.size() && g[p] == w[p]) ++p;
      size_t b = w.rfind('\n', p ? p - 1 : 0);
      b = b == std::string::npos ? 0 : b + 1;
      c.fail("content", strf("component %zu (%s) differs:\n", i, what) + "  parsed:   " + g.substr(b, g.find('\n', p) - b) + "\n  declared: " + w.substr(b, w.find('\n', p) - b));
    }
    c.check(got[i].original_xml == doc, "original_xml", "original_xml is not the description");
    // interface descriptions made of it
    for (auto * comps : {&got[i].joints, &got[i].sensors, &got[i].gpios})
      for (bool state : {false, true})
      {
        auto list = state ? parse_state_interface_descriptions(*comps) : parse_command_interface_descriptions(*comps);
        std::unordered_map<std::string, InterfaceDescription> map;
        state ? parse_state_interface_descriptions(*comps, map) : parse_command_interface_descriptions(*comps, map);
        size_t n = 0;
        for (auto & k : *comps)
          for (auto & f : state ? k.state_interfaces : k.command_interfaces)
          {
            c.check(n < list.size(), "descriptions.count", "interface descriptions are missing");
            auto & x = list[n++];
            std::string full = k.name + "/" + f.name;
            c.checkf(x.get_name() == full && x.get_prefix_name() == k.name && x.get_interface_name() == f.name && itf_text(x.interface_info) == itf_text(f) && x.get_data_type_string() == f.data_type, "descriptions", "description of %s is %s", full.c_str(), x.get_name().c_str());
            auto it = map.find(full);
            c.checkf(it != map.end() && it->second.get_name() == full, "descriptions.map", "no description of %s in the map", full.c_str());
          }
        c.check(n == list.size(), "descriptions.count", "too many interface descriptions");
        std::set<std::string> keys;
        for (auto & x : list) keys.insert(x.get_name());
        c.check(keys.size() == map.size(), "descriptions.map_count", "too many interface descriptions in the map");
      }
  }
}

static void round_trip(Case & c)
{
  Doc d = generate(c);
  std::string plain = document(c, d, false), styled = document(c, d, true);
  c.notes(plain);
  c.notes(styled);
  c.label(strf("%d joints", std::min(d.joints, 6)));
  if (d.mimic) c.label("mimic");
  if (d.trans) c.label("transmission");
  if (d.joints + d.parts > 1) c.nontrivial();
  compare(c, plain, d.hw, "plain");
  compare(c, styled, d.hw, "other formatting");
}

// ---------------------------------------------------------------- broken descriptions
struct Place { El * e; El * parent; };
static void walk(El & e, El * parent, bool in, std::vector<Place> & out)
{
  bool mine = in || e.tag == "ros2_control";
  if (mine) out.push_back({&e, parent});
  for (auto & k : e.kids) walk(k, &e, mine, out);
}
static void set_attr(El & e, const std::string & k, const std::string & v)
{
  for (auto & a : e.attr) if (a.first == k) { a.second = v; return; }
  e.a(k, v);
}
static bool drop_attr(El & e, const std::string & k)
{
  for (size_t i = 0; i < e.attr.size(); ++i) if (e.attr[i].first == k) { e.attr.erase(e.attr.begin() + i); return true; }
  return false;
}
static bool drop_kid(El & e, const std::string & k)
{
  bool any = false;
  for (size_t i = 0; i < e.kids.size();) if (e.kids[i].tag == k) { e.kids.erase(e.kids.begin() + i); any = true; } else ++i;
  return any;
}
static std::string get_attr(const El & e, const std::string & k) { for (auto & a : e.attr) if (a.first == k) return a.second; return ""; }

// breaks the document in one documented way, returns what was done ("" if the way does not apply to this document)
static std::string break_it(Case & c, Doc & d)
{
  std::vector<Place> all;
  walk(d.root, nullptr, false, all);
  auto some = [&](auto pred) -> Place {
    std::vector<Place> p;
    for (auto & x : all) if (pred(x)) p.push_back(x);
    if (p.empty()) return {nullptr, nullptr};
    return p[c.below(p.size())];
  };
  auto tag = [](std::initializer_list<const char *> t) { return [t = std::vector<std::string>(t.begin(), t.end())](const Place & p) { return std::find(t.begin(), t.end(), p.e->tag) != t.end(); }; };
  auto in_trans = [](const Place & p) { return p.parent && p.parent->tag == "transmission" && (p.e->tag == "joint" || p.e->tag == "actuator"); };
  std::string nonint = c.pick<std::string>({"-1", "abc", "1.5", "", "0x10", "1 2", "99999999999999999999", "3000000000", "1e3"});
  switch (c.below(19))
  {
    case 0: { auto p = some(tag({"ros2_control", "joint", "sensor", "gpio", "command_interface", "state_interface", "param", "transmission", "actuator"})); drop_attr(*p.e, "name"); return "no name of " + p.e->tag; }
    case 1: { auto p = some(tag({"ros2_control"})); drop_attr(*p.e, "type"); return "no type"; }
    case 2: { auto p = some(in_trans); if (!p.e) return ""; drop_attr(*p.e, "role"); return "no role"; }
    case 3: { auto p = some(tag({"hardware", "transmission"})); if (!p.e || !drop_kid(*p.e, "plugin")) return ""; return "no plugin of " + p.e->tag; }
    case 4: { auto p = some(tag({"ros2_control"})); set_attr(*p.e, "rw_rate", nonint); return "rw_rate " + nonint; }
    case 5: { auto p = some(tag({"ros2_control"})); std::string v = c.pick<std::string>({"yes", "1", "", "tru", "truefalse", "0"}); set_attr(*p.e, "is_async", v); return "is_async " + v; }
    case 6: { auto p = some(in_trans); if (!p.e) return ""; set_attr(*p.e, "read_only", c.pick<std::string>({"yes", "1", ""})); return "read_only"; }
    case 7: { auto p = some(tag({"limits"})); if (!p.e) return ""; if (c.coin()) drop_attr(*p.e, "enable"); else set_attr(*p.e, "enable", c.pick<std::string>({"on", "", "2"})); return "limits"; }
    case 8:
    {
      auto p = some(tag({"command_interface", "state_interface"}));
      if (!p.e) return "";
      std::string v = c.chance(20) ? "0" : c.chance(3) ? std::string(200000, '7') : nonint;
      set_attr(*p.e, "size", v);
      return "size " + v.substr(0, 30);
    }
    case 9:
    {
      auto p = some([](const Place & p) { return p.e->tag == "async" || (p.e->tag == "ros2_control" && get_attr(*p.e, "is_async") == "true"); });
      if (!p.e) return "";
      std::string v = c.chance(20) ? "0" : c.chance(3) ? std::string(200000, '7') : nonint;
      set_attr(*p.e, "thread_priority", v);
      return "thread_priority " + v.substr(0, 30);
    }
    case 10: { auto p = some(tag({"async"})); if (!p.e) return ""; if (c.coin()) set_attr(*p.e, "affinity", c.pick<std::string>({"[1,x]", "[1.5]", "[1", "1]", "[true]"})); else set_attr(*p.e, "print_warnings", c.pick<std::string>({"x", "1", ""})); return "async"; }
    case 11: { auto p = some(tag({"ros2_control"})); p.e->kids.insert(p.e->kids.begin() + c.below(p.e->kids.size() + 1), el(c.pick<std::string>({"joints", "unknown", "ros2_control", "Joint", "plugin", "param"})).a("name", "n")); return "unknown tag"; }
    case 12:
    {
      auto p = some([](const Place & p) { return p.e->tag == "joint" && p.parent && p.parent->tag == "ros2_control"; });
      if (!p.e) return "";
      std::string n = get_attr(*p.e, "name");
      if (c.coin())
      {
        set_attr(*p.e, "name", c.chance(50) ? n + "0" : "nowhere");
        for (auto & k : d.root.kids) if (k.tag == "joint" && get_attr(k, "name") == get_attr(*p.e, "name")) return "";
        return "joint not in robot";
      }
      for (auto & k : d.root.kids) if (k.tag == "joint" && get_attr(k, "name") == n) { set_attr(k, "type", "fixed"); return "fixed joint"; }
      return "";
    }
    case 13:
    {
      auto p = some([](const Place & p) { return p.e->tag == "joint" && p.parent && p.parent->tag == "ros2_control"; });
      if (!p.e) return "";
      std::string v = c.pick<std::string>({"yes", "", "1"});
      bool has = false;
      for (auto & k : d.root.kids) if (k.tag == "joint" && get_attr(k, "name") == get_attr(*p.e, "name")) for (auto & m : k.kids) has |= m.tag == "mimic";
      if (!has && c.coin()) { set_attr(*p.e, "mimic", "true"); return "mimic without mimic"; }
      if (has && get_attr(*p.e, "mimic") != "false" && c.coin()) { p.e->kids.push_back(el("command_interface").a("name", "position")); return "mimic with command"; }
      set_attr(*p.e, "mimic", v);
      return "mimic " + v;
    }
    case 14: { auto p = some([](const Place & p) { return p.e->tag == "joint" && p.parent && p.parent->tag == "transmission"; }); if (!p.e) return ""; set_attr(*p.e, "name", get_attr(*p.e, "name") + "_other"); return "transmission joint"; }
    case 15:
    {
      auto p = some([](const Place & p) { return p.e->tag == "transmission" && p.parent && get_attr(*p.parent, "type") == "actuator"; });
      if (!p.e) return "";
      if (c.coin()) drop_kid(*p.e, "joint");
      else for (auto k : p.e->kids) if (k.tag == "joint") { p.e->kids.push_back(k); break; }
      return "actuator with other than one joint";
    }
    case 16:
      if (c.coin()) { d.root.tag = c.pick<std::string>({"Robot", "model", "sdf", "robots"}); return "root " + d.root.tag; }
      if (!drop_kid(d.root, "ros2_control")) return "";
      return "no ros2_control";
    case 17:
    {
      std::vector<El *> j;
      for (auto & k : d.root.kids) if (k.tag == "joint") j.push_back(&k);
      if (j.empty()) return "";
      El & x = *c.pick(j);
      std::string t = get_attr(x, "type");
      if ((t == "revolute" || t == "prismatic") && c.coin()) { drop_kid(x, "limit"); return "no limits of a robot joint"; }
      drop_kid(x, c.pick<std::string>({"parent", "child"}));
      return "incomplete robot joint";
    }
    default: d.root.kids.push_back(el("link").a("name", "second_root")); return "two roots";
  }
}
static void broken(Case & c)
{
  Doc d = generate(c);
  std::string how = break_it(c, d);
  if (how.empty()) c.discard();
  c.label("broken: " + how.substr(0, how.find(' ')));
  c.nontrivial();
  std::string doc = document(c, d, c.coin());
  c.note("broken: %s", how.c_str());
  c.notes(doc.substr(0, 20000));
  try { parse_control_resources_from_urdf(doc); }
  catch (const std::exception & e) { c.check(std::string(e.what()).size() > 0, "no_message", "the exception has no message"); return; }
  c.fail("accepted." + how.substr(0, how.find(' ')), "a description with " + how + " was accepted");
}

static void must_end(Case & c, const std::string & doc, bool & accepted)
{
  accepted = false;
  auto t0 = clock();
  try
  {
    auto h = parse_control_resources_from_urdf(doc);
    for (auto & x : h)
      for (auto * comps : {&x.joints, &x.sensors, &x.gpios}) parse_state_interface_descriptions(*comps), parse_command_interface_descriptions(*comps);
    accepted = true;
  }
  catch (const std::exception & e) {}
  catch (...) { c.fail("exception", "something that is not a standard exception was thrown"); }
  double t = double(clock() - t0) / CLOCKS_PER_SEC;
  c.checkf(t < 3 + 1e-4 * doc.size(), "time", "parsing %zu bytes took %.1f s", doc.size(), t);
}
static const std::vector<std::string> TOKENS = {"<robot name=\"r\">", "</robot>", "<ros2_control name=\"a\" type=\"system\">", "</ros2_control>", "<hardware>", "</hardware>", "<plugin>", "</plugin>", "<joint name=\"joint1\">", "</joint>", "<sensor name=\"s\">", "</sensor>",
  "<gpio name=\"g\">", "</gpio>", "<command_interface name=\"position\"", "<state_interface name=\"velocity\"", "/>", ">", "<", "</", "<param name=\"min\">", "</param>", "size=\"3\"", "size=\"", "data_type=\"bool\"", "is_async=\"true\"", "rw_rate=\"10\"",
  "thread_priority=\"", "\"", "'", "=", " ", "<transmission name=\"t\">", "</transmission>", "<mechanical_reduction>", "</mechanical_reduction>", "<actuator name=\"x\" role=\"r\"/>", "role=\"r\"", "<properties>", "</properties>", "<async affinity=\"[1,2\"", "[", "]", ",",
  "<link name=\"l\"/>", "<limits enable=\"true\"/>", "<limits/>", "mimic=\"true\"", "<!--", "-->", "<![CDATA[", "]]>", "<?xml version=\"1.0\"?>", "&lt;", "&#0;", "&#x41;", "&", "<sdf version=\"1.4\">", "</sdf>", "<model>", "</model>", "1e309", "-1", "NaN", "99999999999", std::string("\0", 1), "\xff", "\xef\xbb\xbf", "name", "<name", "<joint", "</"};
static std::string splice(Case & c, std::string s)
{
  size_t n = c.range(1, c.coin() ? 1 : 6);
  for (size_t i = 0; i < n && s.size() < 200000; ++i)
  {
    size_t p = c.below(s.size() + 1), q = c.below(s.size() + 1);
    if (p > q) std::swap(p, q);
    if (c.chance(70)) q = std::min(q, p + c.below(40));
    switch (c.below(7))
    {
      case 0: s.erase(p, q - p); break;
      case 1: s.insert(c.below(s.size() + 1), s.substr(p, q - p)); break;
      case 2: s.insert(p, c.pick(TOKENS)); break;
      case 3: s.replace(p, q - p, c.pick(TOKENS)); break;
      case 4: if (p < s.size()) s[p] = (char)c.below(256); break;
      case 5: s.resize(p); break;
      default:  // change the value of an attribute or text
      {
        size_t a = s.find(c.coin() ? '"' : '>', p);
        if (a == std::string::npos) break;
        size_t b = s.find(s[a] == '>' ? '<' : '"', a + 1);
        if (b == std::string::npos) break;
        s.replace(a + 1, b - a - 1, c.pick<std::string>({"", " ", "0", "-1", "1e999", "nan", "true", "[1,2", "99999999999999999999", "abc", "joint1", "system", "actuator", "sensor"}));
      }
    }
  }
  return s;
}
static void mutated(Case & c)
{
  Doc d = generate(c);
  std::string doc = splice(c, document(c, d, c.coin()));
  c.notes(doc.substr(0, 20000));
  bool ok;
  must_end(c, doc, ok);
  c.label(ok ? "mutant accepted" : "mutant refused");
  c.nontrivial();
}
static void truncated(Case & c)
{
  Doc d = generate(c);
  std::string doc = document(c, d, c.coin());
  size_t end = doc.rfind('>');
  size_t n = c.below(end);
  c.notes(doc.substr(0, n));
  bool ok;
  must_end(c, doc.substr(0, n), ok);
  c.check(!ok, "accepted.truncated", "a truncated description was accepted");
  if (n > 30) c.nontrivial();
}
static void arbitrary(Case & c)
{
  std::string s;
  while (c.more(30) && s.size() < 20000)
    if (c.chance(85)) s += c.pick(TOKENS);
    else s += (char)c.below(256);
  c.notes(s);
  bool ok;
  must_end(c, s, ok);
  c.label(ok ? "text accepted" : "text refused");
  if (s.size() > 20) c.nontrivial();
}
// something long or deep
static void large(Case & c)
{
  size_t n = c.pick({100, 1000, 5000, 20000});
  std::string rep;
  int kind = c.below(9);
  if (kind == 7) n = std::min<size_t>(n, 1000);  // every component keeps a copy of the description
  auto many = [&](const std::string & s) { std::string r; r.reserve(s.size() * n); for (size_t i = 0; i < n; ++i) r += s; return r; };
  std::string pre = "<robot name=\"r\"><link name=\"l\"/><ros2_control name=\"h\" type=\"system\"", mid = "><hardware><plugin>p</plugin>", post = "</hardware></ros2_control></robot>", s;
  switch (kind)
  {
    case 0: s = pre + mid + "<param name=\"a\">" + many("x") + "</param>" + post; break;
    case 1: s = pre + mid + many("<param name=\"a\">b</param>") + post; break;
    case 2: s = pre + mid + "</hardware><gpio name=\"g\">" + many("<state_interface name=\"a\"/>") + "</gpio></ros2_control></robot>"; break;
    case 3: s = pre + mid + "</hardware><properties><async affinity=\"[" + many("1,") + "1]\"/></properties></ros2_control></robot>"; break;
    case 4: s = pre + mid + many("<a>") + many("</a>") + post; break;
    case 5: s = pre + " rw_rate=\"" + many("1") + "\"" + mid + post; break;
    case 6: s = pre + mid + "</hardware><gpio name=\"g\"><state_interface name=\"a\" size=\"" + many("1") + "\"/></gpio></ros2_control></robot>"; break;
    case 7: s = "<robot name=\"r\"><link name=\"l\"/>" + many("<ros2_control name=\"h\" type=\"sensor\"/>") + "</robot>"; break;
    default: s = pre + " is_async=\"true\" thread_priority=\"" + many("1") + "\"" + mid + post;
  }
  c.note("kind %d times %zu", kind, n);
  c.label(strf("large kind %d", kind));
  c.nontrivial();
  bool ok;
  must_end(c, s, ok);
  if (kind == 4) return;
  bool want = kind <= 3 || kind == 7;
  c.checkf(ok == want, "large", "a long description of kind %d was %s", kind, ok ? "accepted" : "refused");
}

int main(int argc, char ** argv)
{
  Options o;
  o.property = getenv("PBT_PROPERTY") ? getenv("PBT_PROPERTY") : "C09";
  bool robust = o.property == "C10";
  o.rule = robust ? "broken in one documented way, mutated, truncated or assembled from more than 20 bytes" : "more than one joint, sensor or GPIO is declared";
  o.quick_cases = robust ? 60000 : 20000;
  o.thorough_cases = robust ? 3000000 : 1500000;
  o.quick_cap_s = 45;
  o.thorough_cap_s = 600;
  o.assumptions = {"the robot model itself is parsed by urdfdom", "parameter names are not repeated within one element",
    "invalid numbers of optional transmission reductions and offsets are unspecified (the default is used)"};
  if (robust) return run(argc, argv, o, {{"broken", 5, broken}, {"mutated", 5, mutated}, {"truncated", 1, truncated}, {"arbitrary", 3, arbitrary}, {"large", 1, large}});
  return run(argc, argv, o, {{"round_trip", 1, round_trip}});
}
