#!/usr/bin/env python3
"""Generate forwarding headers, controller_manager_msgs structs and the parameter library header.

usage: gen.py REPO OUTDIR     (writes OUTDIR/include/...; files are only rewritten when changed)
"""
import os, re, sys
import yaml

REPO, OUT = sys.argv[1], sys.argv[2]
INC = os.path.join(OUT, "include")

def emit(path, text):
    p = os.path.join(INC, path)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == text:
        return
    with open(p, "w") as f:
        f.write(text)

FWD = {
    "shim/core.hpp": """rclcpp/clock.hpp rclcpp/duration.hpp rclcpp/executor.hpp rclcpp/executor_options.hpp rclcpp/executors.hpp
        rclcpp/executors/multi_threaded_executor.hpp rclcpp/executors/single_threaded_executor.hpp rclcpp/logger.hpp rclcpp/logging.hpp rclcpp/node.hpp
        rclcpp/node_interfaces/node_clock_interface.hpp rclcpp/node_interfaces/node_logging_interface.hpp
        rclcpp/node_interfaces/node_parameters_interface.hpp
        rclcpp/node_options.hpp rclcpp/parameter.hpp rclcpp/parameter_value.hpp rclcpp/rclcpp.hpp rclcpp/subscription.hpp rclcpp/publisher.hpp rclcpp/time.hpp
        rclcpp/utilities.hpp rclcpp/version.h rcl/arguments.h""",
    "shim/lifecycle.hpp": """rclcpp_lifecycle/lifecycle_node.hpp rclcpp_lifecycle/node_interfaces/lifecycle_node_interface.hpp
        rclcpp_lifecycle/state.hpp lifecycle_msgs/msg/state.hpp lifecycle_msgs/msg/transition.hpp""",
    "shim/msgs.hpp": """control_msgs/msg/hardware_status.hpp diagnostic_updater/diagnostic_updater.hpp
        diagnostic_msgs/msg/diagnostic_status.hpp example_interfaces/srv/set_bool.hpp geometry_msgs/msg/pose.hpp geometry_msgs/msg/wrench.hpp
        sensor_msgs/msg/imu.hpp sensor_msgs/msg/magnetic_field.hpp sensor_msgs/msg/nav_sat_fix.hpp sensor_msgs/msg/range.hpp
        std_msgs/msg/color_rgba.hpp std_msgs/msg/float64_multi_array.hpp std_msgs/msg/string.hpp
        trajectory_msgs/msg/joint_trajectory_point.hpp""",
    "shim/rt.hpp": """realtime_tools/async_function_handler.hpp realtime_tools/mutex.hpp realtime_tools/realtime_buffer.hpp
        realtime_tools/realtime_helpers.hpp realtime_tools/realtime_publisher.hpp realtime_tools/realtime_thread_safe_box.hpp""",
    "shim/pal.hpp": """pal_statistics/pal_statistics_macros.hpp pal_statistics/pal_statistics_utils.hpp
        libstatistics_collector/moving_average_statistics/moving_average.hpp libstatistics_collector/moving_average_statistics/types.hpp""",
    "shim/plugin.hpp": "pluginlib/class_list_macros.hpp pluginlib/class_loader.hpp pluginlib/exceptions.hpp",
    "shim/misc.hpp": "rcutils/logging_macros.h rcpputils/pointer_traits.hpp",
    "shim/urdf.hpp": "urdf/model.h urdf/model.hpp",
}
for tgt, srcs in FWD.items():
    for s in srcs.split():
        emit(s, f"#pragma once\n#include \"{tgt}\"\n")

# ------------------------------------------------------------------ plugin descriptions: class name -> type
import xml.etree.ElementTree as ET
alias = []
for d in ("joint_limits", "transmission_interface", "hardware_interface"):
    for fn in sorted(os.listdir(os.path.join(REPO, d))):
        if fn.endswith(".xml") and fn != "package.xml":
            for c in ET.parse(os.path.join(REPO, d, fn)).iter("class"):
                alias.append((c.get("name") or c.get("type"), c.get("type"), c.get("base_class_type")))
for fn in os.environ.get("SHIM_EXTRA_XML", "").split():
    for c in ET.parse(fn).iter("class"):
        alias.append((c.get("name") or c.get("type"), c.get("type"), c.get("base_class_type")))
emit("shim/plugin_aliases.hpp", "#pragma once\nnamespace shim { struct PluginAlias { const char * name, * type, * base; };\ninline constexpr PluginAlias plugin_aliases[] = {\n"
     + "".join('  {"%s", "%s", "%s"},\n' % a for a in alias) + "}; }\n")

# ------------------------------------------------------------------ controller_manager_msgs
PRIM = {"string": "std::string", "bool": "bool", "uint16": "uint16_t", "uint8": "uint8_t", "int32": "int32_t", "uint32": "uint32_t",
        "int64": "int64_t", "float64": "double", "float32": "float", "uint64": "uint64_t", "int8": "int8_t", "int16": "int16_t"}
def snake(n):
    return re.sub(r"(?<=[a-z0-9])([A-Z])", r"_\1", n).lower()
def cpptype(t):
    arr = t.endswith("[]")
    b = t[:-2] if arr else t
    inc = None
    if b in PRIM:
        c = PRIM[b]
    else:
        pkg, name = b.split("/") if "/" in b else ("controller_manager_msgs", b)
        c = f"{pkg}::msg::{name}"
        if pkg == "controller_manager_msgs":
            inc = f"controller_manager_msgs/msg/{snake(name)}.hpp"
        elif b == "Header":
            c = "std_msgs::msg::Header"
    return (f"std::vector<{c}>" if arr else c), inc
def fields(text, owner):
    out, incs = [], set()
    for line in text.splitlines():
        line = line.split("#")[0].strip()
        if not line:
            continue
        m = re.match(r"(\S+)\s+([A-Za-z_]\w*)\s*=\s*(.+)$", line)
        if m:
            c, _ = cpptype(m.group(1))
            out.append(f"  static constexpr {c} {m.group(2)} = {m.group(3)};" if c != "std::string" else f"  static constexpr const char * {m.group(2)} = {m.group(3)};")
            continue
        t, n = line.split()[:2]
        c, inc = cpptype(t)
        if inc:
            incs.add(inc)
        out.append(f"  {c} {n}{{}};")
    out.append(f"  using SharedPtr = std::shared_ptr<{owner}>; using ConstSharedPtr = std::shared_ptr<const {owner}>;")
    return "\n".join(out), incs
MSGS = os.path.join(REPO, "controller_manager_msgs")
for kind in ("msg", "srv"):
    for fn in sorted(os.listdir(os.path.join(MSGS, kind))):
        name, ext = os.path.splitext(fn)
        if ext != "." + kind:
            continue
        text = open(os.path.join(MSGS, kind, fn)).read()
        head = "#pragma once\n#include \"shim/msgs.hpp\"\n"
        if kind == "msg":
            body, incs = fields(text, name)
            s = f"namespace controller_manager_msgs::msg {{\nstruct {name}\n{{\n{body}\n}};\n}}\n"
        else:
            req, res = (re.split(r"(?m)^---\s*$", text) + [""])[:2]
            b1, i1 = fields(req, "Request")
            b2, i2 = fields(res, "Response")
            # constants live in Request in rosidl as well
            s = (f"namespace controller_manager_msgs::srv {{\nstruct {name}_Request;\nstruct {name}\n{{\n struct Request\n {{\n{b1}\n }};\n"
                 f" struct Response\n {{\n{b2}\n }};\n}};\n}}\n")
            incs = i1 | i2
        emit(f"controller_manager_msgs/{kind}/{snake(name)}.hpp", head + "".join(f"#include \"{i}\"\n" for i in sorted(incs)) + s)

# ------------------------------------------------------------------ controller_manager parameters
doc = yaml.safe_load(open(os.path.join(REPO, "controller_manager/src/controller_manager_parameters.yaml")))
ns, tree = next(iter(doc.items()))
CT = {"int": "int64_t", "bool": "bool", "double": "double", "string": "std::string", "string_array": "std::vector<std::string>",
      "double_array": "std::vector<double>", "int_array": "std::vector<int64_t>"}
PT = {"int": "PARAMETER_INTEGER", "bool": "PARAMETER_BOOL", "double": "PARAMETER_DOUBLE", "string": "PARAMETER_STRING", "string_array": "PARAMETER_STRING_ARRAY",
      "double_array": "PARAMETER_DOUBLE_ARRAY", "int_array": "PARAMETER_INTEGER_ARRAY"}
leaves = []
def lit(t, v):
    if t == "bool":
        return "true" if v else "false"
    if t == "string":
        return '"%s"' % v
    if t.endswith("_array"):
        return "{" + ", ".join(lit(t[:-6], x) for x in v) + "}"
    return repr(float(v)) if t == "double" else str(int(v))
def struct(node, path, ind):
    out = ""
    for k, v in node.items():
        if isinstance(v, dict) and "type" in v and isinstance(v["type"], str):
            t = v["type"]
            leaves.append((".".join(path + [k]), t, v))
            d = lit(t, v["default_value"]) if "default_value" in v else ("{}" if t.endswith("array") or t == "string" else lit(t, 0))
            out += f"{ind}{CT[t]} {k} = {d};\n"
        else:
            sub = struct(v, path + [k], ind + "  ")
            cap = "".join(p.capitalize() for p in k.split("_"))
            out += f"{ind}struct {cap} {{\n{sub}{ind}}} {k};\n"
    return out
body = struct(tree, [], "  ")
decl = get = val = ""
for name, t, v in leaves:
    ro = "true" if v.get("read_only") else "false"
    decl += f"    if (!p_->has_parameter(prefix_ + \"{name}\")) {{ rcl_interfaces::msg::ParameterDescriptor d; d.read_only = {ro};\n"
    if "default_value" in v:
        decl += f"      p_->declare_parameter(prefix_ + \"{name}\", rclcpp::ParameterValue(params_.{name}), d); }}\n"
    else:
        decl += f"      p_->declare_parameter(prefix_ + \"{name}\", rclcpp::ParameterType::{PT[t]}, d); }}\n"
    get += f"    {{ auto p = p_->get_parameter(prefix_ + \"{name}\"); u.{name} = p.get_value<{CT[t]}>(); }}\n"
    for vn, arg in (v.get("validation") or {}).items():
        vn = vn.replace("<>", "")
        a = arg[0] if isinstance(arg, list) and len(arg) == 1 else arg
        if vn == "gt":
            cond = f"u.{name} > {lit(t, a)}"
        elif vn == "gt_eq":
            cond = f"u.{name} >= {lit(t, a)}"
        elif vn == "lt_eq":
            cond = f"u.{name} <= {lit(t, a)}"
        elif vn == "lt":
            cond = f"u.{name} < {lit(t, a)}"
        elif vn == "bounds":
            cond = f"u.{name} >= {lit(t, arg[0])} && u.{name} <= {lit(t, arg[1])}"
        elif vn == "unique":
            cond = f"std::set<std::string>(u.{name}.begin(), u.{name}.end()).size() == u.{name}.size()"
        elif vn == "not_empty":
            cond = f"!u.{name}.empty()"
        elif vn == "one_of":
            cond = " || ".join(f"u.{name} == {lit('string', x)}" for x in a)
        else:
            raise SystemExit(f"unknown validator {vn}")
        val += f"    if (!({cond})) return \"Invalid value set during initialization for parameter '{name}': {vn}\";\n"
emit("controller_manager/controller_manager_parameters.hpp", f"""// generated
#pragma once
#include "shim/core.hpp"
namespace {ns}
{{
struct Params
{{
{body}  uint64_t shim_stamp = 0;
}};
class ParamListener
{{
public:
  ParamListener(rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p, rclcpp::Logger = rclcpp::Logger(), const std::string & prefix = "")
  : p_(p), prefix_(prefix.empty() || prefix.back() == '.' ? prefix : prefix + ".")
  {{
{decl}    auto u = read();
    auto e = check(u); if (!e.empty()) throw rclcpp::exceptions::InvalidParameterValueException(e);
    params_ = u; params_.shim_stamp = ++stamp_;
    cb_ = p_->add_on_set_parameters_callback([this](const std::vector<rclcpp::Parameter> &) {{ ++stamp_; return rcl_interfaces::msg::SetParametersResult(); }});
  }}
  Params get_params() const {{ auto u = read(); u.shim_stamp = stamp_; return u; }}
  bool is_old(const Params & o) const {{ return o.shim_stamp != stamp_; }}
  void refresh_dynamic_parameters() {{}}
private:
  Params read() const
  {{
    Params u;
{get}    return u;
  }}
  static std::string check(const Params & u)
  {{
    (void)u;
{val}    return "";
  }}
  rclcpp::node_interfaces::NodeParametersInterface::SharedPtr p_; std::string prefix_; Params params_; uint64_t stamp_ = 0;
  rclcpp::node_interfaces::OnSetParametersCallbackHandle::SharedPtr cb_;
}};
}}  // namespace {ns}
""")
