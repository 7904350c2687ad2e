// Minimal, dependency-free stand-in for the parts of rclcpp that ros2_control uses.
// It exists because the sandbox has no ROS installation.  It is *not* derived from rclcpp sources;
// it re-implements the documented behaviour of the classes that the code under test relies on.
#ifndef SHIM_CORE_HPP_
#define SHIM_CORE_HPP_

#include <algorithm>
#include <array>
#include <atomic>
#include <chrono>
#include <cassert>
#include <cinttypes>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <exception>
#include <functional>
#include <future>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>
#include <regex>

#define RCLCPP_VERSION_MAJOR 30
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_GTE(major, minor, patch) \
  (RCLCPP_VERSION_MAJOR > (major) || \
   (RCLCPP_VERSION_MAJOR == (major) && (RCLCPP_VERSION_MINOR > (minor) || \
   (RCLCPP_VERSION_MINOR == (minor) && RCLCPP_VERSION_PATCH >= (patch)))))

#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_PARAM_FLAG "--param"
#define RCL_REMAP_FLAG "--remap"

typedef int64_t rcl_time_point_value_t;
typedef int64_t rcl_duration_value_t;
typedef enum rcl_clock_type_e
{
  RCL_CLOCK_UNINITIALIZED = 0,
  RCL_ROS_TIME,
  RCL_SYSTEM_TIME,
  RCL_STEADY_TIME
} rcl_clock_type_t;

#define RCL_S_TO_NS(s) (static_cast<int64_t>(s) * 1000000000LL)
#define RCL_MS_TO_NS(s) (static_cast<int64_t>(s) * 1000000LL)

typedef enum { RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT, RMW_QOS_POLICY_HISTORY_KEEP_LAST, RMW_QOS_POLICY_HISTORY_KEEP_ALL } rmw_qos_history_policy_t;

namespace builtin_interfaces::msg
{
struct Time { int32_t sec = 0; uint32_t nanosec = 0; };
struct Duration { int32_t sec = 0; uint32_t nanosec = 0; };
inline bool operator==(const Time & a, const Time & b) { return a.sec == b.sec && a.nanosec == b.nanosec; }
inline bool operator==(const Duration & a, const Duration & b) { return a.sec == b.sec && a.nanosec == b.nanosec; }
}  // namespace builtin_interfaces::msg

namespace rcl_interfaces::msg
{
struct FloatingPointRange { double from_value = 0, to_value = 0, step = 0; };
struct IntegerRange { int64_t from_value = 0, to_value = 0; uint64_t step = 0; };
struct ParameterDescriptor
{
  std::string name; uint8_t type = 0; std::string description; std::string additional_constraints;
  bool read_only = false; bool dynamic_typing = false;
  std::vector<FloatingPointRange> floating_point_range; std::vector<IntegerRange> integer_range;
};
struct SetParametersResult { bool successful = true; std::string reason; };
struct ParameterType { enum : uint8_t { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY }; };
}  // namespace rcl_interfaces::msg

namespace shim
{
// ---------------------------------------------------------------- controllable time
struct FakeClock
{
  std::atomic<bool> enabled{false};
  std::atomic<bool> ros_started{true};
  std::atomic<int64_t> now_ns{1'000'000'000};
};
inline FakeClock & fake_clock() { static FakeClock c; return c; }
// ---------------------------------------------------------------- logging sink
inline std::atomic<int> & log_level() { static std::atomic<int> l{[]{ const char * e = std::getenv("SHIM_LOG"); return e ? std::atoi(e) : 100; }()}; return l; }
inline std::atomic<bool> & ok_flag() { static std::atomic<bool> f{true}; return f; }
inline void vlog(int level, const char * name, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
inline void vlog(int level, const char * name, const char * fmt, ...)
{
  if (level < log_level()) return;
  va_list ap; va_start(ap, fmt);
  std::fprintf(stderr, "[%d][%s] ", level, name);
  std::vfprintf(stderr, fmt, ap);
  std::fputc('\n', stderr);
  va_end(ap);
}
}  // namespace shim

namespace shim { inline std::vector<std::string> & global_args() { static std::vector<std::string> a; return a; } }
namespace rclcpp
{
inline bool ok() { return shim::ok_flag().load(); }
inline void init(int argc, const char * const * argv) { shim::ok_flag() = true; shim::global_args().assign(argv, argv + argc); }
inline bool shutdown() { shim::ok_flag() = false; return true; }
inline bool shutdown(const char *) { return shutdown(); }

namespace exceptions
{
struct InvalidNodeNameError : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error { InvalidParameterTypeException(const std::string & n, const std::string & m) : std::runtime_error("parameter '" + n + "' has invalid type: " + m) {} };
struct InvalidParameterValueException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterUninitializedException : std::runtime_error { explicit ParameterUninitializedException(const std::string & n) : std::runtime_error("parameter '" + n + "' is not initialized") {} };
struct NoParameterOverrideProvided : std::runtime_error { using std::runtime_error::runtime_error; };
}  // namespace exceptions
struct ParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------- Duration / Time / Clock
class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns) {}
  template <class Rep, class Period>
  Duration(const std::chrono::duration<Rep, Period> & d)  // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(static_cast<int64_t>(m.sec) * 1000000000LL + m.nanosec) {}  // NOLINT
  Duration(const Duration &) = default;
  Duration & operator=(const Duration &) = default;
  operator builtin_interfaces::msg::Duration() const { builtin_interfaces::msg::Duration m; m.sec = static_cast<int32_t>(ns_ / 1000000000LL); m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL); return m; }
  static Duration from_nanoseconds(int64_t ns) { Duration d(0, 0); d.ns_ = ns; return d; }
  static Duration from_seconds(double s) { Duration d(0, 0); d.ns_ = static_cast<int64_t>(s * 1e9); return d; }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) / 1e9; }
  template <class D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_)); }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration operator*(double k) const { return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * k)); }

private:
  int64_t ns_ = 0;
};

class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns), t_(t)
  { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t)
  { if (ns < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns_(static_cast<int64_t>(m.sec) * 1000000000LL + m.nanosec), t_(t) {}  // NOLINT
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  operator builtin_interfaces::msg::Time() const { builtin_interfaces::msg::Time m; m.sec = static_cast<int32_t>(ns_ / 1000000000LL); m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL); return m; }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) / 1e9; }
  rcl_clock_type_t get_clock_type() const { return t_; }
  bool operator==(const Time & o) const { chk(o, "=="); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o, "<"); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o, "<="); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o, ">"); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o, ">="); return ns_ >= o.ns_; }
  Duration operator-(const Time & o) const { if (t_ != o.t_) throw std::runtime_error("can't subtract times with different time sources [" + std::to_string(t_) + " != " + std::to_string(o.t_) + "]"); return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), t_); }
  Time & operator+=(const Duration & d) { *this = *this + d; return *this; }
  Time & operator-=(const Duration & d) { *this = *this - d; return *this; }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), t_); }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int64_t>::max(), t); }

private:
  void chk(const Time & o, const char *) const { if (t_ != o.t_) throw std::runtime_error("can't compare times with different time sources"); }
  int64_t ns_; rcl_clock_type_t t_;
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const
  {
    if (shim::fake_clock().enabled) return Time(shim::fake_clock().now_ns.load(), t_);
    if (t_ == RCL_STEADY_TIME) return Time(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(), t_);
    return Time(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count(), t_);
  }
  rcl_clock_type_t get_clock_type() const noexcept { return t_; }
  bool started() { return t_ != RCL_ROS_TIME || shim::fake_clock().ros_started; }
  bool wait_until_started() { return true; }
  bool sleep_until(Time until) { if (until.get_clock_type() != t_) throw std::runtime_error("until's clock type does not match this clock's type"); if (shim::fake_clock().enabled) { if (until.nanoseconds() > shim::fake_clock().now_ns) shim::fake_clock().now_ns = until.nanoseconds(); return true; } auto d = until - now(); if (d.nanoseconds() > 0) std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds())); return true; }
  bool sleep_for(Duration d) { return sleep_until(now() + d); }
  bool ros_time_is_active() { return t_ == RCL_ROS_TIME && shim::fake_clock().enabled; }

private:
  rcl_clock_type_t t_;
};

// ---------------------------------------------------------------- logging
class Logger
{
public:
  Logger() = default;
  explicit Logger(std::string n) : name_(std::move(n)) {}
  const char * get_name() const { return name_.c_str(); }
  Logger get_child(const std::string & s) const { return Logger(name_ + "." + s); }
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  void set_level(Level) {}
  Level get_effective_level() const { return Level::Info; }

private:
  std::string name_;
};
inline Logger get_logger(const std::string & n) { return Logger(n); }

#define SHIM_LOG_(lvl, logger, ...) do { const auto & shim_lg_ = (logger); ::shim::vlog(lvl, shim_lg_.get_name(), __VA_ARGS__); } while (0)
#define SHIM_LOG_EXPR_(lvl, logger, expr, ...) do { if (expr) { SHIM_LOG_(lvl, logger, __VA_ARGS__); } } while (0)
#define SHIM_LOG_THR_(lvl, logger, clock, dur, ...) do { (void)(clock).get_clock_type(); (void)(dur); SHIM_LOG_(lvl, logger, __VA_ARGS__); } while (0)
#define SHIM_LOG_STREAM_(lvl, logger, ...) do { std::stringstream shim_ss_; shim_ss_ << __VA_ARGS__; SHIM_LOG_(lvl, logger, "%s", shim_ss_.str().c_str()); } while (0)
#define RCLCPP_DEBUG(logger, ...) SHIM_LOG_(10, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SHIM_LOG_(20, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SHIM_LOG_(30, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SHIM_LOG_(40, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SHIM_LOG_(50, logger, __VA_ARGS__)
#define RCLCPP_DEBUG_ONCE RCLCPP_DEBUG
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define RCLCPP_DEBUG_EXPRESSION(logger, expr, ...) SHIM_LOG_EXPR_(10, logger, expr, __VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(logger, expr, ...) SHIM_LOG_EXPR_(20, logger, expr, __VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(logger, expr, ...) SHIM_LOG_EXPR_(30, logger, expr, __VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(logger, expr, ...) SHIM_LOG_EXPR_(40, logger, expr, __VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(logger, expr, ...) SHIM_LOG_EXPR_(50, logger, expr, __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(logger, clock, dur, ...) SHIM_LOG_THR_(10, logger, clock, dur, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clock, dur, ...) SHIM_LOG_THR_(20, logger, clock, dur, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clock, dur, ...) SHIM_LOG_THR_(30, logger, clock, dur, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clock, dur, ...) SHIM_LOG_THR_(40, logger, clock, dur, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST_THROTTLE(logger, clock, dur, ...) SHIM_LOG_THR_(30, logger, clock, dur, __VA_ARGS__)
#define RCLCPP_DEBUG_SKIPFIRST RCLCPP_DEBUG
#define RCLCPP_INFO_SKIPFIRST RCLCPP_INFO
#define RCLCPP_WARN_SKIPFIRST RCLCPP_WARN
#define RCLCPP_DEBUG_STREAM(logger, ...) SHIM_LOG_STREAM_(10, logger, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(logger, ...) SHIM_LOG_STREAM_(20, logger, __VA_ARGS__)
#define RCLCPP_WARN_STREAM(logger, ...) SHIM_LOG_STREAM_(30, logger, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM(logger, ...) SHIM_LOG_STREAM_(40, logger, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM(logger, ...) SHIM_LOG_STREAM_(50, logger, __VA_ARGS__)
#define RCLCPP_WARN_STREAM_THROTTLE(logger, clock, dur, ...) SHIM_LOG_STREAM_(30, logger, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_THROTTLE(logger, clock, dur, ...) SHIM_LOG_STREAM_(40, logger, __VA_ARGS__)
#define RCLCPP_WARN_STREAM_EXPRESSION(logger, expr, ...) do { if (expr) { SHIM_LOG_STREAM_(30, logger, __VA_ARGS__); } } while (0)

// ---------------------------------------------------------------- parameters
enum class ParameterType : uint8_t
{
  PARAMETER_NOT_SET = 0, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING,
  PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY,
  PARAMETER_STRING_ARRAY
};
using PARAMETER_NOT_SET_T = std::monostate;
inline const char * to_string(ParameterType t)
{
  static const char * n[] = {"not set", "bool", "integer", "double", "string", "byte_array", "bool_array", "integer_array", "double_array", "string_array"};
  return n[static_cast<int>(t)];
}
class ParameterValue
{
public:
  using V = std::variant<std::monostate, bool, int64_t, double, std::string, std::vector<uint8_t>, std::vector<bool>, std::vector<int64_t>, std::vector<double>, std::vector<std::string>>;
  ParameterValue() = default;
  explicit ParameterValue(bool v) : v_(v) {}
  explicit ParameterValue(int v) : v_(static_cast<int64_t>(v)) {}
  explicit ParameterValue(int64_t v) : v_(v) {}
  explicit ParameterValue(float v) : v_(static_cast<double>(v)) {}
  explicit ParameterValue(double v) : v_(v) {}
  explicit ParameterValue(const char * v) : v_(std::string(v)) {}
  explicit ParameterValue(const std::string & v) : v_(v) {}
  explicit ParameterValue(const std::vector<uint8_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<bool> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<int> & v) : v_(std::vector<int64_t>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<int64_t> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<float> & v) : v_(std::vector<double>(v.begin(), v.end())) {}
  explicit ParameterValue(const std::vector<double> & v) : v_(v) {}
  explicit ParameterValue(const std::vector<std::string> & v) : v_(v) {}
  ParameterType get_type() const { return static_cast<ParameterType>(v_.index()); }
  const V & raw() const { return v_; }
  bool operator==(const ParameterValue & o) const { return v_ == o.v_; }
  template <class T> T get() const
  {
    using D = std::decay_t<T>;
    auto need = [&](auto tag) -> const decltype(tag) & {
      if (auto * p = std::get_if<decltype(tag)>(&v_)) return *p;
      throw ParameterTypeException(std::string("expected another type, got [") + to_string(get_type()) + "]");
    };
    if constexpr (std::is_same_v<D, bool>) return need(bool{});
    else if constexpr (std::is_integral_v<D>) return static_cast<D>(need(int64_t{}));
    else if constexpr (std::is_floating_point_v<D>) return static_cast<D>(need(double{}));
    else if constexpr (std::is_same_v<D, std::string>) return need(std::string{});
    else if constexpr (std::is_same_v<D, std::vector<int>>) { auto & x = need(std::vector<int64_t>{}); return D(x.begin(), x.end()); }
    else if constexpr (std::is_same_v<D, std::vector<float>>) { auto & x = need(std::vector<double>{}); return D(x.begin(), x.end()); }
    else return need(D{});
  }
private:
  V v_;
};

class Parameter
{
public:
  Parameter() = default;
  explicit Parameter(std::string n) : name_(std::move(n)) {}
  Parameter(std::string n, const ParameterValue & v) : name_(std::move(n)), v_(v) {}
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ParameterValue>>>
  Parameter(std::string n, T v) : name_(std::move(n)), v_(ParameterValue(v)) {}
  const std::string & get_name() const { return name_; }
  ParameterType get_type() const { return v_.get_type(); }
  std::string get_type_name() const { return to_string(get_type()); }
  const ParameterValue & get_parameter_value() const { return v_; }
  template <class T> T get_value() const
  {
    try { return v_.get<T>(); } catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(name_, e.what()); }
  }
  bool as_bool() const { return get_value<bool>(); }
  int64_t as_int() const { return get_value<int64_t>(); }
  double as_double() const { return get_value<double>(); }
  const std::string as_string() const { return get_value<std::string>(); }
  std::vector<std::string> as_string_array() const { return get_value<std::vector<std::string>>(); }
  std::vector<double> as_double_array() const { return get_value<std::vector<double>>(); }
  std::vector<int64_t> as_integer_array() const { return get_value<std::vector<int64_t>>(); }
  std::vector<bool> as_bool_array() const { return get_value<std::vector<bool>>(); }
  bool operator==(const Parameter & o) const { return name_ == o.name_ && v_ == o.v_; }
private:
  std::string name_; ParameterValue v_;
};

// ---------------------------------------------------------------- options / context / qos
struct PreShutdownCallbackHandle { std::weak_ptr<std::function<void()>> cb; };
using OnShutdownCallbackHandle = PreShutdownCallbackHandle;
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
  PreShutdownCallbackHandle add_pre_shutdown_callback(std::function<void()> f) { auto p = std::make_shared<std::function<void()>>(std::move(f)); cbs_.push_back(p); return PreShutdownCallbackHandle{p}; }
  bool remove_pre_shutdown_callback(const PreShutdownCallbackHandle & h) { auto p = h.cb.lock(); auto it = std::find(cbs_.begin(), cbs_.end(), p); if (it == cbs_.end()) return false; cbs_.erase(it); return true; }
  std::vector<std::shared_ptr<std::function<void()>>> cbs_;
};
inline Context::SharedPtr default_context() { static auto c = std::make_shared<Context>(); return c; }
namespace contexts { inline Context::SharedPtr get_global_default_context() { return default_context(); } }

class NodeOptions
{
public:
  NodeOptions & arguments(const std::vector<std::string> & a) { args_ = a; return *this; }
  const std::vector<std::string> & arguments() const { return args_; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) { ov_ = p; return *this; }
  std::vector<Parameter> & parameter_overrides() { return ov_; }
  const std::vector<Parameter> & parameter_overrides() const { return ov_; }
  template <class T> NodeOptions & append_parameter_override(const std::string & n, const T & v) { ov_.emplace_back(n, ParameterValue(v)); return *this; }
#define SHIM_OPT(name, def) bool name##_ = def; bool name() const { return name##_; } NodeOptions & name(bool v) { name##_ = v; return *this; }
  SHIM_OPT(use_global_arguments, true)
  SHIM_OPT(use_intra_process_comms, false)
  SHIM_OPT(enable_rosout, true)
  SHIM_OPT(start_parameter_services, true)
  SHIM_OPT(start_parameter_event_publisher, true)
  SHIM_OPT(allow_undeclared_parameters, false)
  SHIM_OPT(automatically_declare_parameters_from_overrides, false)
  SHIM_OPT(enable_logger_service, false)
#undef SHIM_OPT
private:
  std::vector<std::string> args_; std::vector<Parameter> ov_;
};
struct QoSInitialization { QoSInitialization(rmw_qos_history_policy_t, size_t) {} };
class QoS
{
public:
  QoS(size_t = 10) {}  // NOLINT
  QoS(const QoSInitialization &) {}  // NOLINT
  QoS & reliable() { return *this; }
  QoS & best_effort() { return *this; }
  QoS & durability_volatile() { return *this; }
  QoS & transient_local() { return *this; }
  QoS & keep_last(size_t) { return *this; }
  QoS & keep_all() { return *this; }
};
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(10) {} };
struct ServicesQoS : QoS { ServicesQoS() : QoS(10) {} };

enum class CallbackGroupType { MutuallyExclusive, Reentrant };
class CallbackGroup { public: using SharedPtr = std::shared_ptr<CallbackGroup>; };
class TimerBase
{
public:
  using SharedPtr = std::shared_ptr<TimerBase>;
  explicit TimerBase(std::function<void()> f) : f_(std::move(f)) {}
  void cancel() { canceled_ = true; }
  bool is_canceled() { return canceled_; }
  void reset() { canceled_ = false; }
  void execute_callback() { if (!canceled_) f_(); }
private:
  std::function<void()> f_; bool canceled_ = false;
};
class PublisherBase { public: virtual ~PublisherBase() = default; };
}  // namespace rclcpp

namespace shim
{
struct TopicRecord { std::shared_ptr<void> last; size_t count = 0; };
inline std::map<std::string, TopicRecord> & topics() { static std::map<std::string, TopicRecord> t; return t; }
inline std::recursive_mutex & topics_mutex() { static std::recursive_mutex m; return m; }
}  // namespace shim

namespace rclcpp
{
template <class M>
class Publisher : public PublisherBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  explicit Publisher(std::string t) : t_(std::move(t)) {}
  void publish(const M & m)
  {
    std::lock_guard<std::recursive_mutex> g(shim::topics_mutex());
    auto & r = shim::topics()[t_]; r.last = std::make_shared<M>(m); ++r.count; last_ = m;
  }
  void publish(std::unique_ptr<M> m) { publish(*m); }
  const char * get_topic_name() const { return t_.c_str(); }
  size_t get_subscription_count() const { return 0; }
  std::optional<M> last_;
private:
  std::string t_;
};
template <class M>
class Subscription
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  explicit Subscription(std::string t) : t_(std::move(t)) {}
  const char * get_topic_name() const { return t_.c_str(); }
  size_t get_publisher_count() const { return 0; }
  std::function<void(std::shared_ptr<M>)> cb_;
private:
  std::string t_;
};
class ServiceBase { public: virtual ~ServiceBase() = default; };
}  // namespace rclcpp
namespace shim { inline std::map<std::string, rclcpp::ServiceBase *> & services() { static auto * m = new std::map<std::string, rclcpp::ServiceBase *>; return *m; } }
namespace rclcpp
{
template <class S>
class Service : public ServiceBase
{
public:
  using SharedPtr = std::shared_ptr<Service<S>>;
  using Cb = std::function<void(std::shared_ptr<typename S::Request>, std::shared_ptr<typename S::Response>)>;
  Service(std::string n, Cb c) : name_(std::move(n)), cb_(std::move(c)) { shim::services()[name_] = this; }
  ~Service() override { auto it = shim::services().find(name_); if (it != shim::services().end() && it->second == this) shim::services().erase(it); }
  const char * get_service_name() const { return name_.c_str(); }
  std::shared_ptr<typename S::Response> call(std::shared_ptr<typename S::Request> r) { auto res = std::make_shared<typename S::Response>(); cb_(r, res); return res; }
private:
  std::string name_; Cb cb_;
};

namespace node_interfaces
{
struct OnSetParametersCallbackHandle { using SharedPtr = std::shared_ptr<OnSetParametersCallbackHandle>; std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> callback; };
struct PostSetParametersCallbackHandle { using SharedPtr = std::shared_ptr<PostSetParametersCallbackHandle>; std::function<void(const std::vector<Parameter> &)> callback; };
struct PreSetParametersCallbackHandle { using SharedPtr = std::shared_ptr<PreSetParametersCallbackHandle>; };

class NodeBaseInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeBaseInterface>;
  NodeBaseInterface(std::string n, std::string ns) : name_(std::move(n)), ns_(std::move(ns)) { if (ns_.empty() || ns_[0] != '/') ns_ = "/" + ns_; }
  virtual ~NodeBaseInterface() = default;
  const char * get_name() const { return name_.c_str(); }
  const char * get_namespace() const { return ns_.c_str(); }
  const char * get_fully_qualified_name() const { fq_ = (ns_ == "/" ? "" : ns_) + "/" + name_; return fq_.c_str(); }
  Context::SharedPtr get_context() { return default_context(); }
  std::atomic_bool & get_associated_with_executor_atomic() { return assoc_; }
  std::string name_, ns_; mutable std::string fq_; std::atomic_bool assoc_{false};
};
class NodeClockInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeClockInterface>;
  explicit NodeClockInterface(Clock::SharedPtr c) : c_(std::move(c)) {}
  Clock::SharedPtr get_clock() { return c_; }
  Clock::ConstSharedPtr get_clock() const { return c_; }
  Clock::SharedPtr c_;
};
class NodeLoggingInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeLoggingInterface>;
  explicit NodeLoggingInterface(Logger l) : l_(std::move(l)) {}
  Logger get_logger() const { return l_; }
  const char * get_logger_name() const { return l_.get_name(); }
  Logger l_;
};
class NodeParametersInterface
{
public:
  using SharedPtr = std::shared_ptr<NodeParametersInterface>;
  struct Entry { ParameterValue value; rcl_interfaces::msg::ParameterDescriptor desc; ParameterType type = ParameterType::PARAMETER_NOT_SET; };
  explicit NodeParametersInterface(bool allow_undeclared = false) : allow_undeclared_(allow_undeclared) {}
  virtual ~NodeParametersInterface() = default;
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ignore_override = false)
  {
    std::lock_guard<std::recursive_mutex> g(m_);
    if (n.empty()) throw std::runtime_error("parameter name must not be empty");
    if (p_.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    Entry e; e.value = d; e.desc = desc; e.type = d.get_type();
    auto it = ov_.find(n);
    if (!ignore_override && it != ov_.end())
    {
      if (!desc.dynamic_typing && e.type != ParameterType::PARAMETER_NOT_SET && it->second.get_type() != e.type)
        throw exceptions::InvalidParameterTypeException(n, "Wrong parameter type");
      e.value = it->second;
    }
    check_set(Parameter(n, e.value));
    return (p_[n] = e).value;
  }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ignore_override = false)
  {
    std::lock_guard<std::recursive_mutex> g(m_);
    if (p_.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
    Entry e; e.desc = desc; e.type = t;
    auto it = ov_.find(n);
    if (!ignore_override && it != ov_.end())
    {
      if (it->second.get_type() != t) throw exceptions::InvalidParameterTypeException(n, "Wrong parameter type");
      e.value = it->second;
    }
    return (p_[n] = e).value;
  }
  void undeclare_parameter(const std::string & n) { std::lock_guard<std::recursive_mutex> g(m_); p_.erase(n); }
  bool has_parameter(const std::string & n) const { std::lock_guard<std::recursive_mutex> g(m_); return p_.count(n) > 0; }
  bool get_parameter(const std::string & n, Parameter & out) const
  {
    std::lock_guard<std::recursive_mutex> g(m_);
    auto it = p_.find(n);
    if (it == p_.end() || it->second.value.get_type() == ParameterType::PARAMETER_NOT_SET) return false;
    out = Parameter(n, it->second.value); return true;
  }
  Parameter get_parameter(const std::string & n) const
  {
    std::lock_guard<std::recursive_mutex> g(m_);
    auto it = p_.find(n);
    if (it == p_.end()) { if (allow_undeclared_) return Parameter(n); throw exceptions::ParameterNotDeclaredException(n); }
    if (it->second.value.get_type() == ParameterType::PARAMETER_NOT_SET && it->second.type != ParameterType::PARAMETER_NOT_SET && !it->second.desc.dynamic_typing) throw exceptions::ParameterUninitializedException(n);
    return Parameter(n, it->second.value);
  }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { std::vector<Parameter> r; for (auto & n : ns) r.push_back(get_parameter(n)); return r; }
  rcl_interfaces::msg::SetParametersResult set_one(const Parameter & p)
  {
    std::lock_guard<std::recursive_mutex> g(m_);
    rcl_interfaces::msg::SetParametersResult r;
    auto it = p_.find(p.get_name());
    if (it == p_.end()) { if (!allow_undeclared_) throw exceptions::ParameterNotDeclaredException(p.get_name()); p_[p.get_name()] = Entry{}; it = p_.find(p.get_name()); }
    else if (it->second.desc.read_only) { r.successful = false; r.reason = "parameter '" + p.get_name() + "' cannot be set because it is read-only"; return r; }
    else if (!it->second.desc.dynamic_typing && it->second.type != ParameterType::PARAMETER_NOT_SET && it->second.type != p.get_type()) { r.successful = false; r.reason = "Wrong parameter type"; return r; }
    for (auto & w : on_set_) if (auto h = w.lock()) { r = h->callback({p}); if (!r.successful) return r; }
    it->second.value = p.get_parameter_value(); if (it->second.type == ParameterType::PARAMETER_NOT_SET) it->second.type = p.get_type();
    for (auto & w : post_) if (auto h = w.lock()) h->callback({p});
    return r;
  }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & ps) { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & p : ps) r.push_back(set_one(p)); return r; }
  rcl_interfaces::msg::SetParametersResult set_parameters_atomically(const std::vector<Parameter> & ps) { rcl_interfaces::msg::SetParametersResult r; for (auto & p : ps) { r = set_one(p); if (!r.successful) return r; } return r; }
  OnSetParametersCallbackHandle::SharedPtr add_on_set_parameters_callback(std::function<rcl_interfaces::msg::SetParametersResult(const std::vector<Parameter> &)> f)
  { auto h = std::make_shared<OnSetParametersCallbackHandle>(); h->callback = std::move(f); on_set_.push_back(h); return h; }
  PostSetParametersCallbackHandle::SharedPtr add_post_set_parameters_callback(std::function<void(const std::vector<Parameter> &)> f)
  { auto h = std::make_shared<PostSetParametersCallbackHandle>(); h->callback = std::move(f); post_.push_back(h); return h; }
  const std::map<std::string, ParameterValue> & get_parameter_overrides() const { return ov_; }
  std::vector<std::string> names() const { std::vector<std::string> r; for (auto & kv : p_) r.push_back(kv.first); return r; }
  std::map<std::string, ParameterValue> ov_;
  bool allow_undeclared_;
private:
  void check_set(const Parameter & p) { for (auto & w : on_set_) if (auto h = w.lock()) { auto r = h->callback({p}); if (!r.successful) throw exceptions::InvalidParameterValueException(r.reason); } }
  std::map<std::string, Entry> p_;
  std::vector<std::weak_ptr<OnSetParametersCallbackHandle>> on_set_;
  std::vector<std::weak_ptr<PostSetParametersCallbackHandle>> post_;
  mutable std::recursive_mutex m_;
};
class NodeTopicsInterface { public: using SharedPtr = std::shared_ptr<NodeTopicsInterface>; };
class NodeTimersInterface { public: using SharedPtr = std::shared_ptr<NodeTimersInterface>; };
class NodeServicesInterface { public: using SharedPtr = std::shared_ptr<NodeServicesInterface>; };
class NodeGraphInterface { public: using SharedPtr = std::shared_ptr<NodeGraphInterface>; };
class NodeWaitablesInterface { public: using SharedPtr = std::shared_ptr<NodeWaitablesInterface>; };
class NodeTimeSourceInterface { public: using SharedPtr = std::shared_ptr<NodeTimeSourceInterface>; };
}  // namespace node_interfaces
}  // namespace rclcpp

namespace shim
{
// Scalars the way rcl_yaml_param_parser would type them.
inline rclcpp::ParameterValue parse_scalar(const std::string & s)
{
  if (s == "true" || s == "True") return rclcpp::ParameterValue(true);
  if (s == "false" || s == "False") return rclcpp::ParameterValue(false);
  if (s.size() >= 2 && s.front() == '"' && s.back() == '"') return rclcpp::ParameterValue(s.substr(1, s.size() - 2));
  char * end = nullptr;
  if (!s.empty()) { long long v = std::strtoll(s.c_str(), &end, 10); if (*end == 0) return rclcpp::ParameterValue(static_cast<int64_t>(v)); double d = std::strtod(s.c_str(), &end); if (*end == 0) return rclcpp::ParameterValue(d); }
  return rclcpp::ParameterValue(s);
}
// --ros-args -p/--param name:=value ; -r/--remap __node:=x ; --params-file is recorded only.
struct ParsedArgs { std::map<std::string, rclcpp::ParameterValue> params; std::string node_name; std::string ns; std::vector<std::string> param_files; bool saw_ros_args = false; };
inline ParsedArgs parse_args(const std::vector<std::string> & a)
{
  ParsedArgs r; bool ros = false;
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (a[i] == "--ros-args") { ros = true; r.saw_ros_args = true; continue; }
    if (a[i] == "--") { ros = false; continue; }
    if (!ros) continue;
    auto kv = [&](const std::string & s) { auto p = s.find(":="); return p == std::string::npos ? std::make_pair(s, std::string()) : std::make_pair(s.substr(0, p), s.substr(p + 2)); };
    if ((a[i] == "-p" || a[i] == "--param") && i + 1 < a.size()) { auto [k, v] = kv(a[++i]); r.params[k] = parse_scalar(v); }
    else if ((a[i] == "-r" || a[i] == "--remap") && i + 1 < a.size()) { auto [k, v] = kv(a[++i]); if (k == "__node" || k == "__name") r.node_name = v; if (k == "__ns") r.ns = v; }
    else if (a[i] == "--params-file" && i + 1 < a.size()) { r.param_files.push_back(a[++i]); }
  }
  return r;
}
using ParamFileLoader = std::function<void(const std::string & file, const std::string & node_fqn, std::map<std::string, rclcpp::ParameterValue> & out)>;
inline ParamFileLoader & param_file_loader() { static ParamFileLoader l; return l; }
}  // namespace shim

namespace rclcpp
{
namespace detail
{
struct NodeImpl
{
  node_interfaces::NodeBaseInterface::SharedPtr base;
  node_interfaces::NodeClockInterface::SharedPtr clock;
  node_interfaces::NodeLoggingInterface::SharedPtr logging;
  node_interfaces::NodeParametersInterface::SharedPtr params;
  NodeOptions options; shim::ParsedArgs args;
  std::vector<TimerBase::SharedPtr> timers;
};
// node functionality shared between Node and LifecycleNode
class NodeCommon
{
public:
  NodeCommon(const std::string & name, const std::string & ns, const NodeOptions & o)
  {
    impl_ = std::make_shared<NodeImpl>();
    impl_->options = o;
    impl_->args = shim::parse_args(o.arguments());
    std::string n = impl_->args.node_name.empty() ? name : impl_->args.node_name;
    if (n.empty() || n.find_first_not_of("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_") != std::string::npos || (n[0] >= '0' && n[0] <= '9'))
      throw exceptions::InvalidNodeNameError("Invalid node name: '" + n + "'");
    impl_->base = std::make_shared<node_interfaces::NodeBaseInterface>(n, impl_->args.ns.empty() ? ns : impl_->args.ns);
    impl_->clock = std::make_shared<node_interfaces::NodeClockInterface>(std::make_shared<Clock>(RCL_ROS_TIME));
    impl_->logging = std::make_shared<node_interfaces::NodeLoggingInterface>(Logger(n));
    impl_->params = std::make_shared<node_interfaces::NodeParametersInterface>(o.allow_undeclared_parameters());
    for (auto & f : impl_->args.param_files) if (shim::param_file_loader()) shim::param_file_loader()(f, impl_->base->get_fully_qualified_name(), impl_->params->ov_);
    if (!shim::global_args().empty()) for (auto & [k, v] : shim::parse_args(shim::global_args()).params) impl_->params->ov_[k] = v;
    for (auto & [k, v] : impl_->args.params) impl_->params->ov_[k] = v;
    for (auto & p : o.parameter_overrides()) impl_->params->ov_[p.get_name()] = p.get_parameter_value();
    impl_->params->declare_parameter("use_sim_time", ParameterValue(false));
    if (o.automatically_declare_parameters_from_overrides())
      for (auto & [k, v] : impl_->params->ov_) if (!impl_->params->has_parameter(k)) { rcl_interfaces::msg::ParameterDescriptor d; d.dynamic_typing = true; impl_->params->declare_parameter(k, v, d); }
  }
  const char * get_name() const { return impl_->base->get_name(); }
  const char * get_namespace() const { return impl_->base->get_namespace(); }
  const char * get_fully_qualified_name() const { return impl_->base->get_fully_qualified_name(); }
  Logger get_logger() const { return impl_->logging->get_logger(); }
  Clock::SharedPtr get_clock() { return impl_->clock->get_clock(); }
  Clock::ConstSharedPtr get_clock() const { return impl_->clock->get_clock(); }
  Time now() const { return impl_->clock->c_->now(); }
  const NodeOptions & get_node_options() const { return impl_->options; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() { return impl_->base; }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() { return impl_->clock; }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() { return impl_->logging; }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() { return impl_->params; }
  node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface() { return nullptr; }
  node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface() { return nullptr; }
  // parameters
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & d, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ign = false) { return impl_->params->declare_parameter(n, d, desc, ign); }
  const ParameterValue & declare_parameter(const std::string & n, ParameterType t, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ign = false) { return impl_->params->declare_parameter(n, t, desc, ign); }
  template <class T, class = std::enable_if_t<!std::is_same_v<std::decay_t<T>, ParameterValue> && !std::is_same_v<std::decay_t<T>, ParameterType>>>
  auto declare_parameter(const std::string & n, const T & d, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ign = false)
  {
    if constexpr (std::is_same_v<std::decay_t<T>, const char *> || std::is_array_v<T>) return impl_->params->declare_parameter(n, ParameterValue(std::string(d)), desc, ign).template get<std::string>();
    else
    {
      try { return impl_->params->declare_parameter(n, ParameterValue(d), desc, ign).template get<T>(); }
      catch (const ParameterTypeException & e) { throw exceptions::InvalidParameterTypeException(n, e.what()); }
    }
  }
  template <class T>
  auto declare_parameter(const std::string & n, const rcl_interfaces::msg::ParameterDescriptor & desc = {}, bool ign = false)
  {
    ParameterType t;
    if constexpr (std::is_same_v<T, bool>) t = ParameterType::PARAMETER_BOOL;
    else if constexpr (std::is_integral_v<T>) t = ParameterType::PARAMETER_INTEGER;
    else if constexpr (std::is_floating_point_v<T>) t = ParameterType::PARAMETER_DOUBLE;
    else if constexpr (std::is_same_v<T, std::string>) t = ParameterType::PARAMETER_STRING;
    else if constexpr (std::is_same_v<T, std::vector<std::string>>) t = ParameterType::PARAMETER_STRING_ARRAY;
    else if constexpr (std::is_same_v<T, std::vector<double>>) t = ParameterType::PARAMETER_DOUBLE_ARRAY;
    else t = ParameterType::PARAMETER_INTEGER_ARRAY;
    auto & v = impl_->params->declare_parameter(n, t, desc, ign);
    if (v.get_type() == ParameterType::PARAMETER_NOT_SET) throw exceptions::ParameterUninitializedException(n);
    return v.template get<T>();
  }
  void undeclare_parameter(const std::string & n) { impl_->params->undeclare_parameter(n); }
  bool has_parameter(const std::string & n) const { return impl_->params->has_parameter(n); }
  Parameter get_parameter(const std::string & n) const { return impl_->params->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return impl_->params->get_parameter(n, p); }
  template <class T> bool get_parameter(const std::string & n, T & out) const { Parameter p; if (!impl_->params->get_parameter(n, p)) return false; out = p.get_value<T>(); return true; }
  template <class T> bool get_parameter_or(const std::string & n, T & out, const T & alt) const { if (get_parameter(n, out)) return true; out = alt; return false; }
  template <class T> T get_parameter_or(const std::string & n, const T & alt) const { T o; return get_parameter(n, o) ? o : alt; }
  std::vector<Parameter> get_parameters(const std::vector<std::string> & ns) const { return impl_->params->get_parameters(ns); }
  template <class T> bool get_parameters(const std::string & prefix, std::map<std::string, T> & out) const { bool any = false; for (auto & n : impl_->params->names()) { Parameter p; if (n.rfind(prefix + ".", 0) == 0 && impl_->params->get_parameter(n, p)) { out[n.substr(prefix.size() + 1)] = p.get_value<T>(); any = true; } } return any; }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return impl_->params->set_one(p); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & p) { return impl_->params->set_parameters(p); }
  template <class F> auto add_on_set_parameters_callback(F f) { return impl_->params->add_on_set_parameters_callback(f); }
  // comms
  template <class M, class... A> typename Publisher<M>::SharedPtr create_publisher(const std::string & t, const QoS & = QoS(), A &&...) { return std::make_shared<Publisher<M>>(resolve(t)); }
  template <class M, class F, class... A> typename Subscription<M>::SharedPtr create_subscription(const std::string & t, const QoS &, F &&, A &&...) { return std::make_shared<Subscription<M>>(resolve(t)); }
  template <class S, class F, class... A> typename Service<S>::SharedPtr create_service(const std::string & n, F && f, A &&...) { return std::make_shared<Service<S>>(resolve(n), typename Service<S>::Cb(std::forward<F>(f))); }
  template <class S> auto create_client(const std::string & n); 
  template <class D, class F, class... A> TimerBase::SharedPtr create_wall_timer(D, F && f, A &&...) { auto t = std::make_shared<TimerBase>(std::function<void()>(std::forward<F>(f))); impl_->timers.push_back(t); return t; }
  template <class D, class F, class... A> TimerBase::SharedPtr create_timer(D, F && f, A &&...) { return create_wall_timer(D{}, std::forward<F>(f)); }
  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType, bool = true) { return std::make_shared<CallbackGroup>(); }
  std::string resolve(const std::string & t) const
  {
    std::string ns = get_namespace(); if (ns == "/") ns = "";
    if (!t.empty() && t[0] == '/') return t;
    if (t.rfind("~/", 0) == 0) return ns + "/" + get_name() + "/" + t.substr(2);
    return ns + "/" + t;
  }
  std::shared_ptr<NodeImpl> impl_;
};
}  // namespace detail

class Node : public detail::NodeCommon, public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  using WeakPtr = std::weak_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : NodeCommon(name, "", o) {}
  Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions()) : NodeCommon(name, ns, o) {}
  virtual ~Node() = default;
  static SharedPtr make_shared(const std::string & n) { return std::make_shared<Node>(n); }
};

class Rate { public: explicit Rate(double hz) : p_(static_cast<int64_t>(1e9 / hz)) {} bool sleep() { std::this_thread::sleep_for(std::chrono::nanoseconds(p_)); return true; } private: int64_t p_; };
struct ExecutorOptions {};
enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
class Executor
{
public:
  using SharedPtr = std::shared_ptr<Executor>;
  using WeakPtr = std::weak_ptr<Executor>;
  virtual ~Executor() = default;
  virtual void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true) { if (std::find(nodes_.begin(), nodes_.end(), n) != nodes_.end()) throw std::runtime_error("Node has already been added to an executor."); n->assoc_ = true; nodes_.push_back(n); }
  virtual void add_node(std::shared_ptr<Node> n, bool = true) { add_node(n->get_node_base_interface()); }
  virtual void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true) { auto it = std::find(nodes_.begin(), nodes_.end(), n); if (it == nodes_.end()) throw std::runtime_error("Node needs to be associated with this executor."); n->assoc_ = false; nodes_.erase(it); }
  virtual void remove_node(std::shared_ptr<Node> n, bool = true) { remove_node(n->get_node_base_interface()); }
  virtual void cancel() {}
  virtual void spin() {}
  virtual void spin_some() {}
  virtual void spin_once(std::chrono::nanoseconds = std::chrono::nanoseconds(-1)) {}
  virtual void spin_all(std::chrono::nanoseconds) {}
  template <class... F> FutureReturnCode spin_until_future_complete(F &&...) { return FutureReturnCode::SUCCESS; }
  std::vector<node_interfaces::NodeBaseInterface::SharedPtr> nodes_;
};
namespace executors
{
class SingleThreadedExecutor : public Executor { public: using SharedPtr = std::shared_ptr<SingleThreadedExecutor>; explicit SingleThreadedExecutor(const ExecutorOptions & = {}) {} };
class MultiThreadedExecutor : public Executor { public: using SharedPtr = std::shared_ptr<MultiThreadedExecutor>; explicit MultiThreadedExecutor(const ExecutorOptions & = {}, size_t = 0, bool = false) {} };
}  // namespace executors
template <class S> class Client
{
public:
  using SharedPtr = std::shared_ptr<Client<S>>;
  explicit Client(std::string n) : n_(std::move(n)) {}
  bool service_is_ready() { return get() != nullptr; }
  template <class D> bool wait_for_service(D) { return get() != nullptr; }
  std::shared_future<std::shared_ptr<typename S::Response>> async_send_request(std::shared_ptr<typename S::Request> r) { std::promise<std::shared_ptr<typename S::Response>> p; p.set_value(get()->call(r)); return p.get_future().share(); }
private:
  Service<S> * get() { auto it = shim::services().find(n_); return it == shim::services().end() ? nullptr : dynamic_cast<Service<S> *>(it->second); }
  std::string n_;
};
template <class S> auto detail::NodeCommon::create_client(const std::string & n) { return std::make_shared<Client<S>>(resolve(n)); }
template <class T> inline void spin_some(T) {}
}  // namespace rclcpp

#endif  // SHIM_CORE_HPP_
