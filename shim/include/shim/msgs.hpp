// Plain structs for the external message packages ros2_control includes.
#ifndef SHIM_MSGS_HPP_
#define SHIM_MSGS_HPP_
#include "shim/core.hpp"
#include "shim/lifecycle.hpp"
#define SHIM_MSG_PTRS(T) using SharedPtr = std::shared_ptr<T>; using ConstSharedPtr = std::shared_ptr<const T>; using UniquePtr = std::unique_ptr<T>;
namespace std_msgs::msg
{
struct Header { builtin_interfaces::msg::Time stamp; std::string frame_id; };
struct String { SHIM_MSG_PTRS(String) std::string data; };
struct ColorRGBA { float r = 0, g = 0, b = 0, a = 0; };
struct MultiArrayDimension { std::string label; uint32_t size = 0, stride = 0; };
struct MultiArrayLayout { std::vector<MultiArrayDimension> dim; uint32_t data_offset = 0; };
struct Float64MultiArray { SHIM_MSG_PTRS(Float64MultiArray) MultiArrayLayout layout; std::vector<double> data; };
}
namespace geometry_msgs::msg
{
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 1; };
struct Pose { Point position; Quaternion orientation; };
struct Wrench { Vector3 force, torque; };
}
namespace sensor_msgs::msg
{
struct Range { static constexpr uint8_t ULTRASOUND = 0, INFRARED = 1; std_msgs::msg::Header header; uint8_t radiation_type = 0; float field_of_view = 0, min_range = 0, max_range = 0, range = 0, variance = 0; };
struct MagneticField { std_msgs::msg::Header header; geometry_msgs::msg::Vector3 magnetic_field; std::array<double, 9> magnetic_field_covariance{}; };
struct Imu { std_msgs::msg::Header header; geometry_msgs::msg::Quaternion orientation; std::array<double, 9> orientation_covariance{}; geometry_msgs::msg::Vector3 angular_velocity; std::array<double, 9> angular_velocity_covariance{}; geometry_msgs::msg::Vector3 linear_acceleration; std::array<double, 9> linear_acceleration_covariance{}; };
struct NavSatStatus { static constexpr int8_t STATUS_UNKNOWN = -2, STATUS_NO_FIX = -1, STATUS_FIX = 0, STATUS_SBAS_FIX = 1, STATUS_GBAS_FIX = 2; static constexpr uint16_t SERVICE_UNKNOWN = 0, SERVICE_GPS = 1, SERVICE_GLONASS = 2, SERVICE_COMPASS = 4, SERVICE_GALILEO = 8; int8_t status = -2; uint16_t service = 0; };
struct NavSatFix { static constexpr uint8_t COVARIANCE_TYPE_UNKNOWN = 0, COVARIANCE_TYPE_APPROXIMATED = 1, COVARIANCE_TYPE_DIAGONAL_KNOWN = 2, COVARIANCE_TYPE_KNOWN = 3; std_msgs::msg::Header header; NavSatStatus status; double latitude = 0, longitude = 0, altitude = 0; std::array<double, 9> position_covariance{}; uint8_t position_covariance_type = 0; };
}
namespace trajectory_msgs::msg
{
struct JointTrajectoryPoint { std::vector<double> positions, velocities, accelerations, effort; builtin_interfaces::msg::Duration time_from_start; };
}
namespace diagnostic_msgs::msg
{
struct KeyValue { std::string key, value; };
struct DiagnosticStatus { static constexpr unsigned char OK = 0, WARN = 1, ERROR = 2, STALE = 3; unsigned char level = 0; std::string name, message, hardware_id; std::vector<KeyValue> values; };
}
namespace control_msgs::msg
{
struct GenericHardwareState { uint8_t health_status = 0; std::vector<uint8_t> error_domains; uint8_t operational_mode = 0, power_state = 0, connectivity_status = 0; std::string manufacturer, model, firmware_version; };
struct HardwareDeviceStatus { std_msgs::msg::Header header; std::string device_id; std::vector<GenericHardwareState> hardware_status; };
struct HardwareStatus { std_msgs::msg::Header header; std::string hardware_id; std::vector<HardwareDeviceStatus> hardware_device_states; };
}
namespace example_interfaces::srv
{
struct SetBool { struct Request { bool data = false; }; struct Response { bool success = false; std::string message; }; };
}
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::msg::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string & s) { level = l; message = s; }
  void mergeSummary(unsigned char l, const std::string & s)
  {
    if ((l > 0) && (level > 0)) { if (!message.empty()) message += "; "; message += s; }
    else if (l > level) message = s;
    if (l > level) level = l;
  }
  void clearSummary() { summary(0, ""); }
  template <class T> void add(const std::string & k, const T & v) { std::stringstream ss; ss << v; values.push_back({k, ss.str()}); }
  void add(const std::string & k, const bool & v) { values.push_back({k, v ? "True" : "False"}); }
};
class Updater
{
public:
  template <class N> explicit Updater(N, double = 1.0) {}
  void setHardwareID(const std::string & s) { hwid = s; }
  template <class C> void add(const std::string & n, C * c, void (C::*f)(DiagnosticStatusWrapper &)) { tasks.emplace_back(n, [c, f](DiagnosticStatusWrapper & s) { (c->*f)(s); }); }
  void force_update() {}
  std::string hwid; std::vector<std::pair<std::string, std::function<void(DiagnosticStatusWrapper &)>>> tasks;
};
}
#endif
