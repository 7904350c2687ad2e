// rclcpp_lifecycle stand-in (state machine per REP/rclcpp_lifecycle documentation).
#ifndef SHIM_LIFECYCLE_HPP_
#define SHIM_LIFECYCLE_HPP_
#include "shim/core.hpp"

namespace lifecycle_msgs::msg
{
struct State
{
  static constexpr uint8_t PRIMARY_STATE_UNKNOWN = 0, PRIMARY_STATE_UNCONFIGURED = 1, PRIMARY_STATE_INACTIVE = 2,
    PRIMARY_STATE_ACTIVE = 3, PRIMARY_STATE_FINALIZED = 4, TRANSITION_STATE_CONFIGURING = 10,
    TRANSITION_STATE_CLEANINGUP = 11, TRANSITION_STATE_SHUTTINGDOWN = 12, TRANSITION_STATE_ACTIVATING = 13,
    TRANSITION_STATE_DEACTIVATING = 14, TRANSITION_STATE_ERRORPROCESSING = 15;
  using _id_type = uint8_t; uint8_t id = 0; std::string label;
};
inline bool operator==(const State & a, const State & b) { return a.id == b.id && a.label == b.label; }
struct Transition
{
  static constexpr uint8_t TRANSITION_CREATE = 0, TRANSITION_CONFIGURE = 1, TRANSITION_CLEANUP = 2, TRANSITION_ACTIVATE = 3,
    TRANSITION_DEACTIVATE = 4, TRANSITION_UNCONFIGURED_SHUTDOWN = 5, TRANSITION_INACTIVE_SHUTDOWN = 6,
    TRANSITION_ACTIVE_SHUTDOWN = 7, TRANSITION_DESTROY = 8,
    TRANSITION_CALLBACK_SUCCESS = 97, TRANSITION_CALLBACK_FAILURE = 98, TRANSITION_CALLBACK_ERROR = 99;
  using _id_type = uint8_t; uint8_t id = 0; std::string label;
};
}  // namespace lifecycle_msgs::msg

namespace rclcpp_lifecycle
{
class State
{
public:
  State() : id_(0), label_("unknown") {}
  State(uint8_t id, const std::string & label) : id_(id), label_(label) { if (label.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label."); }
  State(const State &) = default;
  State & operator=(const State &) = default;
  virtual ~State() = default;
  uint8_t id() const { return id_; }
  std::string label() const { return label_; }
private:
  uint8_t id_; std::string label_;
};

namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : uint8_t
  {
    SUCCESS = lifecycle_msgs::msg::Transition::TRANSITION_CALLBACK_SUCCESS,
    FAILURE = lifecycle_msgs::msg::Transition::TRANSITION_CALLBACK_FAILURE,
    ERROR = lifecycle_msgs::msg::Transition::TRANSITION_CALLBACK_ERROR
  };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::SUCCESS; }
  virtual ~LifecycleNodeInterface() = default;
};
}  // namespace node_interfaces

class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public rclcpp::detail::NodeCommon, public std::enable_shared_from_this<LifecycleNode>
{
  using MS = lifecycle_msgs::msg::State;
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using WeakPtr = std::weak_ptr<LifecycleNode>;
  using Cb = std::function<CallbackReturn(const State &)>;
  explicit LifecycleNode(const std::string & name, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true) : LifecycleNode(name, "", o) {}
  LifecycleNode(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true)
  : NodeCommon(name, ns, o), state_(MS::PRIMARY_STATE_UNCONFIGURED, "unconfigured")
  {
    cbs_[MS::TRANSITION_STATE_CONFIGURING] = [this](const State & s) { return on_configure(s); };
    cbs_[MS::TRANSITION_STATE_CLEANINGUP] = [this](const State & s) { return on_cleanup(s); };
    cbs_[MS::TRANSITION_STATE_SHUTTINGDOWN] = [this](const State & s) { return on_shutdown(s); };
    cbs_[MS::TRANSITION_STATE_ACTIVATING] = [this](const State & s) { return on_activate(s); };
    cbs_[MS::TRANSITION_STATE_DEACTIVATING] = [this](const State & s) { return on_deactivate(s); };
    cbs_[MS::TRANSITION_STATE_ERRORPROCESSING] = [this](const State & s) { return on_error(s); };
  }
  virtual ~LifecycleNode() = default;
  const State & get_current_state() const { return state_; }
  bool register_on_configure(Cb f) { cbs_[MS::TRANSITION_STATE_CONFIGURING] = std::move(f); return true; }
  bool register_on_cleanup(Cb f) { cbs_[MS::TRANSITION_STATE_CLEANINGUP] = std::move(f); return true; }
  bool register_on_shutdown(Cb f) { cbs_[MS::TRANSITION_STATE_SHUTTINGDOWN] = std::move(f); return true; }
  bool register_on_activate(Cb f) { cbs_[MS::TRANSITION_STATE_ACTIVATING] = std::move(f); return true; }
  bool register_on_deactivate(Cb f) { cbs_[MS::TRANSITION_STATE_DEACTIVATING] = std::move(f); return true; }
  bool register_on_error(Cb f) { cbs_[MS::TRANSITION_STATE_ERRORPROCESSING] = std::move(f); return true; }
  const State & configure() { return run({MS::PRIMARY_STATE_UNCONFIGURED}, MS::TRANSITION_STATE_CONFIGURING, "configuring", MS::PRIMARY_STATE_INACTIVE, MS::PRIMARY_STATE_UNCONFIGURED); }
  const State & cleanup() { return run({MS::PRIMARY_STATE_INACTIVE}, MS::TRANSITION_STATE_CLEANINGUP, "cleaningup", MS::PRIMARY_STATE_UNCONFIGURED, MS::PRIMARY_STATE_INACTIVE); }
  const State & activate() { return run({MS::PRIMARY_STATE_INACTIVE}, MS::TRANSITION_STATE_ACTIVATING, "activating", MS::PRIMARY_STATE_ACTIVE, MS::PRIMARY_STATE_INACTIVE); }
  const State & deactivate() { return run({MS::PRIMARY_STATE_ACTIVE}, MS::TRANSITION_STATE_DEACTIVATING, "deactivating", MS::PRIMARY_STATE_INACTIVE, MS::PRIMARY_STATE_ACTIVE); }
  const State & shutdown() { return run({MS::PRIMARY_STATE_UNCONFIGURED, MS::PRIMARY_STATE_INACTIVE, MS::PRIMARY_STATE_ACTIVE}, MS::TRANSITION_STATE_SHUTTINGDOWN, "shuttingdown", MS::PRIMARY_STATE_FINALIZED, MS::PRIMARY_STATE_FINALIZED); }

private:
  static const char * lbl(uint8_t id) { static const char * l[] = {"unknown", "unconfigured", "inactive", "active", "finalized"}; return l[id]; }
  CallbackReturn exec(uint8_t t, const State & prev) { try { return cbs_[t](prev); } catch (const std::exception &) { return CallbackReturn::ERROR; } }
  const State & run(std::initializer_list<uint8_t> from, uint8_t tr, const char * trl, uint8_t ok, uint8_t fail)
  {
    if (std::find(from.begin(), from.end(), state_.id()) == from.end()) return state_;
    const State prev = state_;
    state_ = State(tr, trl);
    auto r = exec(tr, prev);
    if (r == CallbackReturn::SUCCESS) state_ = State(ok, lbl(ok));
    else if (r == CallbackReturn::FAILURE) state_ = State(fail, lbl(fail));
    else
    {
      state_ = State(MS::TRANSITION_STATE_ERRORPROCESSING, "errorprocessing");
      auto e = exec(MS::TRANSITION_STATE_ERRORPROCESSING, prev);
      const uint8_t to = e == CallbackReturn::SUCCESS ? MS::PRIMARY_STATE_UNCONFIGURED : MS::PRIMARY_STATE_FINALIZED;
      state_ = State(to, lbl(to));
    }
    return state_;
  }
  State state_;
  std::map<uint8_t, Cb> cbs_;
};
}  // namespace rclcpp_lifecycle
#endif
