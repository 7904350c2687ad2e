// realtime_tools stand-in (an exception of the callback is reported by every trigger until
// reset_variables, as the real handler does).  The async handler can be run on a real thread or, for deterministic
// schedules owned by a harness, in "manual" mode where shim::async_step() runs one pending cycle.
#ifndef SHIM_RT_HPP_
#define SHIM_RT_HPP_
#include "shim/core.hpp"
namespace shim
{
struct AsyncManual { bool enabled = false; std::vector<std::pair<void *, std::function<bool()>>> handlers; std::recursive_mutex m; };
inline AsyncManual & async_manual() { static AsyncManual a; return a; }
}
namespace realtime_tools
{
using prio_inherit_mutex = std::mutex;
using prio_inherit_recursive_mutex = std::recursive_mutex;
inline bool has_realtime_kernel() { return false; }
inline std::pair<bool, std::string> lock_memory() { return {true, ""}; }
inline bool configure_sched_fifo(int) { return true; }
inline std::pair<bool, std::string> set_current_thread_affinity(const std::vector<int> &) { return {true, ""}; }
inline std::pair<bool, std::string> set_current_thread_affinity(int) { return {true, ""}; }

class AsyncSchedulingPolicy
{
public:
  enum Value : int8_t { UNKNOWN = -1, SYNCHRONIZED, DETACHED };
  AsyncSchedulingPolicy() = default;
  constexpr AsyncSchedulingPolicy(Value v) : v_(v) {}  // NOLINT
  explicit AsyncSchedulingPolicy(const std::string & s) { if (s == "synchronized") v_ = SYNCHRONIZED; else if (s == "detached") v_ = DETACHED; else throw std::runtime_error("AsyncSchedulingPolicy: unknown policy '" + s + "'"); }
  operator Value() const { return v_; }
  std::string to_string() const { return v_ == SYNCHRONIZED ? "synchronized" : v_ == DETACHED ? "detached" : "unknown"; }
  Value v_ = SYNCHRONIZED;
};
struct AsyncFunctionHandlerParams
{
  int thread_priority = 50; AsyncSchedulingPolicy scheduling_policy; std::vector<int> cpu_affinity_cores;
  rclcpp::Clock::SharedPtr clock; rclcpp::Logger logger; unsigned int exec_rate = 0; bool print_warnings = true; bool wait_until_initial_trigger = true;
  template <class N> void initialize(N node, const std::string & prefix)
  {
    if (node->has_parameter(prefix + "thread_priority")) thread_priority = static_cast<int>(node->get_parameter(prefix + "thread_priority").as_int());
    else node->template declare_parameter<int64_t>(prefix + "thread_priority", static_cast<int64_t>(thread_priority));
    if (!node->has_parameter(prefix + "scheduling_policy")) node->declare_parameter(prefix + "scheduling_policy", std::string("synchronized"));
    scheduling_policy = AsyncSchedulingPolicy(node->get_parameter(prefix + "scheduling_policy").as_string());
    clock = node->get_clock(); logger = node->get_logger();
  }
};
template <class T>
class AsyncFunctionHandler
{
public:
  using F = std::function<T(const rclcpp::Time &, const rclcpp::Duration &)>;
  ~AsyncFunctionHandler() { stop_thread(); }
  void init(F f, const AsyncFunctionHandlerParams & p = {}) { f_ = std::move(f); p_ = p; }
  void init(F f, std::function<bool()> pred, const AsyncFunctionHandlerParams & p = {}) { f_ = std::move(f); pred_ = std::move(pred); p_ = p; }
  void start_thread()
  {
    if (!f_) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (run_) return;
    run_ = true; stop_ = false; pause_ = false;
    if (shim::async_manual().enabled) { manual_ = true; std::lock_guard<std::recursive_mutex> gl(shim::async_manual().m); shim::async_manual().handlers.emplace_back(this, [this] { return step(); }); }
    else th_ = std::thread([this] { loop(); });
  }
  void stop_thread()
  {
    if (!run_) return;
    if (manual_) { std::lock_guard<std::recursive_mutex> gl(shim::async_manual().m); auto & h = shim::async_manual().handlers; h.erase(std::remove_if(h.begin(), h.end(), [this](auto & x) { return x.first == this; }), h.end()); pending_ = false; }
    else { { std::lock_guard<std::mutex> g(m_); stop_ = true; } cv_.notify_all(); done_.notify_all(); if (th_.joinable()) th_.join(); }
    run_ = false;
  }
  void pause_execution() { wait_for_trigger_cycle_to_finish(); pause_ = true; }
  void reset_variables() { std::unique_lock<std::mutex> g(m_); pending_ = false; pause_ = false; ret_ = T(); exc_ = nullptr; }
  bool is_running() const { return run_; }
  bool is_initialized() const { return static_cast<bool>(f_); }
  bool is_stopped() const { return !run_; }
  bool is_trigger_cycle_in_progress() const { return pending_; }
  void wait_for_trigger_cycle_to_finish()
  {
    if (!run_) return;
    if (manual_) while (step()) {}
    std::unique_lock<std::mutex> g(m_); done_.wait(g, [this] { return !pending_ || stop_ || (busy_ && by_ == std::this_thread::get_id()); });
  }
  std::pair<bool, T> trigger_async_callback(const rclcpp::Time & t, const rclcpp::Duration & d)
  {
    if (!f_) throw std::runtime_error("AsyncFunctionHandler: need to be initialized first!");
    if (!run_) throw std::runtime_error("AsyncFunctionHandler: need to start the async callback thread first before triggering!");
    std::unique_lock<std::mutex> g(m_);
    if (exc_) std::rethrow_exception(exc_);
    pause_ = false;
    bool ok = false;
    if (!pending_ && (!pred_ || pred_())) { t_ = t; d_ = d; pending_ = true; ok = true; cv_.notify_all(); }
    return {ok, ret_};
  }
  rclcpp::Time get_current_callback_time() const { std::lock_guard<std::mutex> g(m_); return t_; }
  rclcpp::Duration get_current_callback_period() const { return d_; }
  std::chrono::nanoseconds get_last_execution_time() const { return std::chrono::nanoseconds(ex_.load()); }
  std::thread & get_thread() { return th_; }

private:
  bool step()
  {
    { std::lock_guard<std::mutex> g(m_); if (!pending_ || busy_) return false; busy_ = true; by_ = std::this_thread::get_id(); }
    exec(); return true;
  }
  void exec()
  {
    auto b = std::chrono::steady_clock::now(); T r{};
    try { r = f_(t_, d_); } catch (...) { std::lock_guard<std::mutex> g(m_); exc_ = std::current_exception(); }
    auto e = std::chrono::steady_clock::now();
    { std::lock_guard<std::mutex> g(m_); ret_ = r; pending_ = false; busy_ = false; ex_ = std::max<int64_t>(1, std::chrono::duration_cast<std::chrono::nanoseconds>(e - b).count()); }
    done_.notify_all();
  }
  void loop()
  {
    for (;;)
    {
      { std::unique_lock<std::mutex> g(m_); cv_.wait(g, [this] { return stop_ || pending_; }); if (stop_) return; }
      exec();
    }
  }
  F f_; std::function<bool()> pred_; AsyncFunctionHandlerParams p_; std::thread th_; mutable std::mutex m_; std::condition_variable cv_, done_;
  std::atomic<bool> run_{false}, stop_{false}, pause_{false}, pending_{false}; bool manual_ = false, busy_ = false; std::thread::id by_;
  rclcpp::Time t_{0, 0, RCL_CLOCK_UNINITIALIZED}; rclcpp::Duration d_{0, 0}; T ret_{}; std::exception_ptr exc_; std::atomic<int64_t> ex_{0};
};
template <class T>
class RealtimeBuffer
{
public:
  RealtimeBuffer() = default;
  explicit RealtimeBuffer(const T & v) : v_(v) {}
  void writeFromNonRT(const T & v) { std::lock_guard<std::mutex> g(m_); n_ = v; new_ = true; }
  T * readFromRT() { std::lock_guard<std::mutex> g(m_); if (new_) { v_ = n_; new_ = false; } return &v_; }
  T * readFromNonRT() { return readFromRT(); }
  void initRT(const T & v) { v_ = v; n_ = v; }
  void reset() { std::lock_guard<std::mutex> g(m_); v_ = T(); n_ = T(); new_ = false; }
private:
  T v_{}, n_{}; bool new_ = false; std::mutex m_;
};
template <class T>
class RealtimeThreadSafeBox
{
public:
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & v) : v_(v) {}
  void set(const T & v) { std::lock_guard<std::mutex> g(m_); v_ = v; }
  T get() const { std::lock_guard<std::mutex> g(m_); return v_; }
  void get(T & o) const { std::lock_guard<std::mutex> g(m_); o = v_; }
  bool try_set(const T & v) { std::lock_guard<std::mutex> g(m_); v_ = v; return true; }
  std::optional<T> try_get() const { std::lock_guard<std::mutex> g(m_); return v_; }
private:
  T v_{}; mutable std::mutex m_;
};
template <class M>
class RealtimePublisher
{
public:
  using SharedPtr = std::shared_ptr<RealtimePublisher<M>>;
  explicit RealtimePublisher(std::shared_ptr<rclcpp::Publisher<M>> p) : p_(std::move(p)) {}
  bool try_publish(const M & m) { if (p_) p_->publish(m); return true; }
  bool trylock() { return true; }
  void unlockAndPublish() { if (p_) p_->publish(msg_); }
  M msg_;
private:
  std::shared_ptr<rclcpp::Publisher<M>> p_;
};
}  // namespace realtime_tools
namespace shim
{
// run one pending async cycle of every handler; returns number executed
// runs the pending cycle of one handler
inline bool async_step_one(const void * h)
{
  std::lock_guard<std::recursive_mutex> g(async_manual().m);
  for (auto & x : async_manual().handlers) if (x.first == h) { auto f = x.second; return f(); }
  return false;
}
// runs the pending cycles of the handlers that pick() chooses, in the given thread
inline int async_step_all(const std::function<bool()> & pick = [] { return true; })
{
  std::lock_guard<std::recursive_mutex> g(async_manual().m);
  int n = 0;
  auto h = async_manual().handlers;
  for (auto & x : h) if (pick()) n += x.second() ? 1 : 0;
  return n;
}
}
#endif
