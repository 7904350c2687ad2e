#ifndef SHIM_PAL_HPP_
#define SHIM_PAL_HPP_
#include "shim/core.hpp"
namespace pal_statistics
{
using IdType = unsigned int;
class RegistrationsRAII
{
public:
  bool enableAll() { enabled_ = true; return true; }
  bool disableAll() { enabled_ = false; return true; }
  bool enabled_ = false; std::vector<std::string> names_;
};
class StatisticsRegistry
{
public:
  template <class T> IdType registerVariable(const std::string & n, const T *, RegistrationsRAII * b = nullptr, bool = true) { return add(n, b); }
  IdType registerFunction(const std::string & n, const std::function<double()> &, RegistrationsRAII * b = nullptr, bool = true) { return add(n, b); }
  void unregister(const std::string & n) { std::lock_guard<std::mutex> g(m_); auto it = names_.find(n); if (it != names_.end()) names_.erase(it); }
  void clear() { std::lock_guard<std::mutex> g(m_); names_.clear(); }
  std::multiset<std::string> names_; std::mutex m_;
private:
  IdType add(const std::string & n, RegistrationsRAII * b) { std::lock_guard<std::mutex> g(m_); names_.insert(n); if (b) b->names_.push_back(n); return ++id_; }
  IdType id_ = 0;
};
inline std::mutex & regs_mutex() { static auto * m = new std::mutex; return *m; }
inline std::map<std::string, std::shared_ptr<StatisticsRegistry>> & regs() { static auto * r = new std::map<std::string, std::shared_ptr<StatisticsRegistry>>; return *r; }
inline std::shared_ptr<StatisticsRegistry> getRegistry(const std::string & k) { std::lock_guard<std::mutex> g(regs_mutex()); auto & p = regs()[k]; if (!p) p = std::make_shared<StatisticsRegistry>(); return p; }
template <typename T>
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const T * v, RegistrationsRAII * b = nullptr, bool e = true) { return r.registerVariable(n, v, b, e); }
inline IdType customRegister(StatisticsRegistry & r, const std::string & n, const std::function<double()> & f, RegistrationsRAII * b = nullptr, bool e = true) { return r.registerFunction(n, f, b, e); }
namespace shim_detail
{
template <class E> void reg(const std::string & k, const std::string & id, E e, RegistrationsRAII * b = nullptr, bool en = true) { customRegister(*getRegistry(k), id, e, b, en); }
}
}  // namespace pal_statistics
#define REGISTER_ENTITY(KEY, ID, ...) ::pal_statistics::shim_detail::reg(KEY, ID, __VA_ARGS__)
#define UNREGISTER_ENTITY(KEY, ID) ::pal_statistics::getRegistry(KEY)->unregister(ID)
#define CLEAR_ALL_REGISTRIES() do { std::lock_guard<std::mutex> shim_g_(::pal_statistics::regs_mutex()); for (auto & shim_kv_ : ::pal_statistics::regs()) shim_kv_.second->clear(); } while (0)
#define INITIALIZE_REGISTRY(node, topic, key) (void)::pal_statistics::getRegistry(key)
#define START_PUBLISH_THREAD(key) (void)::pal_statistics::getRegistry(key)
#define PUBLISH_ASYNC_STATISTICS(key) (void)::pal_statistics::getRegistry(key)
namespace libstatistics_collector::moving_average_statistics
{
struct StatisticData
{
  double average = std::nan(""), min = std::nan(""), max = std::nan(""), standard_deviation = std::nan(""); uint64_t sample_count = 0;
};
}
#endif
