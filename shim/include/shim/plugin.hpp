#ifndef SHIM_PLUGIN_HPP_
#define SHIM_PLUGIN_HPP_
#include "shim/core.hpp"
#include "shim/plugin_aliases.hpp"
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
template <class B> std::map<std::string, std::function<B *()>> & registry() { static auto * r = new std::map<std::string, std::function<B *()>>; return *r; }
template <class B> using UniquePtr = std::unique_ptr<B, std::function<void(B *)>>;
template <class B>
class ClassLoader
{
public:
  ClassLoader(const std::string & pkg, const std::string & base, const std::string & = "plugin", const std::vector<std::string> & = {}) : base_(base), pkg_(pkg) {}
  B * createUnmanagedInstance(const std::string & n) { return make(n); }
  std::shared_ptr<B> createSharedInstance(const std::string & n) { return std::shared_ptr<B>(make(n)); }
  UniquePtr<B> createUniqueInstance(const std::string & n) { return UniquePtr<B>(make(n), [](B * p) { delete p; }); }
  bool isClassAvailable(const std::string & n) { return find(n) != registry<B>().end(); }
  std::vector<std::string> getDeclaredClasses() { std::vector<std::string> r; for (auto & kv : registry<B>()) if (std::none_of(std::begin(shim::plugin_aliases), std::end(shim::plugin_aliases), [&](auto & a) { return base_ == a.base && kv.first == a.type; })) r.push_back(kv.first); for (auto & a : shim::plugin_aliases) if (base_ == a.base && registry<B>().count(a.type)) r.push_back(a.name); return r; }
  std::string getBaseClassType() const { return base_; }
  std::string getName(const std::string & l) { return l; }
private:
  B * make(const std::string & n) { auto it = find(n); if (it == registry<B>().end()) throw LibraryLoadException("According to the loaded plugin descriptions the class " + n + " with base class type " + base_ + " does not exist."); return it->second(); }
  auto find(const std::string & n) { for (auto & a : shim::plugin_aliases) if (base_ == a.base && n == a.name) return registry<B>().find(a.type); return registry<B>().find(n); }
  std::string base_, pkg_;
};
template <class D, class B> struct Registrar
{
  explicit Registrar(const std::string & n)
  {
    registry<B>()[n] = [] { return static_cast<B *>(new D()); };
    std::string s = n; auto p = s.find("::"); if (p != std::string::npos) { s.replace(p, 2, "/"); registry<B>()[s] = [] { return static_cast<B *>(new D()); }; }
  }
};
}  // namespace pluginlib
#define SHIM_CAT2_(a, b) a##b
#define SHIM_CAT_(a, b) SHIM_CAT2_(a, b)
#define PLUGINLIB_EXPORT_CLASS(D, B) namespace { static ::pluginlib::Registrar<D, B> SHIM_CAT_(shim_reg_, __COUNTER__)(#D); }
#endif
