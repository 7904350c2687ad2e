#ifndef SHIM_MISC_HPP_
#define SHIM_MISC_HPP_
#include "shim/core.hpp"
#define RCUTILS_LOG_DEBUG_NAMED(name, ...) ::shim::vlog(10, name, __VA_ARGS__)
#define RCUTILS_LOG_INFO_NAMED(name, ...) ::shim::vlog(20, name, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(name, ...) ::shim::vlog(30, name, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(name, ...) ::shim::vlog(40, name, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(name, ...) ::shim::vlog(50, name, __VA_ARGS__)
namespace rcpputils
{
template <class T> struct is_pointer : std::is_pointer<T> {};
template <class T> struct is_pointer<std::shared_ptr<T>> : std::true_type {};
template <class T> struct is_pointer<std::unique_ptr<T>> : std::true_type {};
}
#endif
