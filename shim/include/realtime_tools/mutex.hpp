#pragma once
#include "rclcpp/shim_core.hpp"
namespace realtime_tools
{
namespace detail
{
template <class M> class mutex_
{
public:
  mutex_() = default;
  mutex_(const mutex_ &) = delete;
  mutex_ & operator=(const mutex_ &) = delete;
  void lock() { shim::sched_point("lock", this); m_.lock(); }
  bool try_lock() { shim::sched_point("try_lock", this); return m_.try_lock(); }
  void unlock() { m_.unlock(); shim::sched_point("unlock", this); }
  auto native_handle() { return m_.native_handle(); }
  using native_handle_type = typename M::native_handle_type;
private:
  M m_;
};
}  // namespace detail
using prio_inherit_mutex = detail::mutex_<std::mutex>;
using prio_inherit_recursive_mutex = detail::mutex_<std::recursive_mutex>;
}  // namespace realtime_tools
