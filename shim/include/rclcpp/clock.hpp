#pragma once
#include "rclcpp/time.hpp"
namespace rclcpp
{
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : t_(t) {}
  Time now() const { return Time(shim::now_ns(), t_); }
  rcl_clock_type_t get_clock_type() const noexcept { return t_; }
  bool started() { return true; }
  bool ros_time_is_active() { return false; }
  bool wait_until_started() { return true; }
  bool wait_until_started(const Duration &) { return true; }
  bool sleep_until(Time until) { return sleep_for(until - now()); }
  bool sleep_for(Duration d)
  {
    if (d.nanoseconds() <= 0) return true;
    if (shim::vtime().enabled.load()) shim::vtime().now_ns += d.nanoseconds();
    else std::this_thread::sleep_for(std::chrono::nanoseconds(d.nanoseconds()));
    return true;
  }
private:
  rcl_clock_type_t t_;
};
}  // namespace rclcpp
