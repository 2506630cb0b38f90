#pragma once
#include "builtin_interfaces/msg/time.hpp"
#include "rclcpp/duration.hpp"
namespace rclcpp
{
class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t t = RCL_SYSTEM_TIME)
  : ns_(static_cast<int64_t>(s) * 1000000000LL + ns), t_(t)
  {
    if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
  }
  explicit Time(int64_t ns = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns_(ns), t_(t) {}
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME)  // NOLINT
  : ns_(m.sec * 1000000000LL + m.nanosec), t_(t) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    m.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return m;
  }
  rcl_time_point_value_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  rcl_clock_type_t get_clock_type() const { return t_; }
  static Time max(rcl_clock_type_t t = RCL_SYSTEM_TIME) { return Time(std::numeric_limits<int64_t>::max(), t); }
  bool operator==(const Time & o) const { chk(o, "compare"); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return !(*this == o); }
  bool operator<(const Time & o) const { chk(o, "compare"); return ns_ < o.ns_; }
  bool operator<=(const Time & o) const { chk(o, "compare"); return ns_ <= o.ns_; }
  bool operator>(const Time & o) const { chk(o, "compare"); return ns_ > o.ns_; }
  bool operator>=(const Time & o) const { chk(o, "compare"); return ns_ >= o.ns_; }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), t_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), t_); }
  Duration operator-(const Time & o) const { chk(o, "subtract"); return Duration::from_nanoseconds(ns_ - o.ns_); }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }
private:
  void chk(const Time & o, const char * what) const
  {
    if (t_ != o.t_)
      throw std::runtime_error(std::string("can't ") + what + " times with different time sources [" +
        std::to_string(t_) + " != " + std::to_string(o.t_) + "]");
  }
  int64_t ns_;
  rcl_clock_type_t t_;
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }
}  // namespace rclcpp
