#pragma once
#include "builtin_interfaces/msg/duration.hpp"
#include "rclcpp/shim_core.hpp"
namespace rclcpp
{
class Duration
{
public:
  Duration(int32_t seconds, uint32_t nanoseconds)
  : ns_(static_cast<int64_t>(seconds) * 1000000000LL + nanoseconds) {}
  explicit Duration(std::chrono::nanoseconds n) : ns_(n.count()) {}
  template <class Rep, class Period>
  Duration(const std::chrono::duration<Rep, Period> & d)  // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & m) : ns_(m.sec * 1000000000LL + m.nanosec) {}  // NOLINT
  Duration(const Duration &) = default;
  Duration & operator=(const Duration &) = default;
  static Duration from_nanoseconds(int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  static Duration from_seconds(double s)
  {
    return Duration(std::chrono::nanoseconds(static_cast<int64_t>(std::llround(s * 1e9))));
  }
  static Duration from_rmw_time(int64_t n) { return from_nanoseconds(n); }
  static Duration max() { return from_nanoseconds(std::numeric_limits<int64_t>::max()); }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration m;
    m.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    m.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return m;
  }
  rcl_duration_value_t nanoseconds() const { return ns_; }
  double seconds() const { return static_cast<double>(ns_) * 1e-9; }
  template <class D> D to_chrono() const
  {
    return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));
  }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator!=(const Duration & o) const { return ns_ != o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
  bool operator<=(const Duration & o) const { return ns_ <= o.ns_; }
  bool operator>(const Duration & o) const { return ns_ > o.ns_; }
  bool operator>=(const Duration & o) const { return ns_ >= o.ns_; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  Duration & operator+=(const Duration & o) { ns_ += o.ns_; return *this; }
  Duration & operator-=(const Duration & o) { ns_ -= o.ns_; return *this; }
  Duration operator*(double s) const { return from_nanoseconds(static_cast<int64_t>(static_cast<long double>(ns_) * s)); }
  Duration & operator*=(double s) { *this = *this * s; return *this; }
private:
  Duration() = default;
  int64_t ns_ = 0;
};
}  // namespace rclcpp
