#pragma once
#include "rclcpp/shim_core.hpp"
#include "lifecycle_msgs/msg/state.hpp"
namespace rclcpp_lifecycle
{
class State
{
public:
  State() : State(lifecycle_msgs::msg::State::PRIMARY_STATE_UNKNOWN, "unknown") {}
  State(uint8_t id, const std::string & label) : id_(id), label_(label)
  { if (label.empty()) throw std::runtime_error("Lifecycle State cannot have an empty label."); }
  virtual ~State() = default;
  State(const State &) = default;
  State & operator=(const State &) = default;
  uint8_t id() const { return id_; }
  std::string label() const { return label_; }
private:
  uint8_t id_;
  std::string label_;
};
}  // namespace rclcpp_lifecycle
