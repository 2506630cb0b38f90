#pragma once
#include "rclcpp/node.hpp"
#include "rclcpp_lifecycle/node_interfaces/lifecycle_node_interface.hpp"
namespace rclcpp_lifecycle
{
template <class MsgT, class A = void>
class LifecyclePublisher : public rclcpp::Publisher<MsgT>
{
public:
  using SharedPtr = std::shared_ptr<LifecyclePublisher<MsgT>>;
  void on_activate() { active_ = true; }
  void on_deactivate() { active_ = false; }
  bool is_activated() const { return active_; }
  void publish(const MsgT & m) override { if (active_) rclcpp::Publisher<MsgT>::publish(m); }
private:
  bool active_ = false;
};
// The managed-node state machine of rcl_lifecycle (primary states, transition states, error
// processing, exceptions in callbacks counted as ERROR).
class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public rclcpp::NodeCommon,
                      public std::enable_shared_from_this<LifecycleNode>
{
public:
  using SharedPtr = std::shared_ptr<LifecycleNode>;
  using WeakPtr = std::weak_ptr<LifecycleNode>;
  explicit LifecycleNode(const std::string & name, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool comm = true)
  : LifecycleNode(name, "", o, comm) {}
  LifecycleNode(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions(), bool = true)
  : rclcpp::NodeCommon(name, ns, o), cur_(lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED, "unconfigured") {}
  const State & get_current_state() const { return cur_; }
  std::vector<State> get_available_states() const { return {}; }
  using Cb = std::function<CallbackReturn(const State &)>;
  bool register_on_configure(Cb f) { cfg_ = f; return true; }
  bool register_on_cleanup(Cb f) { cln_ = f; return true; }
  bool register_on_shutdown(Cb f) { shd_ = f; return true; }
  bool register_on_activate(Cb f) { act_ = f; return true; }
  bool register_on_deactivate(Cb f) { dea_ = f; return true; }
  bool register_on_error(Cb f) { err_ = f; return true; }
  const State & configure() { CallbackReturn r; return configure(r); }
  const State & configure(CallbackReturn & r);
  const State & cleanup() { CallbackReturn r; return cleanup(r); }
  const State & cleanup(CallbackReturn & r);
  const State & activate() { CallbackReturn r; return activate(r); }
  const State & activate(CallbackReturn & r);
  const State & deactivate() { CallbackReturn r; return deactivate(r); }
  const State & deactivate(CallbackReturn & r);
  const State & shutdown() { CallbackReturn r; return shutdown(r); }
  const State & shutdown(CallbackReturn & r);
  const State & trigger_transition(uint8_t id) { CallbackReturn r; return trigger_transition(id, r); }
  const State & trigger_transition(uint8_t id, CallbackReturn & r);
  template <class MsgT> std::shared_ptr<LifecyclePublisher<MsgT>> create_publisher(const std::string & topic, const rclcpp::QoS &)
  { auto p = std::make_shared<LifecyclePublisher<MsgT>>(); p->topic = shim::expand(topic, *base_); return p; }
private:
  const State & run(uint8_t from, uint8_t via, const char * vlabel, uint8_t ok, uint8_t fail, Cb & cb, CallbackReturn (LifecycleNode::*dflt)(const State &), CallbackReturn & r);
  CallbackReturn d_cfg(const State & s) { return on_configure(s); }
  CallbackReturn d_cln(const State & s) { return on_cleanup(s); }
  CallbackReturn d_shd(const State & s) { return on_shutdown(s); }
  CallbackReturn d_act(const State & s) { return on_activate(s); }
  CallbackReturn d_dea(const State & s) { return on_deactivate(s); }
  CallbackReturn d_err(const State & s) { return on_error(s); }
  State cur_;
  Cb cfg_, cln_, shd_, act_, dea_, err_;
};
}  // namespace rclcpp_lifecycle
