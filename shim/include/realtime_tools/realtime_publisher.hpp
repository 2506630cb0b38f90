#pragma once
#include "rclcpp/node.hpp"
namespace realtime_tools
{
template <class MsgT> class RealtimePublisher
{
public:
  using PublisherSharedPtr = typename rclcpp::Publisher<MsgT>::SharedPtr;
  using SharedPtr = std::shared_ptr<RealtimePublisher<MsgT>>;
  explicit RealtimePublisher(PublisherSharedPtr p) : p_(p) {}
  bool trylock() { return m_.try_lock(); }
  void unlock() { m_.unlock(); }
  void unlockAndPublish() { p_->publish(msg_); m_.unlock(); }
  bool try_publish(const MsgT & m) { p_->publish(m); return true; }
  bool can_publish() const { return true; }
  MsgT msg_;
private:
  PublisherSharedPtr p_;
  std::mutex m_;
};
}  // namespace realtime_tools
