#pragma once
#include "rclcpp/shim_core.hpp"
namespace realtime_tools
{
template <class T> class RealtimeBuffer
{
public:
  RealtimeBuffer() : nrt_(new T()), rt_(new T()) {}
  explicit RealtimeBuffer(const T & d) : nrt_(new T(d)), rt_(new T(d)) {}
  RealtimeBuffer(const RealtimeBuffer & o) : RealtimeBuffer() { *this = o; }
  RealtimeBuffer & operator=(const RealtimeBuffer & o)
  { if (this != &o) { std::lock_guard<std::mutex> g(m_); *nrt_ = *o.nrt_; *rt_ = *o.rt_; new_ = o.new_; } return *this; }
  T * readFromRT() { std::unique_lock<std::mutex> l(m_, std::try_to_lock); if (l.owns_lock() && new_) { std::swap(nrt_, rt_); new_ = false; } return rt_.get(); }
  T * readFromNonRT() const { std::lock_guard<std::mutex> g(m_); return new_ ? nrt_.get() : rt_.get(); }
  void writeFromNonRT(const T & d) { std::lock_guard<std::mutex> g(m_); *nrt_ = d; new_ = true; }
  void initRT(const T & d) { std::lock_guard<std::mutex> g(m_); *nrt_ = d; *rt_ = d; }
  void reset() { std::lock_guard<std::mutex> g(m_); nrt_.reset(new T()); rt_.reset(new T()); new_ = false; }
private:
  std::unique_ptr<T> nrt_, rt_;
  bool new_ = false;
  mutable std::mutex m_;
};
}  // namespace realtime_tools
