#pragma once
#include "realtime_tools/mutex.hpp"
namespace realtime_tools
{
template <class T, class M = std::mutex> class RealtimeThreadSafeBox
{
public:
  using mutex_t = M;
  using type = T;
  RealtimeThreadSafeBox() = default;
  explicit RealtimeThreadSafeBox(const T & v) : v_(v) {}
  RealtimeThreadSafeBox & operator=(const T & v) { set(v); return *this; }
  bool try_set(const T & v) { std::unique_lock<M> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; v_ = v; return true; }
  std::optional<T> try_get() const { std::unique_lock<M> l(m_, std::try_to_lock); if (!l.owns_lock()) return std::nullopt; return v_; }
  bool try_get(T & out) const { std::unique_lock<M> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; out = v_; return true; }
  void set(const T & v) { std::lock_guard<M> g(m_); v_ = v; }
  T get() const { std::lock_guard<M> g(m_); return v_; }
  void get(T & out) const { std::lock_guard<M> g(m_); out = v_; }
  void set(const std::function<void(T &)> & f) { std::lock_guard<M> g(m_); f(v_); }
  void get(const std::function<void(const T &)> & f) const { std::lock_guard<M> g(m_); f(v_); }
  bool try_set(const std::function<void(T &)> & f) { std::unique_lock<M> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; f(v_); return true; }
  bool try_get(const std::function<void(const T &)> & f) const { std::unique_lock<M> l(m_, std::try_to_lock); if (!l.owns_lock()) return false; f(v_); return true; }
private:
  T v_{};
  mutable M m_;
};
template <class T> using RealtimeBox = RealtimeThreadSafeBox<T>;
}  // namespace realtime_tools
