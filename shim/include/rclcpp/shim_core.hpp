// Stand-in for the parts of ROS 2 (rclcpp & friends) that ros2_control uses.  Single-process:
// services, topics, parameters and clocks are plain in-memory objects that a driver can reach.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cxxabi.h>
#include <chrono>
#include <cmath>
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <variant>
#include <vector>

#include "rcl/shim_rcl.h"

namespace shim
{
// ---- virtual time -------------------------------------------------------------------------
struct VirtualTime
{
  std::atomic<bool> enabled{false};
  std::atomic<int64_t> now_ns{0};
};
VirtualTime & vtime();
inline int64_t now_ns()
{
  if (vtime().enabled.load()) return vtime().now_ns.load();
  return std::chrono::duration_cast<std::chrono::nanoseconds>(
           std::chrono::steady_clock::now().time_since_epoch())
    .count();
}
// ---- logging ------------------------------------------------------------------------------
enum LogLevel { DEBUG = 10, INFO = 20, WARN = 30, ERROR = 40, FATAL = 50 };
int log_threshold();  // severity at or above which text is printed; from $SHIM_LOG (default none)
void log(int level, const char * name, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
// ---- schedule hooks (set by a driver that controls thread interleavings) ------------------
using SchedHook = void (*)(const char * what, const void * object);
extern std::atomic<SchedHook> sched_hook;
inline void sched_point(const char * what, const void * obj)
{
  auto h = sched_hook.load(std::memory_order_relaxed);
  if (h) h(what, obj);
}
// ---- parameter overrides keyed by node name (instead of --params-file parsing) -------------
}  // namespace shim
