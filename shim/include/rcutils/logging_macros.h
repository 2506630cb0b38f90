#pragma once
#include "rclcpp/shim_core.hpp"
#define RCUTILS_LOG_DEBUG_NAMED(n, ...) do { if (false) { ::shim::log(10, n, __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_INFO_NAMED(n, ...) ::shim::log(20, n, __VA_ARGS__)
#define RCUTILS_LOG_WARN_NAMED(n, ...) ::shim::log(30, n, __VA_ARGS__)
#define RCUTILS_LOG_ERROR_NAMED(n, ...) ::shim::log(40, n, __VA_ARGS__)
#define RCUTILS_LOG_FATAL_NAMED(n, ...) ::shim::log(50, n, __VA_ARGS__)
#define RCUTILS_LOG_DEBUG(...) do { if (false) { ::shim::log(10, "", __VA_ARGS__); } } while (0)
#define RCUTILS_LOG_INFO(...) ::shim::log(20, "", __VA_ARGS__)
#define RCUTILS_LOG_WARN(...) ::shim::log(30, "", __VA_ARGS__)
#define RCUTILS_LOG_ERROR(...) ::shim::log(40, "", __VA_ARGS__)
