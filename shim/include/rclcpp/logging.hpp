#pragma once
#include "rclcpp/logger.hpp"
// As with rclcpp's default level (INFO), DEBUG arguments are type-checked but never evaluated.
#define SHIM_LOG_(level, logger, ...) ::shim::log(level, (logger).get_name(), __VA_ARGS__)
#define SHIM_STREAM_(level, logger, x) do { std::stringstream shim_ss_; shim_ss_ << x; ::shim::log(level, (logger).get_name(), "%s", shim_ss_.str().c_str()); } while (0)
#define RCLCPP_DEBUG(logger, ...) do { if (false) { SHIM_LOG_(10, logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_ONCE(logger, ...) RCLCPP_DEBUG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_EXPRESSION(logger, e, ...) do { if (false && (e)) { SHIM_LOG_(10, logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_FUNCTION(logger, f, ...) RCLCPP_DEBUG(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_THROTTLE(logger, clk, d, ...) do { if (false) { (void)(clk).now(); (void)(d); SHIM_LOG_(10, logger, __VA_ARGS__); } } while (0)
#define RCLCPP_DEBUG_STREAM(logger, x) do { if (false) SHIM_STREAM_(10, logger, x); } while (0)
#define RCLCPP_DEBUG_STREAM_ONCE(logger, x) RCLCPP_DEBUG_STREAM(logger, x)
#define RCLCPP_DEBUG_STREAM_THROTTLE(logger, clk, d, x) RCLCPP_DEBUG_STREAM(logger, x)
#define RCLCPP_DEBUG_SKIPFIRST(logger, ...) RCLCPP_DEBUG(logger, __VA_ARGS__)

#define SHIM_EXPR_(l, logger, e, ...) do { if (e) { SHIM_LOG_(l, logger, __VA_ARGS__); } } while (0)
#define SHIM_THR_(l, logger, clk, d, ...) do { (void)(clk).now(); (void)(d); SHIM_LOG_(l, logger, __VA_ARGS__); } while (0)
#define SHIM_STHR_(l, logger, clk, d, x) do { (void)(clk).now(); (void)(d); SHIM_STREAM_(l, logger, x); } while (0)

#define RCLCPP_INFO(logger, ...) SHIM_LOG_(20, logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE(logger, ...) SHIM_LOG_(20, logger, __VA_ARGS__)
#define RCLCPP_INFO_EXPRESSION(logger, e, ...) SHIM_EXPR_(20, logger, e, __VA_ARGS__)
#define RCLCPP_INFO_SKIPFIRST(logger, ...) SHIM_LOG_(20, logger, __VA_ARGS__)
#define RCLCPP_INFO_THROTTLE(logger, clk, d, ...) SHIM_THR_(20, logger, clk, d, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(logger, x) SHIM_STREAM_(20, logger, x)
#define RCLCPP_INFO_STREAM_ONCE(logger, x) SHIM_STREAM_(20, logger, x)
#define RCLCPP_INFO_STREAM_THROTTLE(logger, clk, d, x) SHIM_STHR_(20, logger, clk, d, x)
#define RCLCPP_WARN(logger, ...) SHIM_LOG_(30, logger, __VA_ARGS__)
#define RCLCPP_WARN_ONCE(logger, ...) SHIM_LOG_(30, logger, __VA_ARGS__)
#define RCLCPP_WARN_EXPRESSION(logger, e, ...) SHIM_EXPR_(30, logger, e, __VA_ARGS__)
#define RCLCPP_WARN_SKIPFIRST(logger, ...) SHIM_LOG_(30, logger, __VA_ARGS__)
#define RCLCPP_WARN_THROTTLE(logger, clk, d, ...) SHIM_THR_(30, logger, clk, d, __VA_ARGS__)
#define RCLCPP_WARN_STREAM(logger, x) SHIM_STREAM_(30, logger, x)
#define RCLCPP_WARN_STREAM_ONCE(logger, x) SHIM_STREAM_(30, logger, x)
#define RCLCPP_WARN_STREAM_THROTTLE(logger, clk, d, x) SHIM_STHR_(30, logger, clk, d, x)
#define RCLCPP_ERROR(logger, ...) SHIM_LOG_(40, logger, __VA_ARGS__)
#define RCLCPP_ERROR_ONCE(logger, ...) SHIM_LOG_(40, logger, __VA_ARGS__)
#define RCLCPP_ERROR_EXPRESSION(logger, e, ...) SHIM_EXPR_(40, logger, e, __VA_ARGS__)
#define RCLCPP_ERROR_SKIPFIRST(logger, ...) SHIM_LOG_(40, logger, __VA_ARGS__)
#define RCLCPP_ERROR_THROTTLE(logger, clk, d, ...) SHIM_THR_(40, logger, clk, d, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM(logger, x) SHIM_STREAM_(40, logger, x)
#define RCLCPP_ERROR_STREAM_ONCE(logger, x) SHIM_STREAM_(40, logger, x)
#define RCLCPP_ERROR_STREAM_THROTTLE(logger, clk, d, x) SHIM_STHR_(40, logger, clk, d, x)
#define RCLCPP_FATAL(logger, ...) SHIM_LOG_(50, logger, __VA_ARGS__)
#define RCLCPP_FATAL_ONCE(logger, ...) SHIM_LOG_(50, logger, __VA_ARGS__)
#define RCLCPP_FATAL_EXPRESSION(logger, e, ...) SHIM_EXPR_(50, logger, e, __VA_ARGS__)
#define RCLCPP_FATAL_THROTTLE(logger, clk, d, ...) SHIM_THR_(50, logger, clk, d, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM(logger, x) SHIM_STREAM_(50, logger, x)
