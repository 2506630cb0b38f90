#pragma once
#include <stdint.h>
typedef int64_t rcl_duration_value_t;
typedef int64_t rcl_time_point_value_t;
typedef enum rcl_clock_type_e { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME } rcl_clock_type_t;
#define RCL_ROS_ARGS_FLAG "--ros-args"
#define RCL_ROS_ARGS_EXPLICIT_END_TOKEN "--"
#define RCL_PARAM_FLAG "--param"
#define RCL_SHORT_PARAM_FLAG "-p"
#define RCL_PARAM_FILE_FLAG "--params-file"
#define RCL_REMAP_FLAG "--remap"
#define RCL_SHORT_REMAP_FLAG "-r"
#define RCL_LOG_LEVEL_FLAG "--log-level"
#define RCL_S_TO_NS(seconds) (seconds * (1000LL * 1000LL * 1000LL))
#define RCL_MS_TO_NS(m) (m * (1000LL * 1000LL))
#define RCL_NS_TO_S(n) (n / (1000LL * 1000LL * 1000LL))
#define RCL_NS_TO_MS(n) (n / (1000LL * 1000LL))
typedef int rcl_ret_t;
#define RCL_RET_OK 0
