#pragma once
#define RCLCPP_VERSION_MAJOR 30
#define RCLCPP_VERSION_MINOR 0
#define RCLCPP_VERSION_PATCH 0
#define RCLCPP_VERSION_STR "30.0.0"
#define RCLCPP_VERSION_GTE(major, minor, patch) \
  ((major < RCLCPP_VERSION_MAJOR) ? (1) : ((major > RCLCPP_VERSION_MAJOR) ? (0) : \
  ((minor < RCLCPP_VERSION_MINOR) ? (1) : ((minor > RCLCPP_VERSION_MINOR) ? (0) : \
  ((patch < RCLCPP_VERSION_PATCH) ? (1) : ((patch > RCLCPP_VERSION_PATCH) ? (0) : (1)))))))
