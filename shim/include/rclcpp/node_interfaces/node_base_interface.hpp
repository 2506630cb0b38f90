#pragma once
#include "rclcpp/node.hpp"
