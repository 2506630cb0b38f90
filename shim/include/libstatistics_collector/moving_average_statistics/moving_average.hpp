#pragma once
#include <algorithm>
#include <cmath>
#include <limits>
#include <mutex>
#include <numeric>
#include <string>
#include <type_traits>
#include "libstatistics_collector/moving_average_statistics/types.hpp"
