#pragma once
#include "pal_statistics/pal_statistics.hpp"
