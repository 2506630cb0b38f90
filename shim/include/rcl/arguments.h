#pragma once
#include "rcl/shim_rcl.h"
