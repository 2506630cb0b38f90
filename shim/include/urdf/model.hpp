#pragma once
#include "urdf/model.h"
