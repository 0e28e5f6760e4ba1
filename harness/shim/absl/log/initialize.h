#pragma once
#include "absl/log/shim.h"
