// Forced into files built with address sanitizer that share Abseil containers
// with files built without it: keeps the layout of the containers the same.
#pragma once
#include "absl/base/config.h"
#undef ABSL_HAVE_ADDRESS_SANITIZER
