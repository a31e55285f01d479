#pragma once
#include "absl/log/check.h"
#define ABSL_DIE_IF_NULL(x) ::absl::log_internal::die_if_null((x))
