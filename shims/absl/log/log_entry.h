#pragma once
#include "absl/log/log_sink.h"
