#pragma once
#include "absl/log/log_sink.h"
namespace absl { void AddLogSink(LogSink*); void RemoveLogSink(LogSink*); void FlushLogSinks(); }
