#pragma once
#include "absl/base/log_severity.h"
namespace absl {
LogSeverityAtLeast StderrThreshold();
void SetStderrThreshold(LogSeverityAtLeast);
void SetStderrThreshold(LogSeverity);
LogSeverityAtLeast MinLogLevel();
void SetMinLogLevel(LogSeverityAtLeast);
int SetGlobalVLogLevel(int);
struct ScopedStderrThreshold { explicit ScopedStderrThreshold(LogSeverityAtLeast); ~ScopedStderrThreshold(); };
}
