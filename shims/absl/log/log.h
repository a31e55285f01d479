#pragma once
#include "absl/base/log_severity.h"
#include "absl/log/check.h"
#define PRINCIPIA_SHIM_LOG_INFO ::absl::log_internal::null_stream()
#define PRINCIPIA_SHIM_LOG_WARNING ::absl::log_internal::null_stream()
#define PRINCIPIA_SHIM_LOG_ERROR ::absl::log_internal::null_stream()
#define PRINCIPIA_SHIM_LOG_FATAL ::absl::log_internal::check_failed()
#define PRINCIPIA_SHIM_LOG_QFATAL ::absl::log_internal::check_failed()
#define PRINCIPIA_SHIM_LOG_DFATAL ::absl::log_internal::null_stream()
namespace absl { namespace log_internal {
template<typename T> NullStream& level_stream(T const&) { return null_stream(); }
inline bool vlog_is_on(int) { return false; }
inline bool every_n(int) { return true; }
inline bool every_n_sec(double) { return true; }
}}
#define PRINCIPIA_SHIM_LOG_LEVEL(s) ::absl::log_internal::level_stream(s)
#define LOG(severity) PRINCIPIA_SHIM_LOG_##severity
#define DLOG(severity) switch (0) case 0: default: true ? (void)0 : ::absl::log_internal::Voidify() && ::absl::log_internal::null_stream()
#define LOG_IF(severity, cond) \
  switch (0) case 0: default: !(cond) ? (void)0 : ::absl::log_internal::Voidify() && PRINCIPIA_SHIM_LOG_##severity
#define VLOG_IS_ON(n) ::absl::log_internal::vlog_is_on(n)
#define VLOG(n) \
  switch (0) case 0: default: !VLOG_IS_ON(n) ? (void)0 : ::absl::log_internal::Voidify() && ::absl::log_internal::null_stream()
#define LOG_EVERY_N(severity, n) \
  switch (0) case 0: default: !::absl::log_internal::every_n(n) ? (void)0 : ::absl::log_internal::Voidify() && PRINCIPIA_SHIM_LOG_##severity
#define LOG_EVERY_N_SEC(severity, n) \
  switch (0) case 0: default: !::absl::log_internal::every_n_sec(n) ? (void)0 : ::absl::log_internal::Voidify() && PRINCIPIA_SHIM_LOG_##severity
#define LOG_IF_EVERY_N(severity, cond, n) \
  switch (0) case 0: default: !((cond) && ::absl::log_internal::every_n(n)) ? (void)0 : ::absl::log_internal::Voidify() && PRINCIPIA_SHIM_LOG_##severity
#define LOG_IF_EVERY_N_SEC(severity, cond, n) \
  switch (0) case 0: default: !((cond) && ::absl::log_internal::every_n_sec(n)) ? (void)0 : ::absl::log_internal::Voidify() && PRINCIPIA_SHIM_LOG_##severity
