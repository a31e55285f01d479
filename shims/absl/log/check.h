// Declaration-level stand-in for absl/log/check.h, used only to give the
// static analyses a resolved AST/IR.  It is never linked or executed by a check.
#pragma once
#include <ostream>
#include <utility>
#include "absl/base/attributes.h"
#include "absl/base/optimization.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl {
namespace log_internal {
class CheckFailure {
 public:
  template<typename F> CheckFailure& AtLocation(F const&, int) { return *this; }
  template<typename T> CheckFailure& operator<<(T const&) { return *this; }
  CheckFailure& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
// The sink of a failed CHECK: constructing it never returns.
[[noreturn]] inline CheckFailure& check_failed() { __builtin_trap(); }
class NullStream {
 public:
  template<typename F> NullStream& AtLocation(F const&, int) { return *this; }
  template<typename T> NullStream& operator<<(T const&) { return *this; }
  NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};
inline NullStream& null_stream() { static NullStream s; return s; }
struct Voidify {
  template<typename T> void operator&&(T const&) const {}
};
template<typename T> bool status_ok(T const& t) { return t.ok(); }
template<typename A, typename B> bool check_eq(A const& a, B const& b) { return a == b; }
template<typename A, typename B> bool check_ne(A const& a, B const& b) { return a != b; }
template<typename A, typename B> bool check_lt(A const& a, B const& b) { return a < b; }
template<typename A, typename B> bool check_le(A const& a, B const& b) { return a <= b; }
template<typename A, typename B> bool check_gt(A const& a, B const& b) { return a > b; }
template<typename A, typename B> bool check_ge(A const& a, B const& b) { return a >= b; }
template<typename T>
T die_if_null(T&& t) {
  if (t == nullptr) check_failed();
  return std::forward<T>(t);
}
}  // namespace log_internal
}  // namespace absl
#define PRINCIPIA_SHIM_CHECK_(cond)                   \
  switch (0) case 0: default:                         \
    (cond) ? (void)0                                  \
           : ::absl::log_internal::Voidify() &&       \
                 ::absl::log_internal::check_failed()
#define CHECK(c) PRINCIPIA_SHIM_CHECK_(c)
#define QCHECK(c) PRINCIPIA_SHIM_CHECK_(c)
#define CHECK_OK(s) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::status_ok(s))
#define CHECK_EQ(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_eq(a, b))
#define CHECK_NE(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_ne(a, b))
#define CHECK_LT(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_lt(a, b))
#define CHECK_LE(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_le(a, b))
#define CHECK_GT(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_gt(a, b))
#define CHECK_GE(a, b) PRINCIPIA_SHIM_CHECK_(::absl::log_internal::check_ge(a, b))
#ifdef NDEBUG
#define PRINCIPIA_SHIM_DCHECK_(cond)                     \
  switch (0) case 0: default:                            \
    (true || (cond)) ? (void)0                           \
           : ::absl::log_internal::Voidify() &&          \
                 ::absl::log_internal::null_stream()
#else
#define PRINCIPIA_SHIM_DCHECK_(cond) PRINCIPIA_SHIM_CHECK_(cond)
#endif
#define DCHECK(c) PRINCIPIA_SHIM_DCHECK_(c)
#define DCHECK_OK(s) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::status_ok(s))
#define DCHECK_EQ(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_eq(a, b))
#define DCHECK_NE(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_ne(a, b))
#define DCHECK_LT(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_lt(a, b))
#define DCHECK_LE(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_le(a, b))
#define DCHECK_GT(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_gt(a, b))
#define DCHECK_GE(a, b) PRINCIPIA_SHIM_DCHECK_(::absl::log_internal::check_ge(a, b))
