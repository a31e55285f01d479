#pragma once
#include <ostream>
#include <string>
#include "absl/base/log_severity.h"
#include "absl/log/globals.h"
#include "absl/log/log.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
namespace absl {
class LogEntry {
 public:
  LogSeverity log_severity() const;
  absl::string_view text_message() const;
  absl::string_view text_message_with_prefix() const;
  absl::string_view text_message_with_prefix_and_newline() const;
  absl::string_view source_filename() const;
  absl::string_view source_basename() const;
  absl::string_view stacktrace() const;
  int source_line() const;
  absl::Time timestamp() const;
  int tid() const;
  friend void PrintTo(LogEntry const& entry, std::ostream* os);
};
class LogSink { public: virtual ~LogSink() = default; virtual void Send(LogEntry const&) = 0; virtual void Flush() {} };
}
