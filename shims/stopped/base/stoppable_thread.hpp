#pragma once

#include <functional>
#include <stop_token>
#include <thread>

#include "absl/status/status.h"

// A thread which is being stopped after `stop` states have been appended.
static double stop;

namespace principia {
namespace base {
namespace _stoppable_thread {
namespace internal {

template<typename Function, typename... Args>
static std::jthread MakeStoppableThread(Function&& f, Args&&... args);

struct Token {
  bool stop_requested() const { return stop == 0; }
};

struct this_stoppable_thread {
  static Token get_stop_token() { return Token(); }
};

#define RETURN_IF_STOPPED                                             \
  do {                                                                \
    if (::principia::base::_stoppable_thread::this_stoppable_thread:: \
            get_stop_token()                                          \
                .stop_requested()) {                                  \
      return ::absl::CancelledError("Cancelled by stop token");       \
    }                                                                 \
  } while (false)

}  // namespace internal

using internal::MakeStoppableThread;
using internal::this_stoppable_thread;

}  // namespace _stoppable_thread
}  // namespace base
}  // namespace principia
