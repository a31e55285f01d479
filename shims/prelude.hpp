// Names that libc++ (used by the project's Makefile) declares transitively or
// in the global namespace and that libstdc++ does not.
#pragma once
#include <cstddef>
#include <cstdint>
#include <type_traits>
#include <concepts>
using std::nullptr_t;
