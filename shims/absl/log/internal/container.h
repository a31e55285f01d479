#pragma once
namespace absl { namespace log_internal {
struct LogContainerDummy {};
template<typename C> LogContainerDummy LogContainer(C const&);
}}
