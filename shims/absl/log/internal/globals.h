#pragma once
namespace absl { namespace log_internal { bool IsInitialized(); } }
