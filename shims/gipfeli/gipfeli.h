#pragma once
#include <memory>
#include "gipfeli/compression.h"
namespace google { namespace compression {
std::unique_ptr<Compressor> NewGipfeliCompressor();
}}
