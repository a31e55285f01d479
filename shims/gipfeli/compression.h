#pragma once
#include <cstddef>
#include <string>
#include "gipfeli/sinksource.h"
namespace google { namespace compression {
class Compressor {
 public:
  virtual ~Compressor();
  virtual size_t Compress(const std::string& input, std::string* output);
  virtual size_t CompressStream(Source* source, Sink* sink) = 0;
  virtual bool Uncompress(const std::string& input, std::string* output);
  virtual bool UncompressStream(Source* source, Sink* sink) = 0;
  virtual size_t MaxCompressedLength(size_t n);
  virtual size_t GetUncompressedLength(const std::string&, size_t*);
};
}}
