#pragma once
#include <cstddef>
unsigned lodepng_encode32(unsigned char** out, size_t* outsize, const unsigned char* image, unsigned w, unsigned h);
unsigned lodepng_encode32_file(const char* filename, const unsigned char* image, unsigned w, unsigned h);
