#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
extern "C" {
struct zfp_stream; struct zfp_field; struct bitstream;
typedef enum { zfp_type_none = 0, zfp_type_int32 = 1, zfp_type_int64 = 2, zfp_type_float = 3, zfp_type_double = 4 } zfp_type;
#define ZFP_HEADER_MAGIC 0x1u
#define ZFP_HEADER_META 0x2u
#define ZFP_HEADER_MODE 0x4u
#define ZFP_CODEC 5
#define ZFP_VERSION 0x0055
zfp_stream* zfp_stream_open(bitstream*); void zfp_stream_close(zfp_stream*);
void zfp_stream_set_reversible(zfp_stream*); double zfp_stream_set_accuracy(zfp_stream*, double);
size_t zfp_stream_maximum_size(const zfp_stream*, const zfp_field*);
void zfp_stream_set_bit_stream(zfp_stream*, bitstream*);
size_t zfp_write_header(zfp_stream*, const zfp_field*, unsigned); size_t zfp_read_header(zfp_stream*, zfp_field*, unsigned);
size_t zfp_compress(zfp_stream*, const zfp_field*); size_t zfp_decompress(zfp_stream*, zfp_field*);
zfp_field* zfp_field_1d(void*, zfp_type, size_t); zfp_field* zfp_field_2d(void*, zfp_type, size_t, size_t);
zfp_field* zfp_field_3d(void*, zfp_type, size_t, size_t, size_t); zfp_field* zfp_field_4d(void*, zfp_type, size_t, size_t, size_t, size_t);
void zfp_field_free(zfp_field*);
bitstream* stream_open(void*, size_t); void stream_close(bitstream*); void* stream_data(const bitstream*); size_t stream_size(const bitstream*);
}
