#ifndef SHIM_SWIFTNAV_BITSTREAM_H
#define SHIM_SWIFTNAV_BITSTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const u8 *data;
  u32 len;
  u32 offset;
} swiftnav_bitstream_t;
void swiftnav_bitstream_init(swiftnav_bitstream_t *b, const u8 *data, u32 len_bits);
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b, u32 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b, s32 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b, u64 *out, u32 pos, u8 len);
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b, s64 *out, u32 pos, u8 len);
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *b, u32 len);
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *b);
#ifdef __cplusplus
}
#endif
#endif
