#ifndef SHIM_SWIFTNAV_BYTESTREAM_H
#define SHIM_SWIFTNAV_BYTESTREAM_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  const u8 *data;
  u32 len;
  u32 offset;
} swiftnav_bytestream_t;
void swiftnav_bytestream_init(swiftnav_bytestream_t *b, const u8 *data, u32 len);
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *b, u32 pos, u32 len, u8 *out);
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *b, u32 len);
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b);
#ifdef __cplusplus
}
#endif
#endif
