#ifndef SHIM_SWIFTNAV_FIFO_BYTE_H
#define SHIM_SWIFTNAV_FIFO_BYTE_H
#include <swiftnav/common.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef u32 fifo_size_t;
typedef struct {
  fifo_size_t read_index, write_index, buffer_size;
  u8 *buffer;
} fifo_t;
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size);
fifo_size_t fifo_length(fifo_t *f);
fifo_size_t fifo_space(fifo_t *f);
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n);
fifo_size_t fifo_peek(fifo_t *f, u8 *b, fifo_size_t n);
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n);
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n);
#ifdef __cplusplus
}
#endif
#endif
