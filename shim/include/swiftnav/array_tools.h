#ifndef SHIM_SWIFTNAV_ARRAY_TOOLS_H
#define SHIM_SWIFTNAV_ARRAY_TOOLS_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
bool is_value_in_array_u8(const uint8_t *a, size_t n, uint8_t v);
bool is_value_in_array_u16(const uint16_t *a, size_t n, uint16_t v);
bool is_value_in_array_u32(const uint32_t *a, size_t n, uint32_t v);
#ifdef __cplusplus
}
#endif
#endif
