#ifndef SHIM_SWIFTNAV_MEMCPY_S_H
#define SHIM_SWIFTNAV_MEMCPY_S_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void shim_memcpy_s(void *dst, size_t dn, const void *src, size_t n);
#define MEMCPY_S(d, dn, s, n) shim_memcpy_s((d), (dn), (s), (n))
#ifdef __cplusplus
}
#endif
#endif
