#ifndef SHIM_SWIFTNAV_STRNLEN_H
#define SHIM_SWIFTNAV_STRNLEN_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
size_t swift_strnlen(const char *s, size_t max);
#ifdef __cplusplus
}
#endif
#endif
