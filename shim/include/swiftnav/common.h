#ifndef SHIM_SWIFTNAV_COMMON_H
#define SHIM_SWIFTNAV_COMMON_H
#include <assert.h>
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <swiftnav/macros.h>
#ifndef COMMON_INTEGER_TYPES
#define COMMON_INTEGER_TYPES
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#endif
#include <swiftnav/memcpy_s.h>
#include <swiftnav/array_tools.h>
#endif
