#ifndef SHIM_LIBSBP_COMMON_H
#define SHIM_LIBSBP_COMMON_H
#include <inttypes.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifndef COMMON_INTEGER_TYPES
#define COMMON_INTEGER_TYPES
typedef int8_t s8;
typedef int16_t s16;
typedef int32_t s32;
typedef int64_t s64;
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
#endif
#define SBP_ATTR_PACKED __attribute__((packed))
#define SBP_PACK_START
#define SBP_PACK_END
#define SBP_OK 0
#define SBP_OK_CALLBACK_EXECUTED 1
#define SBP_OK_CALLBACK_UNDEFINED 2
#define SBP_CALLBACK_ERROR -1
#define SBP_CRC_ERROR -2
#define SBP_SEND_ERROR -3
#define SBP_NULL_ERROR -4
#define SBP_WRITE_ERROR -5
#define SBP_READ_ERROR -6
#define SBP_DECODE_ERROR -7
#define SBP_ENCODE_ERROR -8
#define SBP_SENDER_ID 0x42
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  char data[255];
  size_t encoded_len;
} sbp_string_t;
#ifdef __cplusplus
}
#endif
#endif
