#ifndef SHIM_LIBSBP_EDC_H
#define SHIM_LIBSBP_EDC_H
#include <libsbp/common.h>
#ifdef __cplusplus
extern "C" {
#endif
u16 crc16_ccitt(const u8 *buf, u32 len, u16 crc);
#ifdef __cplusplus
}
#endif
#endif
