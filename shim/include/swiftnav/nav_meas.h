#ifndef SHIM_SWIFTNAV_NAV_MEAS_H
#define SHIM_SWIFTNAV_NAV_MEAS_H
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
u8 encode_lock_time(double nm_lock_time);
double decode_lock_time(u8 sbp_lock_time);
#ifdef __cplusplus
}
#endif
typedef u16 nav_meas_flags_t;
#define NAV_MEAS_FLAG_CODE_VALID (1 << 0)
#define NAV_MEAS_FLAG_PHASE_VALID (1 << 1)
#define NAV_MEAS_FLAG_MEAS_DOPPLER_VALID (1 << 2)
#define NAV_MEAS_FLAG_COMP_DOPPLER_VALID (1 << 3)
#define NAV_MEAS_FLAG_HALF_CYCLE_KNOWN (1 << 4)
#define NAV_MEAS_FLAG_CN0_VALID (1 << 5)
#define NAV_MEAS_FLAG_RAIM_EXCLUSION (1 << 6)
#endif
