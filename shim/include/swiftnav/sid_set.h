#ifndef SHIM_SWIFTNAV_SID_SET_H
#define SHIM_SWIFTNAV_SID_SET_H
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
  u64 sats[CODE_COUNT];
} gnss_sid_set_t;
void sid_set_init(gnss_sid_set_t *s);
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t sid);
void sid_set_remove(gnss_sid_set_t *s, gnss_signal_t sid);
u32 sid_set_get_sat_count(const gnss_sid_set_t *s);
u32 sid_set_get_sig_count(const gnss_sid_set_t *s);
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t sid);
#ifdef __cplusplus
}
#endif
#endif
