#ifndef SHIM_SWIFTNAV_EPHEMERIS_H
#define SHIM_SWIFTNAV_EPHEMERIS_H
#include <swiftnav/bits.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/signal.h>
#ifdef __cplusplus
extern "C" {
#endif
#define INVALID_URA_VALUE (-1.0f)
#define BDS_FIT_INTERVAL_SECONDS (3 * HOUR_SECS)
#define GAL_FIT_INTERVAL_SECONDS (4 * HOUR_SECS)
#define GLO_FIT_INTERVAL_SECONDS (40 * MINUTE_SECS)
#define GAL_INAV_CONTENT_BYTE 16
#define GLO_NAV_STR_BITS 85
#define GLO_NAV_STR_WORDS 3
#ifndef C_1_2P5
#define C_1_2P5 (1.0 / (double)(1ULL << 5))
#define C_1_2P6 (1.0 / (double)(1ULL << 6))
#define C_1_2P11 (1.0 / (double)(1ULL << 11))
#define C_1_2P12 (1.0 / (double)(1ULL << 12))
#define C_1_2P19 (1.0 / (double)(1ULL << 19))
#define C_1_2P20 (1.0 / (double)(1ULL << 20))
#define C_1_2P21 (1.0 / (double)(1ULL << 21))
#define C_1_2P23 (1.0 / (double)(1ULL << 23))
#define C_1_2P27 (1.0 / (double)(1ULL << 27))
#define C_1_2P28 (1.0 / (double)(1ULL << 28))
#define C_1_2P30 (1.0 / (double)(1ULL << 30))
#define C_1_2P32 (1.0 / (double)(1ULL << 32))
#define C_1_2P33 (1.0 / (double)(1ULL << 33))
#define C_1_2P34 (1.0 / (double)(1ULL << 34))
#define C_1_2P35 (1.0 / (double)(1ULL << 35))
#define C_1_2P38 (1.0 / (double)(1ULL << 38))
#define C_1_2P39 (1.0 / (double)(1ULL << 39))
#define C_1_2P40 (1.0 / (double)(1ULL << 40))
#define C_1_2P41 (1.0 / (double)(1ULL << 41))
#define C_1_2P43 (1.0 / (double)(1ULL << 43))
#define C_1_2P44 (1.0 / (double)(1ULL << 44))
#define C_1_2P46 (1.0 / (double)(1ULL << 46))
#define C_1_2P48 (1.0 / (double)(1ULL << 48))
#define C_1_2P49 (1.0 / (double)(1ULL << 49))
#define C_1_2P50 (1.0 / (double)(1ULL << 50))
#define C_1_2P51 (1.0 / (double)(1ULL << 51))
#define C_1_2P55 (1.0 / (double)(1ULL << 55))
#define C_1_2P59 (1.0 / (double)(1ULL << 59))
#define C_1_2P66 (1.0 / (double)(1ULL << 60) / (double)(1ULL << 6))
#define C_1_2P68 (1.0 / (double)(1ULL << 60) / (double)(1ULL << 8))
#endif
#define BDS_URA_TABLE_SIZE 16
extern const float g_bds_ura_table[BDS_URA_TABLE_SIZE];
typedef struct {
  u32 word[GLO_NAV_STR_WORDS];
} glo_string_t;
typedef struct {
  union {
    float gps_s[2], bds_s[2], gal_s[2], qzss_s;
  } tgd;
  double crc, crs, cuc, cus, cic, cis;
  double dn, m0, ecc, sqrta, omega0, omegadot, w, inc, inc_dot;
  double af0, af1, af2;
  gps_time_t toc;
  u16 iodc, iode;
} ephemeris_kepler_t;
typedef struct {
  double gamma, tau, d_tau;
  double pos[3], vel[3], acc[3];
  u16 fcn;
  u8 iod;
} ephemeris_glo_t;
typedef struct {
  double pos[3], vel[3], acc[3], a_gf0, a_gf1;
} ephemeris_xyz_t;
typedef enum { EPH_SOURCE_GAL_INAV = 0, EPH_SOURCE_GAL_FNAV = 1 } eph_source_t;
typedef struct {
  gnss_signal_t sid;
  gps_time_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
  u8 source;
  union {
    ephemeris_kepler_t kepler;
    ephemeris_xyz_t xyz;
    ephemeris_glo_t glo;
  } data;
} ephemeris_t;
void decode_ephemeris(const u32 words[3][8], ephemeris_t *e, double tot_tow);
bool decode_gal_ephemeris_safe(const u8 page[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e);
void decode_bds_d1_ephemeris(const u32 words[3][10], gnss_signal_t sid, ephemeris_t *e);
void decode_glo_ephemeris(const glo_string_t strings[5], gnss_signal_t sid, const utc_params_t *utc, ephemeris_t *e);
#ifdef __cplusplus
}
#endif
#endif
