#ifndef SHIM_SWIFTNAV_SIGNAL_H
#define SHIM_SWIFTNAV_SIGNAL_H
#include <swiftnav/common.h>
#include <swiftnav/constants.h>
#include <swiftnav/gnss_time.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum constellation_e {
  CONSTELLATION_INVALID = -1,
  CONSTELLATION_GPS,
  CONSTELLATION_SBAS,
  CONSTELLATION_GLO,
  CONSTELLATION_BDS,
  CONSTELLATION_QZS,
  CONSTELLATION_GAL,
  CONSTELLATION_COUNT,
} constellation_t;
typedef enum code_e {
  CODE_INVALID = -1,
  CODE_GPS_L1CA = 0,
  CODE_GPS_L2CM = 1,
  CODE_SBAS_L1CA = 2,
  CODE_GLO_L1OF = 3,
  CODE_GLO_L2OF = 4,
  CODE_GPS_L1P = 5,
  CODE_GPS_L2P = 6,
  CODE_GPS_L2CL = 7,
  CODE_GPS_L2CX = 8,
  CODE_GPS_L5I = 9,
  CODE_GPS_L5Q = 10,
  CODE_GPS_L5X = 11,
  CODE_BDS2_B1 = 12,
  CODE_BDS2_B2 = 13,
  CODE_GAL_E1B = 14,
  CODE_GAL_E1C = 15,
  CODE_GAL_E1X = 16,
  CODE_GAL_E6B = 17,
  CODE_GAL_E6C = 18,
  CODE_GAL_E6X = 19,
  CODE_GAL_E7I = 20,
  CODE_GAL_E7Q = 21,
  CODE_GAL_E7X = 22,
  CODE_GAL_E8I = 23,
  CODE_GAL_E8Q = 24,
  CODE_GAL_E8X = 25,
  CODE_GAL_E5I = 26,
  CODE_GAL_E5Q = 27,
  CODE_GAL_E5X = 28,
  CODE_GLO_L1P = 29,
  CODE_GLO_L2P = 30,
  CODE_QZS_L1CA = 31,
  CODE_QZS_L1CI = 32,
  CODE_QZS_L1CQ = 33,
  CODE_QZS_L1CX = 34,
  CODE_QZS_L2CM = 35,
  CODE_QZS_L2CL = 36,
  CODE_QZS_L2CX = 37,
  CODE_QZS_L5I = 38,
  CODE_QZS_L5Q = 39,
  CODE_QZS_L5X = 40,
  CODE_SBAS_L5I = 41,
  CODE_SBAS_L5Q = 42,
  CODE_SBAS_L5X = 43,
  CODE_BDS3_B1CI = 44,
  CODE_BDS3_B1CQ = 45,
  CODE_BDS3_B1CX = 46,
  CODE_BDS3_B5I = 47,
  CODE_BDS3_B5Q = 48,
  CODE_BDS3_B5X = 49,
  CODE_BDS3_B7I = 50,
  CODE_BDS3_B7Q = 51,
  CODE_BDS3_B7X = 52,
  CODE_BDS3_B3I = 53,
  CODE_BDS3_B3Q = 54,
  CODE_BDS3_B3X = 55,
  CODE_GPS_L1CI = 56,
  CODE_GPS_L1CQ = 57,
  CODE_GPS_L1CX = 58,
  CODE_AUX_GPS = 59,
  CODE_AUX_SBAS = 60,
  CODE_AUX_GAL = 61,
  CODE_AUX_QZS = 62,
  CODE_AUX_BDS = 63,
  CODE_COUNT = 64,
} code_t;
#define NUM_SATS_GPS 32
#define NUM_SATS_SBAS 39
#define NUM_SATS_GLO 28
#define NUM_SATS_BDS 64
#define NUM_SATS_QZS 10
#define NUM_SATS_GAL 36
#define NUM_SATS (NUM_SATS_GPS + NUM_SATS_SBAS + NUM_SATS_GLO + NUM_SATS_BDS + NUM_SATS_QZS + NUM_SATS_GAL)
#define GPS_FIRST_PRN 1
#define SBAS_FIRST_PRN 120
#define GLO_FIRST_PRN 1
#define BDS_FIRST_PRN 1
#define QZS_FIRST_PRN 193
#define GAL_FIRST_PRN 1
#define GLO_ORBIT_SLOT_UNKNOWN 0xff
#define GLO_FCN_UNKNOWN 0
#define GLO_FCN_OFFSET 8
#define GLO_MIN_FCN 1
#define GLO_MAX_FCN 14
#define SID_STR_LEN_MAX 16
#define CODE_STR_LEN_MAX 8
typedef struct {
  u16 sat;
  code_t code;
} gnss_signal_t;
bool sid_valid(gnss_signal_t sid);
bool code_valid(code_t c);
bool constellation_valid(constellation_t c);
constellation_t code_to_constellation(code_t code);
constellation_t sid_to_constellation(gnss_signal_t sid);
code_t constellation_to_l1_code(constellation_t c);
double sid_to_carr_freq(gnss_signal_t sid);
double code_to_carr_freq(code_t c);
double sid_to_lambda(gnss_signal_t sid);
int sid_to_string(char *s, int n, gnss_signal_t sid);
const char *code_to_string(code_t c);
u8 code_to_sig_count(code_t c);
u8 glo_map_get_fcn(gnss_signal_t sid);
void glo_map_set_slot_id(u16 fcn, u16 slot);
bool glo_map_valid(gnss_signal_t sid);
void glo_map_clear_all(void);
static inline gnss_signal_t construct_sid(code_t code, u16 sat) {
  gnss_signal_t s;
  s.sat = sat;
  s.code = code;
  return s;
}
static inline int sid_compare(gnss_signal_t a, gnss_signal_t b) {
  return a.code == b.code ? (int)a.sat - (int)b.sat : (int)a.code - (int)b.code;
}
static inline bool sid_is_equal(gnss_signal_t a, gnss_signal_t b) { return sid_compare(a, b) == 0; }
static inline bool is_gps(code_t c) { return code_to_constellation(c) == CONSTELLATION_GPS; }
static inline bool is_sbas(code_t c) { return code_to_constellation(c) == CONSTELLATION_SBAS; }
static inline bool is_glo(code_t c) { return code_to_constellation(c) == CONSTELLATION_GLO; }
static inline bool is_bds2(code_t c) { return c == CODE_BDS2_B1 || c == CODE_BDS2_B2; }
static inline bool is_qzss(code_t c) { return code_to_constellation(c) == CONSTELLATION_QZS; }
static inline bool is_gal(code_t c) { return code_to_constellation(c) == CONSTELLATION_GAL; }
#define IS_GPS(sid) (is_gps((sid).code))
#define IS_SBAS(sid) (is_sbas((sid).code))
#define IS_GLO(sid) (is_glo((sid).code))
#define IS_BDS2(sid) (is_bds2((sid).code))
#define IS_QZSS(sid) (is_qzss((sid).code))
#define IS_GAL(sid) (is_gal((sid).code))
#ifdef __cplusplus
}
#endif
#endif
