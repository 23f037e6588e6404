/* Generated by gen_sbp.py: stand-in for libsbp. Do not edit. */
#ifndef SHIM_SBP_ALL_H
#define SHIM_SBP_ALL_H
#include <libsbp/common.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_FRAMING_MAX_PAYLOAD_SIZE 255

#define SBP_MSG_OBS 0x004A
#define SBP_MSG_BASE_POS_LLH 0x0044
#define SBP_MSG_BASE_POS_ECEF 0x0048
#define SBP_MSG_EPHEMERIS_GPS 0x008A
#define SBP_MSG_EPHEMERIS_QZSS 0x008E
#define SBP_MSG_EPHEMERIS_BDS 0x0089
#define SBP_MSG_EPHEMERIS_GAL 0x008D
#define SBP_MSG_EPHEMERIS_SBAS 0x008C
#define SBP_MSG_EPHEMERIS_GLO 0x008B
#define SBP_MSG_GLO_BIASES 0x0075
#define SBP_MSG_SV_AZ_EL 0x0097
#define SBP_MSG_OSR 0x0640
#define SBP_MSG_SSR_ORBIT_CLOCK 0x05DD
#define SBP_MSG_SSR_CODE_BIASES 0x05E1
#define SBP_MSG_SSR_PHASE_BIASES 0x05E6
#define SBP_MSG_SSR_STEC_CORRECTION_DEP_A 0x05FB
#define SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A 0x05FA
#define SBP_MSG_SSR_GRID_DEFINITION_DEP_A 0x05F5
#define SBP_MSG_GPS_TIME 0x0102
#define SBP_MSG_GPS_TIME_GNSS 0x0104
#define SBP_MSG_UTC_TIME 0x0103
#define SBP_MSG_UTC_TIME_GNSS 0x0105
#define SBP_MSG_DOPS 0x0208
#define SBP_MSG_POS_ECEF 0x0209
#define SBP_MSG_POS_ECEF_GNSS 0x0229
#define SBP_MSG_POS_LLH 0x020A
#define SBP_MSG_POS_LLH_GNSS 0x022A
#define SBP_MSG_POS_LLH_COV 0x0211
#define SBP_MSG_POS_LLH_COV_GNSS 0x0231
#define SBP_MSG_BASELINE_NED 0x020C
#define SBP_MSG_VEL_ECEF 0x020D
#define SBP_MSG_VEL_ECEF_GNSS 0x022D
#define SBP_MSG_VEL_NED 0x020E
#define SBP_MSG_VEL_NED_GNSS 0x022E
#define SBP_MSG_VEL_NED_COV 0x0212
#define SBP_MSG_BASELINE_HEADING 0x020F
#define SBP_MSG_AGE_CORRECTIONS 0x0210
#define SBP_MSG_GNSS_TIME_OFFSET 0xFF07
#define SBP_MSG_ORIENT_QUAT 0x0220
#define SBP_MSG_ORIENT_EULER 0x0221
#define SBP_MSG_ANGULAR_RATE 0x0222
#define SBP_MSG_IMU_RAW 0x0900
#define SBP_MSG_IMU_AUX 0x0901
#define SBP_MSG_ODOMETRY 0x0903
#define SBP_MSG_WHEELTICK 0x0904
#define SBP_MSG_SBAS_RAW 0x7777
#define SBP_MSG_LOG 0x0401
#define SBP_MSG_FWD 0x0402
#define SBP_MSG_GROUP_META 0xFF0A
#define SBP_MSG_SOLN_META 0xFF0E
#define SBP_MSG_MEASUREMENT_STATE 0x0061
#define SBP_MSG_HEARTBEAT 0xFFFF
typedef enum {
  SbpMsgObs = SBP_MSG_OBS,
  SbpMsgBasePosLlh = SBP_MSG_BASE_POS_LLH,
  SbpMsgBasePosEcef = SBP_MSG_BASE_POS_ECEF,
  SbpMsgEphemerisGps = SBP_MSG_EPHEMERIS_GPS,
  SbpMsgEphemerisQzss = SBP_MSG_EPHEMERIS_QZSS,
  SbpMsgEphemerisBds = SBP_MSG_EPHEMERIS_BDS,
  SbpMsgEphemerisGal = SBP_MSG_EPHEMERIS_GAL,
  SbpMsgEphemerisSbas = SBP_MSG_EPHEMERIS_SBAS,
  SbpMsgEphemerisGlo = SBP_MSG_EPHEMERIS_GLO,
  SbpMsgGloBiases = SBP_MSG_GLO_BIASES,
  SbpMsgSvAzEl = SBP_MSG_SV_AZ_EL,
  SbpMsgOsr = SBP_MSG_OSR,
  SbpMsgSsrOrbitClock = SBP_MSG_SSR_ORBIT_CLOCK,
  SbpMsgSsrCodeBiases = SBP_MSG_SSR_CODE_BIASES,
  SbpMsgSsrPhaseBiases = SBP_MSG_SSR_PHASE_BIASES,
  SbpMsgSsrStecCorrectionDepA = SBP_MSG_SSR_STEC_CORRECTION_DEP_A,
  SbpMsgSsrGriddedCorrectionDepA = SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A,
  SbpMsgSsrGridDefinitionDepA = SBP_MSG_SSR_GRID_DEFINITION_DEP_A,
  SbpMsgGpsTime = SBP_MSG_GPS_TIME,
  SbpMsgGpsTimeGnss = SBP_MSG_GPS_TIME_GNSS,
  SbpMsgUtcTime = SBP_MSG_UTC_TIME,
  SbpMsgUtcTimeGnss = SBP_MSG_UTC_TIME_GNSS,
  SbpMsgDops = SBP_MSG_DOPS,
  SbpMsgPosEcef = SBP_MSG_POS_ECEF,
  SbpMsgPosEcefGnss = SBP_MSG_POS_ECEF_GNSS,
  SbpMsgPosLlh = SBP_MSG_POS_LLH,
  SbpMsgPosLlhGnss = SBP_MSG_POS_LLH_GNSS,
  SbpMsgPosLlhCov = SBP_MSG_POS_LLH_COV,
  SbpMsgPosLlhCovGnss = SBP_MSG_POS_LLH_COV_GNSS,
  SbpMsgBaselineNed = SBP_MSG_BASELINE_NED,
  SbpMsgVelEcef = SBP_MSG_VEL_ECEF,
  SbpMsgVelEcefGnss = SBP_MSG_VEL_ECEF_GNSS,
  SbpMsgVelNed = SBP_MSG_VEL_NED,
  SbpMsgVelNedGnss = SBP_MSG_VEL_NED_GNSS,
  SbpMsgVelNedCov = SBP_MSG_VEL_NED_COV,
  SbpMsgBaselineHeading = SBP_MSG_BASELINE_HEADING,
  SbpMsgAgeCorrections = SBP_MSG_AGE_CORRECTIONS,
  SbpMsgGnssTimeOffset = SBP_MSG_GNSS_TIME_OFFSET,
  SbpMsgOrientQuat = SBP_MSG_ORIENT_QUAT,
  SbpMsgOrientEuler = SBP_MSG_ORIENT_EULER,
  SbpMsgAngularRate = SBP_MSG_ANGULAR_RATE,
  SbpMsgImuRaw = SBP_MSG_IMU_RAW,
  SbpMsgImuAux = SBP_MSG_IMU_AUX,
  SbpMsgOdometry = SBP_MSG_ODOMETRY,
  SbpMsgWheeltick = SBP_MSG_WHEELTICK,
  SbpMsgSbasRaw = SBP_MSG_SBAS_RAW,
  SbpMsgLog = SBP_MSG_LOG,
  SbpMsgFwd = SBP_MSG_FWD,
  SbpMsgGroupMeta = SBP_MSG_GROUP_META,
  SbpMsgSolnMeta = SBP_MSG_SOLN_META,
  SbpMsgMeasurementState = SBP_MSG_MEASUREMENT_STATE,
  SbpMsgHeartbeat = SBP_MSG_HEARTBEAT,
  SbpMsgAll = 0x10000
} sbp_msg_type_t;
typedef struct SBP_ATTR_PACKED {
  u8 sat;
  u8 code;
} sbp_gnss_signal_t;
typedef struct SBP_ATTR_PACKED {
  u8 satId;
  u8 constellation;
} sv_id_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 ns_residual;
  u16 wn;
} sbp_gps_time_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 wn;
} gps_time_sec_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 wn;
} gps_time_dep_t;
typedef struct SBP_ATTR_PACKED {
  s32 i;
  u8 f;
} carrier_phase_t;
typedef struct SBP_ATTR_PACKED {
  s16 i;
  u8 f;
} doppler_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gps_time_t t;
  u8 n_obs;
} observation_header_t;
typedef struct SBP_ATTR_PACKED {
  u32 P;
  carrier_phase_t L;
  doppler_t D;
  u8 cn0;
  u8 lock;
  u8 flags;
  sbp_gnss_signal_t sid;
} packed_obs_content_t;
typedef struct SBP_ATTR_PACKED {
  u32 P;
  carrier_phase_t L;
  u8 lock;
  u8 flags;
  sbp_gnss_signal_t sid;
  u16 iono_std;
  u16 tropo_std;
  u16 range_std;
} packed_osr_content_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gnss_signal_t sid;
  gps_time_sec_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
} ephemeris_common_content_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gnss_signal_t sid;
  u8 az;
  s8 el;
} sv_az_el_t;
typedef struct SBP_ATTR_PACKED {
  u8 code;
  s16 value;
} code_biases_content_t;
typedef struct SBP_ATTR_PACKED {
  u8 code;
  u8 integer_indicator;
  u8 widelane_integer_indicator;
  u8 discontinuity_counter;
  s32 bias;
} phase_biases_content_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gnss_signal_t mesid;
  u8 cn0;
} measurement_state_t;
typedef struct SBP_ATTR_PACKED {
  u8 sensor_type;
  u8 flags;
} solution_input_type_t;
typedef struct SBP_ATTR_PACKED {
  gps_time_sec_t time;
  u8 num_msgs;
  u8 seq_num;
  u8 update_interval;
  u8 iod_atmo;
} stec_header_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  sv_id_t sv_id;
  u8 stec_quality_indicator;
  s16 stec_coeff[4];
} stec_sat_element_t;
typedef struct SBP_ATTR_PACKED {
  gps_time_sec_t time;
  u16 num_msgs;
  u16 seq_num;
  u8 update_interval;
  u8 iod_atmo;
  u8 tropo_quality_indicator;
} gridded_correction_header_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  s16 hydro;
  s8 wet;
} tropospheric_delay_correction_no_std_t;
typedef struct SBP_ATTR_PACKED {
  sv_id_t sv_id;
  s16 residual;
} stec_residual_no_std_t;
typedef struct SBP_ATTR_PACKED {
  u8 region_size_inverse;
  u16 area_width;
  u16 lat_nw_corner_enc;
  u16 lon_nw_corner_enc;
  u8 num_msgs;
  u8 seq_num;
} grid_definition_header_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  observation_header_t header;
  packed_obs_content_t obs[0];
} msg_obs_t;
typedef struct SBP_ATTR_PACKED {
  double lat;
  double lon;
  double height;
} msg_base_pos_llh_t;
typedef struct SBP_ATTR_PACKED {
  double x;
  double y;
  double z;
} msg_base_pos_ecef_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} msg_ephemeris_gps_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} msg_ephemeris_qzss_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float tgd1;
  float tgd2;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  float af1;
  float af2;
  gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} msg_ephemeris_bds_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float bgd_e1e5a;
  float bgd_e1e5b;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  double af1;
  float af2;
  gps_time_sec_t toc;
  u16 iode;
  u16 iodc;
  u8 source;
} msg_ephemeris_gal_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  double pos[3];
  float vel[3];
  float acc[3];
  float a_gf0;
  float a_gf1;
} msg_ephemeris_sbas_t;
typedef struct SBP_ATTR_PACKED {
  ephemeris_common_content_t common;
  float gamma;
  float tau;
  float d_tau;
  double pos[3];
  double vel[3];
  float acc[3];
  u8 fcn;
  u8 iod;
} msg_ephemeris_glo_t;
typedef struct SBP_ATTR_PACKED {
  u8 mask;
  s16 l1ca_bias;
  s16 l1p_bias;
  s16 l2ca_bias;
  s16 l2p_bias;
} msg_glo_biases_t;
typedef struct SBP_ATTR_PACKED {
  sv_az_el_t azel[0];
} msg_sv_az_el_t;
typedef struct SBP_ATTR_PACKED {
  observation_header_t header;
  packed_osr_content_t obs[0];
} msg_osr_t;
typedef struct SBP_ATTR_PACKED {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u32 iod;
  s32 radial;
  s32 along;
  s32 cross;
  s32 dot_radial;
  s32 dot_along;
  s32 dot_cross;
  s32 c0;
  s32 c1;
  s32 c2;
} msg_ssr_orbit_clock_t;
typedef struct SBP_ATTR_PACKED {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  code_biases_content_t biases[0];
} msg_ssr_code_biases_t;
typedef struct SBP_ATTR_PACKED {
  gps_time_sec_t time;
  sbp_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u8 dispersive_bias;
  u8 mw_consistency;
  u16 yaw;
  s8 yaw_rate;
  phase_biases_content_t biases[0];
} msg_ssr_phase_biases_t;
typedef struct SBP_ATTR_PACKED {
  stec_header_dep_a_t header;
  stec_sat_element_t stec_sat_list[0];
} msg_ssr_stec_correction_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  gridded_correction_header_dep_a_t header;
  u16 index;
  tropospheric_delay_correction_no_std_t tropo_delay_correction;
  stec_residual_no_std_t stec_residuals[0];
} msg_ssr_gridded_correction_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  grid_definition_header_dep_a_t header;
  u8 rle_list[0];
} msg_ssr_grid_definition_dep_a_t;
typedef struct SBP_ATTR_PACKED {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} msg_gps_time_t;
typedef struct SBP_ATTR_PACKED {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} msg_gps_time_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u8 flags;
  u32 tow;
  u16 year;
  u8 month;
  u8 day;
  u8 hours;
  u8 minutes;
  u8 seconds;
  u32 ns;
} msg_utc_time_t;
typedef struct SBP_ATTR_PACKED {
  u8 flags;
  u32 tow;
  u16 year;
  u8 month;
  u8 day;
  u8 hours;
  u8 minutes;
  u8 seconds;
  u32 ns;
} msg_utc_time_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 gdop;
  u16 pdop;
  u16 tdop;
  u16 hdop;
  u16 vdop;
  u8 flags;
} msg_dops_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double x;
  double y;
  double z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} msg_pos_ecef_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double x;
  double y;
  double z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} msg_pos_ecef_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double lat;
  double lon;
  double height;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} msg_pos_llh_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double lat;
  double lon;
  double height;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} msg_pos_llh_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} msg_pos_llh_cov_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} msg_pos_llh_cov_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} msg_baseline_ned_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} msg_vel_ecef_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} msg_vel_ecef_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} msg_vel_ned_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} msg_vel_ned_gnss_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} msg_vel_ned_cov_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u32 heading;
  u8 n_sats;
  u8 flags;
} msg_baseline_heading_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 age;
} msg_age_corrections_t;
typedef struct SBP_ATTR_PACKED {
  s16 weeks;
  s32 milliseconds;
  s16 microseconds;
  u8 flags;
} msg_gnss_time_offset_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 w;
  s32 x;
  s32 y;
  s32 z;
  float w_accuracy;
  float x_accuracy;
  float y_accuracy;
  float z_accuracy;
  u8 flags;
} msg_orient_quat_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 roll;
  s32 pitch;
  s32 yaw;
  float roll_accuracy;
  float pitch_accuracy;
  float yaw_accuracy;
  u8 flags;
} msg_orient_euler_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u8 flags;
} msg_angular_rate_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u8 tow_f;
  s16 acc_x;
  s16 acc_y;
  s16 acc_z;
  s16 gyr_x;
  s16 gyr_y;
  s16 gyr_z;
} msg_imu_raw_t;
typedef struct SBP_ATTR_PACKED {
  u8 imu_type;
  s16 temp;
  u8 imu_conf;
} msg_imu_aux_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  s32 velocity;
  u8 flags;
} msg_odometry_t;
typedef struct SBP_ATTR_PACKED {
  u64 time;
  u8 flags;
  u8 source;
  s32 ticks;
} msg_wheeltick_t;
typedef struct SBP_ATTR_PACKED {
  sbp_gnss_signal_t sid;
  u32 tow;
  u8 message_type;
  u8 data[27];
} msg_sbas_raw_t;
typedef struct SBP_ATTR_PACKED {
  u8 level;
  char text[0];
} msg_log_t;
typedef struct SBP_ATTR_PACKED {
  u8 source;
  u8 protocol;
  u8 fwd_payload[0];
} msg_fwd_t;
typedef struct SBP_ATTR_PACKED {
  u8 group_id;
  u8 flags;
  u8 n_group_msgs;
  u16 group_msgs[0];
} msg_group_meta_t;
typedef struct SBP_ATTR_PACKED {
  u32 tow;
  u16 pdop;
  u16 hdop;
  u16 vdop;
  u16 age_corrections;
  u32 age_gnss;
  solution_input_type_t sol_in[0];
} msg_soln_meta_t;
typedef struct SBP_ATTR_PACKED {
  measurement_state_t states[0];
} msg_measurement_state_t;
typedef struct SBP_ATTR_PACKED {
  u32 flags;
} msg_heartbeat_t;
typedef struct {
  u8 sat;
  u8 code;
} sbp_v4_gnss_signal_t;
typedef struct {
  u8 satId;
  u8 constellation;
} sbp_sv_id_t;
typedef struct {
  u32 tow;
  s32 ns_residual;
  u16 wn;
} sbp_v4_gps_time_t;
typedef struct {
  u32 tow;
  u16 wn;
} sbp_gps_time_sec_t;
typedef struct {
  u32 tow;
  u16 wn;
} sbp_gps_time_dep_t;
typedef struct {
  s32 i;
  u8 f;
} sbp_carrier_phase_t;
typedef struct {
  s16 i;
  u8 f;
} sbp_doppler_t;
typedef struct {
  sbp_v4_gps_time_t t;
  u8 n_obs;
} sbp_observation_header_t;
typedef struct {
  u32 P;
  sbp_carrier_phase_t L;
  sbp_doppler_t D;
  u8 cn0;
  u8 lock;
  u8 flags;
  sbp_v4_gnss_signal_t sid;
} sbp_packed_obs_content_t;
typedef struct {
  u32 P;
  sbp_carrier_phase_t L;
  u8 lock;
  u8 flags;
  sbp_v4_gnss_signal_t sid;
  u16 iono_std;
  u16 tropo_std;
  u16 range_std;
} sbp_packed_osr_content_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  sbp_gps_time_sec_t toe;
  float ura;
  u32 fit_interval;
  u8 valid;
  u8 health_bits;
} sbp_ephemeris_common_content_t;
typedef struct {
  sbp_v4_gnss_signal_t sid;
  u8 az;
  s8 el;
} sbp_sv_az_el_t;
typedef struct {
  u8 code;
  s16 value;
} sbp_code_biases_content_t;
typedef struct {
  u8 code;
  u8 integer_indicator;
  u8 widelane_integer_indicator;
  u8 discontinuity_counter;
  s32 bias;
} sbp_phase_biases_content_t;
typedef struct {
  sbp_v4_gnss_signal_t mesid;
  u8 cn0;
} sbp_measurement_state_t;
typedef struct {
  u8 sensor_type;
  u8 flags;
} sbp_solution_input_type_t;
typedef struct {
  sbp_gps_time_sec_t time;
  u8 num_msgs;
  u8 seq_num;
  u8 update_interval;
  u8 iod_atmo;
} sbp_stec_header_dep_a_t;
typedef struct {
  sbp_sv_id_t sv_id;
  u8 stec_quality_indicator;
  s16 stec_coeff[4];
} sbp_stec_sat_element_t;
typedef struct {
  sbp_gps_time_sec_t time;
  u16 num_msgs;
  u16 seq_num;
  u8 update_interval;
  u8 iod_atmo;
  u8 tropo_quality_indicator;
} sbp_gridded_correction_header_dep_a_t;
typedef struct {
  s16 hydro;
  s8 wet;
} sbp_tropospheric_delay_correction_no_std_t;
typedef struct {
  sbp_sv_id_t sv_id;
  s16 residual;
} sbp_stec_residual_no_std_t;
typedef struct {
  u8 region_size_inverse;
  u16 area_width;
  u16 lat_nw_corner_enc;
  u16 lon_nw_corner_enc;
  u8 num_msgs;
  u8 seq_num;
} sbp_grid_definition_header_dep_a_t;
#define SBP_MSG_OBS_OBS_MAX 14u
typedef struct {
  sbp_observation_header_t header;
  sbp_packed_obs_content_t obs[14];
  u8 n_obs;
} sbp_msg_obs_t;
#define SBP_MSG_OBS_ENCODED_OVERHEAD 11u
s8 sbp_msg_obs_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_obs_t *msg);
s8 sbp_msg_obs_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_obs_t *msg);
typedef struct {
  double lat;
  double lon;
  double height;
} sbp_msg_base_pos_llh_t;
#define SBP_MSG_BASE_POS_LLH_ENCODED_OVERHEAD 24u
s8 sbp_msg_base_pos_llh_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_base_pos_llh_t *msg);
s8 sbp_msg_base_pos_llh_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_base_pos_llh_t *msg);
typedef struct {
  double x;
  double y;
  double z;
} sbp_msg_base_pos_ecef_t;
#define SBP_MSG_BASE_POS_ECEF_ENCODED_OVERHEAD 24u
s8 sbp_msg_base_pos_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_base_pos_ecef_t *msg);
s8 sbp_msg_base_pos_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_base_pos_ecef_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} sbp_msg_ephemeris_gps_t;
#define SBP_MSG_EPHEMERIS_GPS_ENCODED_OVERHEAD 139u
s8 sbp_msg_ephemeris_gps_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_gps_t *msg);
s8 sbp_msg_ephemeris_gps_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_gps_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  float af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} sbp_msg_ephemeris_qzss_t;
#define SBP_MSG_EPHEMERIS_QZSS_ENCODED_OVERHEAD 139u
s8 sbp_msg_ephemeris_qzss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_qzss_t *msg);
s8 sbp_msg_ephemeris_qzss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_qzss_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  float tgd1;
  float tgd2;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  float af1;
  float af2;
  sbp_gps_time_sec_t toc;
  u8 iode;
  u16 iodc;
} sbp_msg_ephemeris_bds_t;
#define SBP_MSG_EPHEMERIS_BDS_ENCODED_OVERHEAD 147u
s8 sbp_msg_ephemeris_bds_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_bds_t *msg);
s8 sbp_msg_ephemeris_bds_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_bds_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  float bgd_e1e5a;
  float bgd_e1e5b;
  float c_rs;
  float c_rc;
  float c_uc;
  float c_us;
  float c_ic;
  float c_is;
  double dn;
  double m0;
  double ecc;
  double sqrta;
  double omega0;
  double omegadot;
  double w;
  double inc;
  double inc_dot;
  double af0;
  double af1;
  float af2;
  sbp_gps_time_sec_t toc;
  u16 iode;
  u16 iodc;
  u8 source;
} sbp_msg_ephemeris_gal_t;
#define SBP_MSG_EPHEMERIS_GAL_ENCODED_OVERHEAD 153u
s8 sbp_msg_ephemeris_gal_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_gal_t *msg);
s8 sbp_msg_ephemeris_gal_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_gal_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  double pos[3];
  float vel[3];
  float acc[3];
  float a_gf0;
  float a_gf1;
} sbp_msg_ephemeris_sbas_t;
#define SBP_MSG_EPHEMERIS_SBAS_ENCODED_OVERHEAD 74u
s8 sbp_msg_ephemeris_sbas_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_sbas_t *msg);
s8 sbp_msg_ephemeris_sbas_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_sbas_t *msg);
typedef struct {
  sbp_ephemeris_common_content_t common;
  float gamma;
  float tau;
  float d_tau;
  double pos[3];
  double vel[3];
  float acc[3];
  u8 fcn;
  u8 iod;
} sbp_msg_ephemeris_glo_t;
#define SBP_MSG_EPHEMERIS_GLO_ENCODED_OVERHEAD 92u
s8 sbp_msg_ephemeris_glo_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_glo_t *msg);
s8 sbp_msg_ephemeris_glo_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_glo_t *msg);
typedef struct {
  u8 mask;
  s16 l1ca_bias;
  s16 l1p_bias;
  s16 l2ca_bias;
  s16 l2p_bias;
} sbp_msg_glo_biases_t;
#define SBP_MSG_GLO_BIASES_ENCODED_OVERHEAD 9u
s8 sbp_msg_glo_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_glo_biases_t *msg);
s8 sbp_msg_glo_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_glo_biases_t *msg);
#define SBP_MSG_SV_AZ_EL_AZEL_MAX 63u
typedef struct {
  sbp_sv_az_el_t azel[63];
  u8 n_azel;
} sbp_msg_sv_az_el_t;
#define SBP_MSG_SV_AZ_EL_ENCODED_OVERHEAD 0u
s8 sbp_msg_sv_az_el_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_sv_az_el_t *msg);
s8 sbp_msg_sv_az_el_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_sv_az_el_t *msg);
#define SBP_MSG_OSR_OBS_MAX 12u
typedef struct {
  sbp_observation_header_t header;
  sbp_packed_osr_content_t obs[12];
  u8 n_obs;
} sbp_msg_osr_t;
#define SBP_MSG_OSR_ENCODED_OVERHEAD 11u
s8 sbp_msg_osr_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_osr_t *msg);
s8 sbp_msg_osr_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_osr_t *msg);
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u32 iod;
  s32 radial;
  s32 along;
  s32 cross;
  s32 dot_radial;
  s32 dot_along;
  s32 dot_cross;
  s32 c0;
  s32 c1;
  s32 c2;
} sbp_msg_ssr_orbit_clock_t;
#define SBP_MSG_SSR_ORBIT_CLOCK_ENCODED_OVERHEAD 50u
s8 sbp_msg_ssr_orbit_clock_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_orbit_clock_t *msg);
s8 sbp_msg_ssr_orbit_clock_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_orbit_clock_t *msg);
#define SBP_MSG_SSR_CODE_BIASES_BIASES_MAX 81u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  sbp_code_biases_content_t biases[81];
  u8 n_biases;
} sbp_msg_ssr_code_biases_t;
#define SBP_MSG_SSR_CODE_BIASES_ENCODED_OVERHEAD 10u
s8 sbp_msg_ssr_code_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_code_biases_t *msg);
s8 sbp_msg_ssr_code_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_code_biases_t *msg);
#define SBP_MSG_SSR_PHASE_BIASES_BIASES_MAX 30u
typedef struct {
  sbp_gps_time_sec_t time;
  sbp_v4_gnss_signal_t sid;
  u8 update_interval;
  u8 iod_ssr;
  u8 dispersive_bias;
  u8 mw_consistency;
  u16 yaw;
  s8 yaw_rate;
  sbp_phase_biases_content_t biases[30];
  u8 n_biases;
} sbp_msg_ssr_phase_biases_t;
#define SBP_MSG_SSR_PHASE_BIASES_ENCODED_OVERHEAD 15u
s8 sbp_msg_ssr_phase_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_phase_biases_t *msg);
s8 sbp_msg_ssr_phase_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_phase_biases_t *msg);
#define SBP_MSG_SSR_STEC_CORRECTION_DEP_A_STEC_SAT_LIST_MAX 22u
typedef struct {
  sbp_stec_header_dep_a_t header;
  sbp_stec_sat_element_t stec_sat_list[22];
  u8 n_stec_sat_list;
} sbp_msg_ssr_stec_correction_dep_a_t;
#define SBP_MSG_SSR_STEC_CORRECTION_DEP_A_ENCODED_OVERHEAD 10u
s8 sbp_msg_ssr_stec_correction_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_stec_correction_dep_a_t *msg);
s8 sbp_msg_ssr_stec_correction_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_stec_correction_dep_a_t *msg);
#define SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A_STEC_RESIDUALS_MAX 59u
typedef struct {
  sbp_gridded_correction_header_dep_a_t header;
  u16 index;
  sbp_tropospheric_delay_correction_no_std_t tropo_delay_correction;
  sbp_stec_residual_no_std_t stec_residuals[59];
  u8 n_stec_residuals;
} sbp_msg_ssr_gridded_correction_dep_a_t;
#define SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A_ENCODED_OVERHEAD 18u
s8 sbp_msg_ssr_gridded_correction_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_gridded_correction_dep_a_t *msg);
s8 sbp_msg_ssr_gridded_correction_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_gridded_correction_dep_a_t *msg);
#define SBP_MSG_SSR_GRID_DEFINITION_DEP_A_RLE_LIST_MAX 246u
typedef struct {
  sbp_grid_definition_header_dep_a_t header;
  u8 rle_list[246];
  u8 n_rle_list;
} sbp_msg_ssr_grid_definition_dep_a_t;
#define SBP_MSG_SSR_GRID_DEFINITION_DEP_A_ENCODED_OVERHEAD 9u
s8 sbp_msg_ssr_grid_definition_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_grid_definition_dep_a_t *msg);
s8 sbp_msg_ssr_grid_definition_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_grid_definition_dep_a_t *msg);
typedef struct {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} sbp_msg_gps_time_t;
#define SBP_MSG_GPS_TIME_ENCODED_OVERHEAD 11u
s8 sbp_msg_gps_time_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gps_time_t *msg);
s8 sbp_msg_gps_time_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gps_time_t *msg);
typedef struct {
  u16 wn;
  u32 tow;
  s32 ns_residual;
  u8 flags;
} sbp_msg_gps_time_gnss_t;
#define SBP_MSG_GPS_TIME_GNSS_ENCODED_OVERHEAD 11u
s8 sbp_msg_gps_time_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gps_time_gnss_t *msg);
s8 sbp_msg_gps_time_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gps_time_gnss_t *msg);
typedef struct {
  u8 flags;
  u32 tow;
  u16 year;
  u8 month;
  u8 day;
  u8 hours;
  u8 minutes;
  u8 seconds;
  u32 ns;
} sbp_msg_utc_time_t;
#define SBP_MSG_UTC_TIME_ENCODED_OVERHEAD 16u
s8 sbp_msg_utc_time_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_utc_time_t *msg);
s8 sbp_msg_utc_time_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_utc_time_t *msg);
typedef struct {
  u8 flags;
  u32 tow;
  u16 year;
  u8 month;
  u8 day;
  u8 hours;
  u8 minutes;
  u8 seconds;
  u32 ns;
} sbp_msg_utc_time_gnss_t;
#define SBP_MSG_UTC_TIME_GNSS_ENCODED_OVERHEAD 16u
s8 sbp_msg_utc_time_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_utc_time_gnss_t *msg);
s8 sbp_msg_utc_time_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_utc_time_gnss_t *msg);
typedef struct {
  u32 tow;
  u16 gdop;
  u16 pdop;
  u16 tdop;
  u16 hdop;
  u16 vdop;
  u8 flags;
} sbp_msg_dops_t;
#define SBP_MSG_DOPS_ENCODED_OVERHEAD 15u
s8 sbp_msg_dops_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_dops_t *msg);
s8 sbp_msg_dops_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_dops_t *msg);
typedef struct {
  u32 tow;
  double x;
  double y;
  double z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_ecef_t;
#define SBP_MSG_POS_ECEF_ENCODED_OVERHEAD 32u
s8 sbp_msg_pos_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_ecef_t *msg);
s8 sbp_msg_pos_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_ecef_t *msg);
typedef struct {
  u32 tow;
  double x;
  double y;
  double z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_ecef_gnss_t;
#define SBP_MSG_POS_ECEF_GNSS_ENCODED_OVERHEAD 32u
s8 sbp_msg_pos_ecef_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_ecef_gnss_t *msg);
s8 sbp_msg_pos_ecef_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_ecef_gnss_t *msg);
typedef struct {
  u32 tow;
  double lat;
  double lon;
  double height;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_llh_t;
#define SBP_MSG_POS_LLH_ENCODED_OVERHEAD 34u
s8 sbp_msg_pos_llh_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_t *msg);
s8 sbp_msg_pos_llh_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_t *msg);
typedef struct {
  u32 tow;
  double lat;
  double lon;
  double height;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_llh_gnss_t;
#define SBP_MSG_POS_LLH_GNSS_ENCODED_OVERHEAD 34u
s8 sbp_msg_pos_llh_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_gnss_t *msg);
s8 sbp_msg_pos_llh_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_gnss_t *msg);
typedef struct {
  u32 tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_llh_cov_t;
#define SBP_MSG_POS_LLH_COV_ENCODED_OVERHEAD 54u
s8 sbp_msg_pos_llh_cov_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_cov_t *msg);
s8 sbp_msg_pos_llh_cov_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_cov_t *msg);
typedef struct {
  u32 tow;
  double lat;
  double lon;
  double height;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} sbp_msg_pos_llh_cov_gnss_t;
#define SBP_MSG_POS_LLH_COV_GNSS_ENCODED_OVERHEAD 54u
s8 sbp_msg_pos_llh_cov_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_cov_gnss_t *msg);
s8 sbp_msg_pos_llh_cov_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_cov_gnss_t *msg);
typedef struct {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_baseline_ned_t;
#define SBP_MSG_BASELINE_NED_ENCODED_OVERHEAD 22u
s8 sbp_msg_baseline_ned_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_baseline_ned_t *msg);
s8 sbp_msg_baseline_ned_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_baseline_ned_t *msg);
typedef struct {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_vel_ecef_t;
#define SBP_MSG_VEL_ECEF_ENCODED_OVERHEAD 20u
s8 sbp_msg_vel_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ecef_t *msg);
s8 sbp_msg_vel_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ecef_t *msg);
typedef struct {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u16 accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_vel_ecef_gnss_t;
#define SBP_MSG_VEL_ECEF_GNSS_ENCODED_OVERHEAD 20u
s8 sbp_msg_vel_ecef_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ecef_gnss_t *msg);
s8 sbp_msg_vel_ecef_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ecef_gnss_t *msg);
typedef struct {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_vel_ned_t;
#define SBP_MSG_VEL_NED_ENCODED_OVERHEAD 22u
s8 sbp_msg_vel_ned_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_t *msg);
s8 sbp_msg_vel_ned_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_t *msg);
typedef struct {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  u16 h_accuracy;
  u16 v_accuracy;
  u8 n_sats;
  u8 flags;
} sbp_msg_vel_ned_gnss_t;
#define SBP_MSG_VEL_NED_GNSS_ENCODED_OVERHEAD 22u
s8 sbp_msg_vel_ned_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_gnss_t *msg);
s8 sbp_msg_vel_ned_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_gnss_t *msg);
typedef struct {
  u32 tow;
  s32 n;
  s32 e;
  s32 d;
  float cov_n_n;
  float cov_n_e;
  float cov_n_d;
  float cov_e_e;
  float cov_e_d;
  float cov_d_d;
  u8 n_sats;
  u8 flags;
} sbp_msg_vel_ned_cov_t;
#define SBP_MSG_VEL_NED_COV_ENCODED_OVERHEAD 42u
s8 sbp_msg_vel_ned_cov_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_cov_t *msg);
s8 sbp_msg_vel_ned_cov_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_cov_t *msg);
typedef struct {
  u32 tow;
  u32 heading;
  u8 n_sats;
  u8 flags;
} sbp_msg_baseline_heading_t;
#define SBP_MSG_BASELINE_HEADING_ENCODED_OVERHEAD 10u
s8 sbp_msg_baseline_heading_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_baseline_heading_t *msg);
s8 sbp_msg_baseline_heading_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_baseline_heading_t *msg);
typedef struct {
  u32 tow;
  u16 age;
} sbp_msg_age_corrections_t;
#define SBP_MSG_AGE_CORRECTIONS_ENCODED_OVERHEAD 6u
s8 sbp_msg_age_corrections_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_age_corrections_t *msg);
s8 sbp_msg_age_corrections_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_age_corrections_t *msg);
typedef struct {
  s16 weeks;
  s32 milliseconds;
  s16 microseconds;
  u8 flags;
} sbp_msg_gnss_time_offset_t;
#define SBP_MSG_GNSS_TIME_OFFSET_ENCODED_OVERHEAD 9u
s8 sbp_msg_gnss_time_offset_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gnss_time_offset_t *msg);
s8 sbp_msg_gnss_time_offset_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gnss_time_offset_t *msg);
typedef struct {
  u32 tow;
  s32 w;
  s32 x;
  s32 y;
  s32 z;
  float w_accuracy;
  float x_accuracy;
  float y_accuracy;
  float z_accuracy;
  u8 flags;
} sbp_msg_orient_quat_t;
#define SBP_MSG_ORIENT_QUAT_ENCODED_OVERHEAD 37u
s8 sbp_msg_orient_quat_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_orient_quat_t *msg);
s8 sbp_msg_orient_quat_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_orient_quat_t *msg);
typedef struct {
  u32 tow;
  s32 roll;
  s32 pitch;
  s32 yaw;
  float roll_accuracy;
  float pitch_accuracy;
  float yaw_accuracy;
  u8 flags;
} sbp_msg_orient_euler_t;
#define SBP_MSG_ORIENT_EULER_ENCODED_OVERHEAD 29u
s8 sbp_msg_orient_euler_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_orient_euler_t *msg);
s8 sbp_msg_orient_euler_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_orient_euler_t *msg);
typedef struct {
  u32 tow;
  s32 x;
  s32 y;
  s32 z;
  u8 flags;
} sbp_msg_angular_rate_t;
#define SBP_MSG_ANGULAR_RATE_ENCODED_OVERHEAD 17u
s8 sbp_msg_angular_rate_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_angular_rate_t *msg);
s8 sbp_msg_angular_rate_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_angular_rate_t *msg);
typedef struct {
  u32 tow;
  u8 tow_f;
  s16 acc_x;
  s16 acc_y;
  s16 acc_z;
  s16 gyr_x;
  s16 gyr_y;
  s16 gyr_z;
} sbp_msg_imu_raw_t;
#define SBP_MSG_IMU_RAW_ENCODED_OVERHEAD 17u
s8 sbp_msg_imu_raw_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_imu_raw_t *msg);
s8 sbp_msg_imu_raw_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_imu_raw_t *msg);
typedef struct {
  u8 imu_type;
  s16 temp;
  u8 imu_conf;
} sbp_msg_imu_aux_t;
#define SBP_MSG_IMU_AUX_ENCODED_OVERHEAD 4u
s8 sbp_msg_imu_aux_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_imu_aux_t *msg);
s8 sbp_msg_imu_aux_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_imu_aux_t *msg);
typedef struct {
  u32 tow;
  s32 velocity;
  u8 flags;
} sbp_msg_odometry_t;
#define SBP_MSG_ODOMETRY_ENCODED_OVERHEAD 9u
s8 sbp_msg_odometry_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_odometry_t *msg);
s8 sbp_msg_odometry_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_odometry_t *msg);
typedef struct {
  u64 time;
  u8 flags;
  u8 source;
  s32 ticks;
} sbp_msg_wheeltick_t;
#define SBP_MSG_WHEELTICK_ENCODED_OVERHEAD 14u
s8 sbp_msg_wheeltick_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_wheeltick_t *msg);
s8 sbp_msg_wheeltick_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_wheeltick_t *msg);
typedef struct {
  sbp_v4_gnss_signal_t sid;
  u32 tow;
  u8 message_type;
  u8 data[27];
} sbp_msg_sbas_raw_t;
#define SBP_MSG_SBAS_RAW_ENCODED_OVERHEAD 34u
s8 sbp_msg_sbas_raw_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_sbas_raw_t *msg);
s8 sbp_msg_sbas_raw_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_sbas_raw_t *msg);
#define SBP_MSG_LOG_TEXT_MAX 254u
typedef struct {
  u8 level;
  sbp_string_t text;
} sbp_msg_log_t;
#define SBP_MSG_LOG_ENCODED_OVERHEAD 1u
s8 sbp_msg_log_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_log_t *msg);
s8 sbp_msg_log_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_log_t *msg);
#define SBP_MSG_FWD_FWD_PAYLOAD_MAX 253u
typedef struct {
  u8 source;
  u8 protocol;
  u8 fwd_payload[253];
  u8 n_fwd_payload;
} sbp_msg_fwd_t;
#define SBP_MSG_FWD_ENCODED_OVERHEAD 2u
s8 sbp_msg_fwd_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_fwd_t *msg);
s8 sbp_msg_fwd_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_fwd_t *msg);
#define SBP_MSG_GROUP_META_GROUP_MSGS_MAX 126u
typedef struct {
  u8 group_id;
  u8 flags;
  u16 group_msgs[126];
  u8 n_group_msgs;
} sbp_msg_group_meta_t;
#define SBP_MSG_GROUP_META_ENCODED_OVERHEAD 3u
s8 sbp_msg_group_meta_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_group_meta_t *msg);
s8 sbp_msg_group_meta_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_group_meta_t *msg);
#define SBP_MSG_SOLN_META_SOL_IN_MAX 119u
typedef struct {
  u32 tow;
  u16 pdop;
  u16 hdop;
  u16 vdop;
  u16 age_corrections;
  u32 age_gnss;
  sbp_solution_input_type_t sol_in[119];
  u8 n_sol_in;
} sbp_msg_soln_meta_t;
#define SBP_MSG_SOLN_META_ENCODED_OVERHEAD 16u
s8 sbp_msg_soln_meta_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_soln_meta_t *msg);
s8 sbp_msg_soln_meta_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_soln_meta_t *msg);
#define SBP_MSG_MEASUREMENT_STATE_STATES_MAX 85u
typedef struct {
  sbp_measurement_state_t states[85];
  u8 n_states;
} sbp_msg_measurement_state_t;
#define SBP_MSG_MEASUREMENT_STATE_ENCODED_OVERHEAD 0u
s8 sbp_msg_measurement_state_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_measurement_state_t *msg);
s8 sbp_msg_measurement_state_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_measurement_state_t *msg);
typedef struct {
  u32 flags;
} sbp_msg_heartbeat_t;
#define SBP_MSG_HEARTBEAT_ENCODED_OVERHEAD 4u
s8 sbp_msg_heartbeat_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_heartbeat_t *msg);
s8 sbp_msg_heartbeat_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_heartbeat_t *msg);
typedef union {
  sbp_msg_obs_t obs;
  sbp_msg_base_pos_llh_t base_pos_llh;
  sbp_msg_base_pos_ecef_t base_pos_ecef;
  sbp_msg_ephemeris_gps_t ephemeris_gps;
  sbp_msg_ephemeris_qzss_t ephemeris_qzss;
  sbp_msg_ephemeris_bds_t ephemeris_bds;
  sbp_msg_ephemeris_gal_t ephemeris_gal;
  sbp_msg_ephemeris_sbas_t ephemeris_sbas;
  sbp_msg_ephemeris_glo_t ephemeris_glo;
  sbp_msg_glo_biases_t glo_biases;
  sbp_msg_sv_az_el_t sv_az_el;
  sbp_msg_osr_t osr;
  sbp_msg_ssr_orbit_clock_t ssr_orbit_clock;
  sbp_msg_ssr_code_biases_t ssr_code_biases;
  sbp_msg_ssr_phase_biases_t ssr_phase_biases;
  sbp_msg_ssr_stec_correction_dep_a_t ssr_stec_correction_dep_a;
  sbp_msg_ssr_gridded_correction_dep_a_t ssr_gridded_correction_dep_a;
  sbp_msg_ssr_grid_definition_dep_a_t ssr_grid_definition_dep_a;
  sbp_msg_gps_time_t gps_time;
  sbp_msg_gps_time_gnss_t gps_time_gnss;
  sbp_msg_utc_time_t utc_time;
  sbp_msg_utc_time_gnss_t utc_time_gnss;
  sbp_msg_dops_t dops;
  sbp_msg_pos_ecef_t pos_ecef;
  sbp_msg_pos_ecef_gnss_t pos_ecef_gnss;
  sbp_msg_pos_llh_t pos_llh;
  sbp_msg_pos_llh_gnss_t pos_llh_gnss;
  sbp_msg_pos_llh_cov_t pos_llh_cov;
  sbp_msg_pos_llh_cov_gnss_t pos_llh_cov_gnss;
  sbp_msg_baseline_ned_t baseline_ned;
  sbp_msg_vel_ecef_t vel_ecef;
  sbp_msg_vel_ecef_gnss_t vel_ecef_gnss;
  sbp_msg_vel_ned_t vel_ned;
  sbp_msg_vel_ned_gnss_t vel_ned_gnss;
  sbp_msg_vel_ned_cov_t vel_ned_cov;
  sbp_msg_baseline_heading_t baseline_heading;
  sbp_msg_age_corrections_t age_corrections;
  sbp_msg_gnss_time_offset_t gnss_time_offset;
  sbp_msg_orient_quat_t orient_quat;
  sbp_msg_orient_euler_t orient_euler;
  sbp_msg_angular_rate_t angular_rate;
  sbp_msg_imu_raw_t imu_raw;
  sbp_msg_imu_aux_t imu_aux;
  sbp_msg_odometry_t odometry;
  sbp_msg_wheeltick_t wheeltick;
  sbp_msg_sbas_raw_t sbas_raw;
  sbp_msg_log_t log;
  sbp_msg_fwd_t fwd;
  sbp_msg_group_meta_t group_meta;
  sbp_msg_soln_meta_t soln_meta;
  sbp_msg_measurement_state_t measurement_state;
  sbp_msg_heartbeat_t heartbeat;
} sbp_msg_t;
s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t msg_type, const sbp_msg_t *msg);
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t msg_type, sbp_msg_t *msg);
#ifdef __cplusplus
}
#endif
#endif
