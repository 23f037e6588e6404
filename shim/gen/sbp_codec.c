/* Generated by gen_sbp.py. */
#include <libsbp/sbp.h>
#include <string.h>
typedef struct { u8 *p; unsigned n, cap; int bad; } w_t;
typedef struct { const u8 *p; unsigned n, cap; int bad; } r_t;
static void wr(w_t *w, unsigned long long v, unsigned sz) { for (unsigned i = 0; i < sz; i++) { if (w->n >= w->cap) { w->bad = 1; return; } w->p[w->n++] = (u8)(v >> (8 * i)); } }
static unsigned long long rd(r_t *r, unsigned sz) { unsigned long long v = 0; if (r->n + sz > r->cap) { r->bad = 1; r->n = r->cap; return 0; } for (unsigned i = 0; i < sz; i++) v |= (unsigned long long)r->p[r->n++] << (8 * i); return v; }
static void wf(w_t *w, float f) { u32 v; memcpy(&v, &f, 4); wr(w, v, 4); }
static void wd(w_t *w, double f) { u64 v; memcpy(&v, &f, 8); wr(w, v, 8); }
static float rf(r_t *r) { u32 v = (u32)rd(r, 4); float f; memcpy(&f, &v, 4); return f; }
static double rdd(r_t *r) { u64 v = rd(r, 8); double f; memcpy(&f, &v, 8); return f; }

static inline void enc_gnss_signal(w_t *w, const sbp_v4_gnss_signal_t *m) {
  wr(w, (unsigned long long)(m->sat), 1);
  wr(w, (unsigned long long)(m->code), 1);
}
static inline void dec_gnss_signal(r_t *r, sbp_v4_gnss_signal_t *m) {
  m->sat = (u8)rd(r, 1);
  m->code = (u8)rd(r, 1);
}
static inline void enc_sv_id(w_t *w, const sbp_sv_id_t *m) {
  wr(w, (unsigned long long)(m->satId), 1);
  wr(w, (unsigned long long)(m->constellation), 1);
}
static inline void dec_sv_id(r_t *r, sbp_sv_id_t *m) {
  m->satId = (u8)rd(r, 1);
  m->constellation = (u8)rd(r, 1);
}
static inline void enc_gps_time(w_t *w, const sbp_v4_gps_time_t *m) {
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->ns_residual), 4);
  wr(w, (unsigned long long)(m->wn), 2);
}
static inline void dec_gps_time(r_t *r, sbp_v4_gps_time_t *m) {
  m->tow = (u32)rd(r, 4);
  m->ns_residual = (s32)rd(r, 4);
  m->wn = (u16)rd(r, 2);
}
static inline void enc_gps_time_sec(w_t *w, const sbp_gps_time_sec_t *m) {
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->wn), 2);
}
static inline void dec_gps_time_sec(r_t *r, sbp_gps_time_sec_t *m) {
  m->tow = (u32)rd(r, 4);
  m->wn = (u16)rd(r, 2);
}
static inline void enc_gps_time_dep(w_t *w, const sbp_gps_time_dep_t *m) {
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->wn), 2);
}
static inline void dec_gps_time_dep(r_t *r, sbp_gps_time_dep_t *m) {
  m->tow = (u32)rd(r, 4);
  m->wn = (u16)rd(r, 2);
}
static inline void enc_carrier_phase(w_t *w, const sbp_carrier_phase_t *m) {
  wr(w, (unsigned long long)(m->i), 4);
  wr(w, (unsigned long long)(m->f), 1);
}
static inline void dec_carrier_phase(r_t *r, sbp_carrier_phase_t *m) {
  m->i = (s32)rd(r, 4);
  m->f = (u8)rd(r, 1);
}
static inline void enc_doppler(w_t *w, const sbp_doppler_t *m) {
  wr(w, (unsigned long long)(m->i), 2);
  wr(w, (unsigned long long)(m->f), 1);
}
static inline void dec_doppler(r_t *r, sbp_doppler_t *m) {
  m->i = (s16)rd(r, 2);
  m->f = (u8)rd(r, 1);
}
static inline void enc_observation_header(w_t *w, const sbp_observation_header_t *m) {
  enc_gps_time(w, &m->t);
  wr(w, (unsigned long long)(m->n_obs), 1);
}
static inline void dec_observation_header(r_t *r, sbp_observation_header_t *m) {
  dec_gps_time(r, &m->t);
  m->n_obs = (u8)rd(r, 1);
}
static inline void enc_packed_obs_content(w_t *w, const sbp_packed_obs_content_t *m) {
  wr(w, (unsigned long long)(m->P), 4);
  enc_carrier_phase(w, &m->L);
  enc_doppler(w, &m->D);
  wr(w, (unsigned long long)(m->cn0), 1);
  wr(w, (unsigned long long)(m->lock), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  enc_gnss_signal(w, &m->sid);
}
static inline void dec_packed_obs_content(r_t *r, sbp_packed_obs_content_t *m) {
  m->P = (u32)rd(r, 4);
  dec_carrier_phase(r, &m->L);
  dec_doppler(r, &m->D);
  m->cn0 = (u8)rd(r, 1);
  m->lock = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  dec_gnss_signal(r, &m->sid);
}
static inline void enc_packed_osr_content(w_t *w, const sbp_packed_osr_content_t *m) {
  wr(w, (unsigned long long)(m->P), 4);
  enc_carrier_phase(w, &m->L);
  wr(w, (unsigned long long)(m->lock), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->iono_std), 2);
  wr(w, (unsigned long long)(m->tropo_std), 2);
  wr(w, (unsigned long long)(m->range_std), 2);
}
static inline void dec_packed_osr_content(r_t *r, sbp_packed_osr_content_t *m) {
  m->P = (u32)rd(r, 4);
  dec_carrier_phase(r, &m->L);
  m->lock = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  dec_gnss_signal(r, &m->sid);
  m->iono_std = (u16)rd(r, 2);
  m->tropo_std = (u16)rd(r, 2);
  m->range_std = (u16)rd(r, 2);
}
static inline void enc_ephemeris_common_content(w_t *w, const sbp_ephemeris_common_content_t *m) {
  enc_gnss_signal(w, &m->sid);
  enc_gps_time_sec(w, &m->toe);
  wf(w, m->ura);
  wr(w, (unsigned long long)(m->fit_interval), 4);
  wr(w, (unsigned long long)(m->valid), 1);
  wr(w, (unsigned long long)(m->health_bits), 1);
}
static inline void dec_ephemeris_common_content(r_t *r, sbp_ephemeris_common_content_t *m) {
  dec_gnss_signal(r, &m->sid);
  dec_gps_time_sec(r, &m->toe);
  m->ura = rf(r);
  m->fit_interval = (u32)rd(r, 4);
  m->valid = (u8)rd(r, 1);
  m->health_bits = (u8)rd(r, 1);
}
static inline void enc_sv_az_el(w_t *w, const sbp_sv_az_el_t *m) {
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->az), 1);
  wr(w, (unsigned long long)(m->el), 1);
}
static inline void dec_sv_az_el(r_t *r, sbp_sv_az_el_t *m) {
  dec_gnss_signal(r, &m->sid);
  m->az = (u8)rd(r, 1);
  m->el = (s8)rd(r, 1);
}
static inline void enc_code_biases_content(w_t *w, const sbp_code_biases_content_t *m) {
  wr(w, (unsigned long long)(m->code), 1);
  wr(w, (unsigned long long)(m->value), 2);
}
static inline void dec_code_biases_content(r_t *r, sbp_code_biases_content_t *m) {
  m->code = (u8)rd(r, 1);
  m->value = (s16)rd(r, 2);
}
static inline void enc_phase_biases_content(w_t *w, const sbp_phase_biases_content_t *m) {
  wr(w, (unsigned long long)(m->code), 1);
  wr(w, (unsigned long long)(m->integer_indicator), 1);
  wr(w, (unsigned long long)(m->widelane_integer_indicator), 1);
  wr(w, (unsigned long long)(m->discontinuity_counter), 1);
  wr(w, (unsigned long long)(m->bias), 4);
}
static inline void dec_phase_biases_content(r_t *r, sbp_phase_biases_content_t *m) {
  m->code = (u8)rd(r, 1);
  m->integer_indicator = (u8)rd(r, 1);
  m->widelane_integer_indicator = (u8)rd(r, 1);
  m->discontinuity_counter = (u8)rd(r, 1);
  m->bias = (s32)rd(r, 4);
}
static inline void enc_measurement_state(w_t *w, const sbp_measurement_state_t *m) {
  enc_gnss_signal(w, &m->mesid);
  wr(w, (unsigned long long)(m->cn0), 1);
}
static inline void dec_measurement_state(r_t *r, sbp_measurement_state_t *m) {
  dec_gnss_signal(r, &m->mesid);
  m->cn0 = (u8)rd(r, 1);
}
static inline void enc_solution_input_type(w_t *w, const sbp_solution_input_type_t *m) {
  wr(w, (unsigned long long)(m->sensor_type), 1);
  wr(w, (unsigned long long)(m->flags), 1);
}
static inline void dec_solution_input_type(r_t *r, sbp_solution_input_type_t *m) {
  m->sensor_type = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
}
static inline void enc_stec_header_dep_a(w_t *w, const sbp_stec_header_dep_a_t *m) {
  enc_gps_time_sec(w, &m->time);
  wr(w, (unsigned long long)(m->num_msgs), 1);
  wr(w, (unsigned long long)(m->seq_num), 1);
  wr(w, (unsigned long long)(m->update_interval), 1);
  wr(w, (unsigned long long)(m->iod_atmo), 1);
}
static inline void dec_stec_header_dep_a(r_t *r, sbp_stec_header_dep_a_t *m) {
  dec_gps_time_sec(r, &m->time);
  m->num_msgs = (u8)rd(r, 1);
  m->seq_num = (u8)rd(r, 1);
  m->update_interval = (u8)rd(r, 1);
  m->iod_atmo = (u8)rd(r, 1);
}
static inline void enc_stec_sat_element(w_t *w, const sbp_stec_sat_element_t *m) {
  enc_sv_id(w, &m->sv_id);
  wr(w, (unsigned long long)(m->stec_quality_indicator), 1);
  for (unsigned i = 0; i < 4; i++) {
    wr(w, (unsigned long long)(m->stec_coeff[i]), 2);
  }
}
static inline void dec_stec_sat_element(r_t *r, sbp_stec_sat_element_t *m) {
  dec_sv_id(r, &m->sv_id);
  m->stec_quality_indicator = (u8)rd(r, 1);
  for (unsigned i = 0; i < 4; i++) {
    m->stec_coeff[i] = (s16)rd(r, 2);
  }
}
static inline void enc_gridded_header_dep_a(w_t *w, const sbp_gridded_correction_header_dep_a_t *m) {
  enc_gps_time_sec(w, &m->time);
  wr(w, (unsigned long long)(m->num_msgs), 2);
  wr(w, (unsigned long long)(m->seq_num), 2);
  wr(w, (unsigned long long)(m->update_interval), 1);
  wr(w, (unsigned long long)(m->iod_atmo), 1);
  wr(w, (unsigned long long)(m->tropo_quality_indicator), 1);
}
static inline void dec_gridded_header_dep_a(r_t *r, sbp_gridded_correction_header_dep_a_t *m) {
  dec_gps_time_sec(r, &m->time);
  m->num_msgs = (u16)rd(r, 2);
  m->seq_num = (u16)rd(r, 2);
  m->update_interval = (u8)rd(r, 1);
  m->iod_atmo = (u8)rd(r, 1);
  m->tropo_quality_indicator = (u8)rd(r, 1);
}
static inline void enc_tropo_delay_no_std(w_t *w, const sbp_tropospheric_delay_correction_no_std_t *m) {
  wr(w, (unsigned long long)(m->hydro), 2);
  wr(w, (unsigned long long)(m->wet), 1);
}
static inline void dec_tropo_delay_no_std(r_t *r, sbp_tropospheric_delay_correction_no_std_t *m) {
  m->hydro = (s16)rd(r, 2);
  m->wet = (s8)rd(r, 1);
}
static inline void enc_stec_residual_no_std(w_t *w, const sbp_stec_residual_no_std_t *m) {
  enc_sv_id(w, &m->sv_id);
  wr(w, (unsigned long long)(m->residual), 2);
}
static inline void dec_stec_residual_no_std(r_t *r, sbp_stec_residual_no_std_t *m) {
  dec_sv_id(r, &m->sv_id);
  m->residual = (s16)rd(r, 2);
}
static inline void enc_grid_def_header_dep_a(w_t *w, const sbp_grid_definition_header_dep_a_t *m) {
  wr(w, (unsigned long long)(m->region_size_inverse), 1);
  wr(w, (unsigned long long)(m->area_width), 2);
  wr(w, (unsigned long long)(m->lat_nw_corner_enc), 2);
  wr(w, (unsigned long long)(m->lon_nw_corner_enc), 2);
  wr(w, (unsigned long long)(m->num_msgs), 1);
  wr(w, (unsigned long long)(m->seq_num), 1);
}
static inline void dec_grid_def_header_dep_a(r_t *r, sbp_grid_definition_header_dep_a_t *m) {
  m->region_size_inverse = (u8)rd(r, 1);
  m->area_width = (u16)rd(r, 2);
  m->lat_nw_corner_enc = (u16)rd(r, 2);
  m->lon_nw_corner_enc = (u16)rd(r, 2);
  m->num_msgs = (u8)rd(r, 1);
  m->seq_num = (u8)rd(r, 1);
}
s8 sbp_msg_obs_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_obs_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_observation_header(w, &m->header);
  if (m->n_obs > 14) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_obs; i++) {
    enc_packed_obs_content(w, &m->obs[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_obs_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_obs_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_observation_header(r, &m->header);
  m->n_obs = (u8)((r->cap - r->n) / 17); if (m->n_obs > 14) m->n_obs = 14;
  for (unsigned i = 0; i < m->n_obs; i++) {
    dec_packed_obs_content(r, &m->obs[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_base_pos_llh_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_base_pos_llh_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wd(w, m->lat);
  wd(w, m->lon);
  wd(w, m->height);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_base_pos_llh_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_base_pos_llh_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->lat = rdd(r);
  m->lon = rdd(r);
  m->height = rdd(r);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_base_pos_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_base_pos_ecef_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wd(w, m->x);
  wd(w, m->y);
  wd(w, m->z);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_base_pos_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_base_pos_ecef_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->x = rdd(r);
  m->y = rdd(r);
  m->z = rdd(r);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_gps_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_gps_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  wf(w, m->tgd);
  wf(w, m->c_rs);
  wf(w, m->c_rc);
  wf(w, m->c_uc);
  wf(w, m->c_us);
  wf(w, m->c_ic);
  wf(w, m->c_is);
  wd(w, m->dn);
  wd(w, m->m0);
  wd(w, m->ecc);
  wd(w, m->sqrta);
  wd(w, m->omega0);
  wd(w, m->omegadot);
  wd(w, m->w);
  wd(w, m->inc);
  wd(w, m->inc_dot);
  wf(w, m->af0);
  wf(w, m->af1);
  wf(w, m->af2);
  enc_gps_time_sec(w, &m->toc);
  wr(w, (unsigned long long)(m->iode), 1);
  wr(w, (unsigned long long)(m->iodc), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_gps_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_gps_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  m->tgd = rf(r);
  m->c_rs = rf(r);
  m->c_rc = rf(r);
  m->c_uc = rf(r);
  m->c_us = rf(r);
  m->c_ic = rf(r);
  m->c_is = rf(r);
  m->dn = rdd(r);
  m->m0 = rdd(r);
  m->ecc = rdd(r);
  m->sqrta = rdd(r);
  m->omega0 = rdd(r);
  m->omegadot = rdd(r);
  m->w = rdd(r);
  m->inc = rdd(r);
  m->inc_dot = rdd(r);
  m->af0 = rf(r);
  m->af1 = rf(r);
  m->af2 = rf(r);
  dec_gps_time_sec(r, &m->toc);
  m->iode = (u8)rd(r, 1);
  m->iodc = (u16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_qzss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_qzss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  wf(w, m->tgd);
  wf(w, m->c_rs);
  wf(w, m->c_rc);
  wf(w, m->c_uc);
  wf(w, m->c_us);
  wf(w, m->c_ic);
  wf(w, m->c_is);
  wd(w, m->dn);
  wd(w, m->m0);
  wd(w, m->ecc);
  wd(w, m->sqrta);
  wd(w, m->omega0);
  wd(w, m->omegadot);
  wd(w, m->w);
  wd(w, m->inc);
  wd(w, m->inc_dot);
  wf(w, m->af0);
  wf(w, m->af1);
  wf(w, m->af2);
  enc_gps_time_sec(w, &m->toc);
  wr(w, (unsigned long long)(m->iode), 1);
  wr(w, (unsigned long long)(m->iodc), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_qzss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_qzss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  m->tgd = rf(r);
  m->c_rs = rf(r);
  m->c_rc = rf(r);
  m->c_uc = rf(r);
  m->c_us = rf(r);
  m->c_ic = rf(r);
  m->c_is = rf(r);
  m->dn = rdd(r);
  m->m0 = rdd(r);
  m->ecc = rdd(r);
  m->sqrta = rdd(r);
  m->omega0 = rdd(r);
  m->omegadot = rdd(r);
  m->w = rdd(r);
  m->inc = rdd(r);
  m->inc_dot = rdd(r);
  m->af0 = rf(r);
  m->af1 = rf(r);
  m->af2 = rf(r);
  dec_gps_time_sec(r, &m->toc);
  m->iode = (u8)rd(r, 1);
  m->iodc = (u16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_bds_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_bds_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  wf(w, m->tgd1);
  wf(w, m->tgd2);
  wf(w, m->c_rs);
  wf(w, m->c_rc);
  wf(w, m->c_uc);
  wf(w, m->c_us);
  wf(w, m->c_ic);
  wf(w, m->c_is);
  wd(w, m->dn);
  wd(w, m->m0);
  wd(w, m->ecc);
  wd(w, m->sqrta);
  wd(w, m->omega0);
  wd(w, m->omegadot);
  wd(w, m->w);
  wd(w, m->inc);
  wd(w, m->inc_dot);
  wd(w, m->af0);
  wf(w, m->af1);
  wf(w, m->af2);
  enc_gps_time_sec(w, &m->toc);
  wr(w, (unsigned long long)(m->iode), 1);
  wr(w, (unsigned long long)(m->iodc), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_bds_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_bds_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  m->tgd1 = rf(r);
  m->tgd2 = rf(r);
  m->c_rs = rf(r);
  m->c_rc = rf(r);
  m->c_uc = rf(r);
  m->c_us = rf(r);
  m->c_ic = rf(r);
  m->c_is = rf(r);
  m->dn = rdd(r);
  m->m0 = rdd(r);
  m->ecc = rdd(r);
  m->sqrta = rdd(r);
  m->omega0 = rdd(r);
  m->omegadot = rdd(r);
  m->w = rdd(r);
  m->inc = rdd(r);
  m->inc_dot = rdd(r);
  m->af0 = rdd(r);
  m->af1 = rf(r);
  m->af2 = rf(r);
  dec_gps_time_sec(r, &m->toc);
  m->iode = (u8)rd(r, 1);
  m->iodc = (u16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_gal_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_gal_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  wf(w, m->bgd_e1e5a);
  wf(w, m->bgd_e1e5b);
  wf(w, m->c_rs);
  wf(w, m->c_rc);
  wf(w, m->c_uc);
  wf(w, m->c_us);
  wf(w, m->c_ic);
  wf(w, m->c_is);
  wd(w, m->dn);
  wd(w, m->m0);
  wd(w, m->ecc);
  wd(w, m->sqrta);
  wd(w, m->omega0);
  wd(w, m->omegadot);
  wd(w, m->w);
  wd(w, m->inc);
  wd(w, m->inc_dot);
  wd(w, m->af0);
  wd(w, m->af1);
  wf(w, m->af2);
  enc_gps_time_sec(w, &m->toc);
  wr(w, (unsigned long long)(m->iode), 2);
  wr(w, (unsigned long long)(m->iodc), 2);
  wr(w, (unsigned long long)(m->source), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_gal_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_gal_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  m->bgd_e1e5a = rf(r);
  m->bgd_e1e5b = rf(r);
  m->c_rs = rf(r);
  m->c_rc = rf(r);
  m->c_uc = rf(r);
  m->c_us = rf(r);
  m->c_ic = rf(r);
  m->c_is = rf(r);
  m->dn = rdd(r);
  m->m0 = rdd(r);
  m->ecc = rdd(r);
  m->sqrta = rdd(r);
  m->omega0 = rdd(r);
  m->omegadot = rdd(r);
  m->w = rdd(r);
  m->inc = rdd(r);
  m->inc_dot = rdd(r);
  m->af0 = rdd(r);
  m->af1 = rdd(r);
  m->af2 = rf(r);
  dec_gps_time_sec(r, &m->toc);
  m->iode = (u16)rd(r, 2);
  m->iodc = (u16)rd(r, 2);
  m->source = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_sbas_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_sbas_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  for (unsigned i = 0; i < 3; i++) {
    wd(w, m->pos[i]);
  }
  for (unsigned i = 0; i < 3; i++) {
    wf(w, m->vel[i]);
  }
  for (unsigned i = 0; i < 3; i++) {
    wf(w, m->acc[i]);
  }
  wf(w, m->a_gf0);
  wf(w, m->a_gf1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_sbas_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_sbas_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  for (unsigned i = 0; i < 3; i++) {
    m->pos[i] = rdd(r);
  }
  for (unsigned i = 0; i < 3; i++) {
    m->vel[i] = rf(r);
  }
  for (unsigned i = 0; i < 3; i++) {
    m->acc[i] = rf(r);
  }
  m->a_gf0 = rf(r);
  m->a_gf1 = rf(r);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_glo_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ephemeris_glo_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_ephemeris_common_content(w, &m->common);
  wf(w, m->gamma);
  wf(w, m->tau);
  wf(w, m->d_tau);
  for (unsigned i = 0; i < 3; i++) {
    wd(w, m->pos[i]);
  }
  for (unsigned i = 0; i < 3; i++) {
    wd(w, m->vel[i]);
  }
  for (unsigned i = 0; i < 3; i++) {
    wf(w, m->acc[i]);
  }
  wr(w, (unsigned long long)(m->fcn), 1);
  wr(w, (unsigned long long)(m->iod), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ephemeris_glo_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ephemeris_glo_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_ephemeris_common_content(r, &m->common);
  m->gamma = rf(r);
  m->tau = rf(r);
  m->d_tau = rf(r);
  for (unsigned i = 0; i < 3; i++) {
    m->pos[i] = rdd(r);
  }
  for (unsigned i = 0; i < 3; i++) {
    m->vel[i] = rdd(r);
  }
  for (unsigned i = 0; i < 3; i++) {
    m->acc[i] = rf(r);
  }
  m->fcn = (u8)rd(r, 1);
  m->iod = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_glo_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_glo_biases_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->mask), 1);
  wr(w, (unsigned long long)(m->l1ca_bias), 2);
  wr(w, (unsigned long long)(m->l1p_bias), 2);
  wr(w, (unsigned long long)(m->l2ca_bias), 2);
  wr(w, (unsigned long long)(m->l2p_bias), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_glo_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_glo_biases_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->mask = (u8)rd(r, 1);
  m->l1ca_bias = (s16)rd(r, 2);
  m->l1p_bias = (s16)rd(r, 2);
  m->l2ca_bias = (s16)rd(r, 2);
  m->l2p_bias = (s16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_sv_az_el_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_sv_az_el_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  if (m->n_azel > 63) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_azel; i++) {
    enc_sv_az_el(w, &m->azel[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_sv_az_el_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_sv_az_el_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->n_azel = (u8)((r->cap - r->n) / 4); if (m->n_azel > 63) m->n_azel = 63;
  for (unsigned i = 0; i < m->n_azel; i++) {
    dec_sv_az_el(r, &m->azel[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_osr_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_osr_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_observation_header(w, &m->header);
  if (m->n_obs > 12) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_obs; i++) {
    enc_packed_osr_content(w, &m->obs[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_osr_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_osr_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_observation_header(r, &m->header);
  m->n_obs = (u8)((r->cap - r->n) / 19); if (m->n_obs > 12) m->n_obs = 12;
  for (unsigned i = 0; i < m->n_obs; i++) {
    dec_packed_osr_content(r, &m->obs[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_orbit_clock_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_orbit_clock_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_gps_time_sec(w, &m->time);
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->update_interval), 1);
  wr(w, (unsigned long long)(m->iod_ssr), 1);
  wr(w, (unsigned long long)(m->iod), 4);
  wr(w, (unsigned long long)(m->radial), 4);
  wr(w, (unsigned long long)(m->along), 4);
  wr(w, (unsigned long long)(m->cross), 4);
  wr(w, (unsigned long long)(m->dot_radial), 4);
  wr(w, (unsigned long long)(m->dot_along), 4);
  wr(w, (unsigned long long)(m->dot_cross), 4);
  wr(w, (unsigned long long)(m->c0), 4);
  wr(w, (unsigned long long)(m->c1), 4);
  wr(w, (unsigned long long)(m->c2), 4);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_orbit_clock_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_orbit_clock_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_gps_time_sec(r, &m->time);
  dec_gnss_signal(r, &m->sid);
  m->update_interval = (u8)rd(r, 1);
  m->iod_ssr = (u8)rd(r, 1);
  m->iod = (u32)rd(r, 4);
  m->radial = (s32)rd(r, 4);
  m->along = (s32)rd(r, 4);
  m->cross = (s32)rd(r, 4);
  m->dot_radial = (s32)rd(r, 4);
  m->dot_along = (s32)rd(r, 4);
  m->dot_cross = (s32)rd(r, 4);
  m->c0 = (s32)rd(r, 4);
  m->c1 = (s32)rd(r, 4);
  m->c2 = (s32)rd(r, 4);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_code_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_code_biases_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_gps_time_sec(w, &m->time);
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->update_interval), 1);
  wr(w, (unsigned long long)(m->iod_ssr), 1);
  if (m->n_biases > 81) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_biases; i++) {
    enc_code_biases_content(w, &m->biases[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_code_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_code_biases_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_gps_time_sec(r, &m->time);
  dec_gnss_signal(r, &m->sid);
  m->update_interval = (u8)rd(r, 1);
  m->iod_ssr = (u8)rd(r, 1);
  m->n_biases = (u8)((r->cap - r->n) / 3); if (m->n_biases > 81) m->n_biases = 81;
  for (unsigned i = 0; i < m->n_biases; i++) {
    dec_code_biases_content(r, &m->biases[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_phase_biases_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_phase_biases_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_gps_time_sec(w, &m->time);
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->update_interval), 1);
  wr(w, (unsigned long long)(m->iod_ssr), 1);
  wr(w, (unsigned long long)(m->dispersive_bias), 1);
  wr(w, (unsigned long long)(m->mw_consistency), 1);
  wr(w, (unsigned long long)(m->yaw), 2);
  wr(w, (unsigned long long)(m->yaw_rate), 1);
  if (m->n_biases > 30) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_biases; i++) {
    enc_phase_biases_content(w, &m->biases[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_phase_biases_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_phase_biases_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_gps_time_sec(r, &m->time);
  dec_gnss_signal(r, &m->sid);
  m->update_interval = (u8)rd(r, 1);
  m->iod_ssr = (u8)rd(r, 1);
  m->dispersive_bias = (u8)rd(r, 1);
  m->mw_consistency = (u8)rd(r, 1);
  m->yaw = (u16)rd(r, 2);
  m->yaw_rate = (s8)rd(r, 1);
  m->n_biases = (u8)((r->cap - r->n) / 8); if (m->n_biases > 30) m->n_biases = 30;
  for (unsigned i = 0; i < m->n_biases; i++) {
    dec_phase_biases_content(r, &m->biases[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_stec_correction_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_stec_correction_dep_a_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_stec_header_dep_a(w, &m->header);
  if (m->n_stec_sat_list > 22) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_stec_sat_list; i++) {
    enc_stec_sat_element(w, &m->stec_sat_list[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_stec_correction_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_stec_correction_dep_a_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_stec_header_dep_a(r, &m->header);
  m->n_stec_sat_list = (u8)((r->cap - r->n) / 11); if (m->n_stec_sat_list > 22) m->n_stec_sat_list = 22;
  for (unsigned i = 0; i < m->n_stec_sat_list; i++) {
    dec_stec_sat_element(r, &m->stec_sat_list[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_gridded_correction_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_gridded_correction_dep_a_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_gridded_header_dep_a(w, &m->header);
  wr(w, (unsigned long long)(m->index), 2);
  enc_tropo_delay_no_std(w, &m->tropo_delay_correction);
  if (m->n_stec_residuals > 59) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_stec_residuals; i++) {
    enc_stec_residual_no_std(w, &m->stec_residuals[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_gridded_correction_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_gridded_correction_dep_a_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_gridded_header_dep_a(r, &m->header);
  m->index = (u16)rd(r, 2);
  dec_tropo_delay_no_std(r, &m->tropo_delay_correction);
  m->n_stec_residuals = (u8)((r->cap - r->n) / 4); if (m->n_stec_residuals > 59) m->n_stec_residuals = 59;
  for (unsigned i = 0; i < m->n_stec_residuals; i++) {
    dec_stec_residual_no_std(r, &m->stec_residuals[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_grid_definition_dep_a_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_ssr_grid_definition_dep_a_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_grid_def_header_dep_a(w, &m->header);
  if (m->n_rle_list > 246) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_rle_list; i++) {
    wr(w, (unsigned long long)(m->rle_list[i]), 1);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_ssr_grid_definition_dep_a_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_ssr_grid_definition_dep_a_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_grid_def_header_dep_a(r, &m->header);
  m->n_rle_list = (u8)((r->cap - r->n) / 1); if (m->n_rle_list > 246) m->n_rle_list = 246;
  for (unsigned i = 0; i < m->n_rle_list; i++) {
    m->rle_list[i] = (u8)rd(r, 1);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_gps_time_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gps_time_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->wn), 2);
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->ns_residual), 4);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_gps_time_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gps_time_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->wn = (u16)rd(r, 2);
  m->tow = (u32)rd(r, 4);
  m->ns_residual = (s32)rd(r, 4);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_gps_time_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gps_time_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->wn), 2);
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->ns_residual), 4);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_gps_time_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gps_time_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->wn = (u16)rd(r, 2);
  m->tow = (u32)rd(r, 4);
  m->ns_residual = (s32)rd(r, 4);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_utc_time_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_utc_time_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->flags), 1);
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->year), 2);
  wr(w, (unsigned long long)(m->month), 1);
  wr(w, (unsigned long long)(m->day), 1);
  wr(w, (unsigned long long)(m->hours), 1);
  wr(w, (unsigned long long)(m->minutes), 1);
  wr(w, (unsigned long long)(m->seconds), 1);
  wr(w, (unsigned long long)(m->ns), 4);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_utc_time_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_utc_time_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->flags = (u8)rd(r, 1);
  m->tow = (u32)rd(r, 4);
  m->year = (u16)rd(r, 2);
  m->month = (u8)rd(r, 1);
  m->day = (u8)rd(r, 1);
  m->hours = (u8)rd(r, 1);
  m->minutes = (u8)rd(r, 1);
  m->seconds = (u8)rd(r, 1);
  m->ns = (u32)rd(r, 4);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_utc_time_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_utc_time_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->flags), 1);
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->year), 2);
  wr(w, (unsigned long long)(m->month), 1);
  wr(w, (unsigned long long)(m->day), 1);
  wr(w, (unsigned long long)(m->hours), 1);
  wr(w, (unsigned long long)(m->minutes), 1);
  wr(w, (unsigned long long)(m->seconds), 1);
  wr(w, (unsigned long long)(m->ns), 4);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_utc_time_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_utc_time_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->flags = (u8)rd(r, 1);
  m->tow = (u32)rd(r, 4);
  m->year = (u16)rd(r, 2);
  m->month = (u8)rd(r, 1);
  m->day = (u8)rd(r, 1);
  m->hours = (u8)rd(r, 1);
  m->minutes = (u8)rd(r, 1);
  m->seconds = (u8)rd(r, 1);
  m->ns = (u32)rd(r, 4);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_dops_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_dops_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->gdop), 2);
  wr(w, (unsigned long long)(m->pdop), 2);
  wr(w, (unsigned long long)(m->tdop), 2);
  wr(w, (unsigned long long)(m->hdop), 2);
  wr(w, (unsigned long long)(m->vdop), 2);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_dops_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_dops_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->gdop = (u16)rd(r, 2);
  m->pdop = (u16)rd(r, 2);
  m->tdop = (u16)rd(r, 2);
  m->hdop = (u16)rd(r, 2);
  m->vdop = (u16)rd(r, 2);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_ecef_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->x);
  wd(w, m->y);
  wd(w, m->z);
  wr(w, (unsigned long long)(m->accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_ecef_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->x = rdd(r);
  m->y = rdd(r);
  m->z = rdd(r);
  m->accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_ecef_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_ecef_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->x);
  wd(w, m->y);
  wd(w, m->z);
  wr(w, (unsigned long long)(m->accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_ecef_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_ecef_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->x = rdd(r);
  m->y = rdd(r);
  m->z = rdd(r);
  m->accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->lat);
  wd(w, m->lon);
  wd(w, m->height);
  wr(w, (unsigned long long)(m->h_accuracy), 2);
  wr(w, (unsigned long long)(m->v_accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->lat = rdd(r);
  m->lon = rdd(r);
  m->height = rdd(r);
  m->h_accuracy = (u16)rd(r, 2);
  m->v_accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->lat);
  wd(w, m->lon);
  wd(w, m->height);
  wr(w, (unsigned long long)(m->h_accuracy), 2);
  wr(w, (unsigned long long)(m->v_accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->lat = rdd(r);
  m->lon = rdd(r);
  m->height = rdd(r);
  m->h_accuracy = (u16)rd(r, 2);
  m->v_accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_cov_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_cov_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->lat);
  wd(w, m->lon);
  wd(w, m->height);
  wf(w, m->cov_n_n);
  wf(w, m->cov_n_e);
  wf(w, m->cov_n_d);
  wf(w, m->cov_e_e);
  wf(w, m->cov_e_d);
  wf(w, m->cov_d_d);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_cov_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_cov_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->lat = rdd(r);
  m->lon = rdd(r);
  m->height = rdd(r);
  m->cov_n_n = rf(r);
  m->cov_n_e = rf(r);
  m->cov_n_d = rf(r);
  m->cov_e_e = rf(r);
  m->cov_e_d = rf(r);
  m->cov_d_d = rf(r);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_cov_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_pos_llh_cov_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wd(w, m->lat);
  wd(w, m->lon);
  wd(w, m->height);
  wf(w, m->cov_n_n);
  wf(w, m->cov_n_e);
  wf(w, m->cov_n_d);
  wf(w, m->cov_e_e);
  wf(w, m->cov_e_d);
  wf(w, m->cov_d_d);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_pos_llh_cov_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_pos_llh_cov_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->lat = rdd(r);
  m->lon = rdd(r);
  m->height = rdd(r);
  m->cov_n_n = rf(r);
  m->cov_n_e = rf(r);
  m->cov_n_d = rf(r);
  m->cov_e_e = rf(r);
  m->cov_e_d = rf(r);
  m->cov_d_d = rf(r);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_baseline_ned_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_baseline_ned_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->n), 4);
  wr(w, (unsigned long long)(m->e), 4);
  wr(w, (unsigned long long)(m->d), 4);
  wr(w, (unsigned long long)(m->h_accuracy), 2);
  wr(w, (unsigned long long)(m->v_accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_baseline_ned_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_baseline_ned_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->n = (s32)rd(r, 4);
  m->e = (s32)rd(r, 4);
  m->d = (s32)rd(r, 4);
  m->h_accuracy = (u16)rd(r, 2);
  m->v_accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ecef_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ecef_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->x), 4);
  wr(w, (unsigned long long)(m->y), 4);
  wr(w, (unsigned long long)(m->z), 4);
  wr(w, (unsigned long long)(m->accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ecef_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ecef_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->x = (s32)rd(r, 4);
  m->y = (s32)rd(r, 4);
  m->z = (s32)rd(r, 4);
  m->accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ecef_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ecef_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->x), 4);
  wr(w, (unsigned long long)(m->y), 4);
  wr(w, (unsigned long long)(m->z), 4);
  wr(w, (unsigned long long)(m->accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ecef_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ecef_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->x = (s32)rd(r, 4);
  m->y = (s32)rd(r, 4);
  m->z = (s32)rd(r, 4);
  m->accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->n), 4);
  wr(w, (unsigned long long)(m->e), 4);
  wr(w, (unsigned long long)(m->d), 4);
  wr(w, (unsigned long long)(m->h_accuracy), 2);
  wr(w, (unsigned long long)(m->v_accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->n = (s32)rd(r, 4);
  m->e = (s32)rd(r, 4);
  m->d = (s32)rd(r, 4);
  m->h_accuracy = (u16)rd(r, 2);
  m->v_accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_gnss_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_gnss_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->n), 4);
  wr(w, (unsigned long long)(m->e), 4);
  wr(w, (unsigned long long)(m->d), 4);
  wr(w, (unsigned long long)(m->h_accuracy), 2);
  wr(w, (unsigned long long)(m->v_accuracy), 2);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_gnss_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_gnss_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->n = (s32)rd(r, 4);
  m->e = (s32)rd(r, 4);
  m->d = (s32)rd(r, 4);
  m->h_accuracy = (u16)rd(r, 2);
  m->v_accuracy = (u16)rd(r, 2);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_cov_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_vel_ned_cov_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->n), 4);
  wr(w, (unsigned long long)(m->e), 4);
  wr(w, (unsigned long long)(m->d), 4);
  wf(w, m->cov_n_n);
  wf(w, m->cov_n_e);
  wf(w, m->cov_n_d);
  wf(w, m->cov_e_e);
  wf(w, m->cov_e_d);
  wf(w, m->cov_d_d);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_vel_ned_cov_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_vel_ned_cov_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->n = (s32)rd(r, 4);
  m->e = (s32)rd(r, 4);
  m->d = (s32)rd(r, 4);
  m->cov_n_n = rf(r);
  m->cov_n_e = rf(r);
  m->cov_n_d = rf(r);
  m->cov_e_e = rf(r);
  m->cov_e_d = rf(r);
  m->cov_d_d = rf(r);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_baseline_heading_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_baseline_heading_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->heading), 4);
  wr(w, (unsigned long long)(m->n_sats), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_baseline_heading_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_baseline_heading_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->heading = (u32)rd(r, 4);
  m->n_sats = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_age_corrections_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_age_corrections_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->age), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_age_corrections_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_age_corrections_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->age = (u16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_gnss_time_offset_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_gnss_time_offset_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->weeks), 2);
  wr(w, (unsigned long long)(m->milliseconds), 4);
  wr(w, (unsigned long long)(m->microseconds), 2);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_gnss_time_offset_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_gnss_time_offset_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->weeks = (s16)rd(r, 2);
  m->milliseconds = (s32)rd(r, 4);
  m->microseconds = (s16)rd(r, 2);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_orient_quat_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_orient_quat_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->w), 4);
  wr(w, (unsigned long long)(m->x), 4);
  wr(w, (unsigned long long)(m->y), 4);
  wr(w, (unsigned long long)(m->z), 4);
  wf(w, m->w_accuracy);
  wf(w, m->x_accuracy);
  wf(w, m->y_accuracy);
  wf(w, m->z_accuracy);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_orient_quat_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_orient_quat_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->w = (s32)rd(r, 4);
  m->x = (s32)rd(r, 4);
  m->y = (s32)rd(r, 4);
  m->z = (s32)rd(r, 4);
  m->w_accuracy = rf(r);
  m->x_accuracy = rf(r);
  m->y_accuracy = rf(r);
  m->z_accuracy = rf(r);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_orient_euler_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_orient_euler_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->roll), 4);
  wr(w, (unsigned long long)(m->pitch), 4);
  wr(w, (unsigned long long)(m->yaw), 4);
  wf(w, m->roll_accuracy);
  wf(w, m->pitch_accuracy);
  wf(w, m->yaw_accuracy);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_orient_euler_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_orient_euler_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->roll = (s32)rd(r, 4);
  m->pitch = (s32)rd(r, 4);
  m->yaw = (s32)rd(r, 4);
  m->roll_accuracy = rf(r);
  m->pitch_accuracy = rf(r);
  m->yaw_accuracy = rf(r);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_angular_rate_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_angular_rate_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->x), 4);
  wr(w, (unsigned long long)(m->y), 4);
  wr(w, (unsigned long long)(m->z), 4);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_angular_rate_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_angular_rate_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->x = (s32)rd(r, 4);
  m->y = (s32)rd(r, 4);
  m->z = (s32)rd(r, 4);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_imu_raw_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_imu_raw_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->tow_f), 1);
  wr(w, (unsigned long long)(m->acc_x), 2);
  wr(w, (unsigned long long)(m->acc_y), 2);
  wr(w, (unsigned long long)(m->acc_z), 2);
  wr(w, (unsigned long long)(m->gyr_x), 2);
  wr(w, (unsigned long long)(m->gyr_y), 2);
  wr(w, (unsigned long long)(m->gyr_z), 2);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_imu_raw_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_imu_raw_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->tow_f = (u8)rd(r, 1);
  m->acc_x = (s16)rd(r, 2);
  m->acc_y = (s16)rd(r, 2);
  m->acc_z = (s16)rd(r, 2);
  m->gyr_x = (s16)rd(r, 2);
  m->gyr_y = (s16)rd(r, 2);
  m->gyr_z = (s16)rd(r, 2);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_imu_aux_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_imu_aux_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->imu_type), 1);
  wr(w, (unsigned long long)(m->temp), 2);
  wr(w, (unsigned long long)(m->imu_conf), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_imu_aux_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_imu_aux_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->imu_type = (u8)rd(r, 1);
  m->temp = (s16)rd(r, 2);
  m->imu_conf = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_odometry_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_odometry_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->velocity), 4);
  wr(w, (unsigned long long)(m->flags), 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_odometry_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_odometry_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->velocity = (s32)rd(r, 4);
  m->flags = (u8)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_wheeltick_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_wheeltick_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->time), 8);
  wr(w, (unsigned long long)(m->flags), 1);
  wr(w, (unsigned long long)(m->source), 1);
  wr(w, (unsigned long long)(m->ticks), 4);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_wheeltick_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_wheeltick_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->time = (u64)rd(r, 8);
  m->flags = (u8)rd(r, 1);
  m->source = (u8)rd(r, 1);
  m->ticks = (s32)rd(r, 4);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_sbas_raw_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_sbas_raw_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  enc_gnss_signal(w, &m->sid);
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->message_type), 1);
  for (unsigned i = 0; i < 27; i++) {
    wr(w, (unsigned long long)(m->data[i]), 1);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_sbas_raw_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_sbas_raw_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  dec_gnss_signal(r, &m->sid);
  m->tow = (u32)rd(r, 4);
  m->message_type = (u8)rd(r, 1);
  for (unsigned i = 0; i < 27; i++) {
    m->data[i] = (u8)rd(r, 1);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_log_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_log_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->level), 1);
  if (m->text.encoded_len > SBP_MSG_LOG_TEXT_MAX) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->text.encoded_len; i++) wr(w, (u8)m->text.data[i], 1);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_log_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_log_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->level = (u8)rd(r, 1);
  m->text.encoded_len = 0; while (r->n < r->cap && m->text.encoded_len < SBP_MSG_LOG_TEXT_MAX) m->text.data[m->text.encoded_len++] = (char)rd(r, 1);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_fwd_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_fwd_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->source), 1);
  wr(w, (unsigned long long)(m->protocol), 1);
  if (m->n_fwd_payload > 253) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_fwd_payload; i++) {
    wr(w, (unsigned long long)(m->fwd_payload[i]), 1);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_fwd_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_fwd_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->source = (u8)rd(r, 1);
  m->protocol = (u8)rd(r, 1);
  m->n_fwd_payload = (u8)((r->cap - r->n) / 1); if (m->n_fwd_payload > 253) m->n_fwd_payload = 253;
  for (unsigned i = 0; i < m->n_fwd_payload; i++) {
    m->fwd_payload[i] = (u8)rd(r, 1);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_group_meta_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_group_meta_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->group_id), 1);
  wr(w, (unsigned long long)(m->flags), 1);
  wr(w, m->n_group_msgs, 1);
  if (m->n_group_msgs > 126) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_group_msgs; i++) {
    wr(w, (unsigned long long)(m->group_msgs[i]), 2);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_group_meta_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_group_meta_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->group_id = (u8)rd(r, 1);
  m->flags = (u8)rd(r, 1);
  unsigned cnt = (unsigned)rd(r, 1);
  m->n_group_msgs = (u8)((r->cap - r->n) / 2); if (m->n_group_msgs > 126) m->n_group_msgs = 126;
  if (cnt < m->n_group_msgs) m->n_group_msgs = (u8)cnt;
  for (unsigned i = 0; i < m->n_group_msgs; i++) {
    m->group_msgs[i] = (u16)rd(r, 2);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_soln_meta_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_soln_meta_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->tow), 4);
  wr(w, (unsigned long long)(m->pdop), 2);
  wr(w, (unsigned long long)(m->hdop), 2);
  wr(w, (unsigned long long)(m->vdop), 2);
  wr(w, (unsigned long long)(m->age_corrections), 2);
  wr(w, (unsigned long long)(m->age_gnss), 4);
  if (m->n_sol_in > 119) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_sol_in; i++) {
    enc_solution_input_type(w, &m->sol_in[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_soln_meta_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_soln_meta_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->tow = (u32)rd(r, 4);
  m->pdop = (u16)rd(r, 2);
  m->hdop = (u16)rd(r, 2);
  m->vdop = (u16)rd(r, 2);
  m->age_corrections = (u16)rd(r, 2);
  m->age_gnss = (u32)rd(r, 4);
  m->n_sol_in = (u8)((r->cap - r->n) / 2); if (m->n_sol_in > 119) m->n_sol_in = 119;
  for (unsigned i = 0; i < m->n_sol_in; i++) {
    dec_solution_input_type(r, &m->sol_in[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_measurement_state_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_measurement_state_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  if (m->n_states > 85) return SBP_ENCODE_ERROR;
  for (unsigned i = 0; i < m->n_states; i++) {
    enc_measurement_state(w, &m->states[i]);
  }
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_measurement_state_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_measurement_state_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->n_states = (u8)((r->cap - r->n) / 3); if (m->n_states > 85) m->n_states = 85;
  for (unsigned i = 0; i < m->n_states; i++) {
    dec_measurement_state(r, &m->states[i]);
  }
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_msg_heartbeat_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_heartbeat_t *m) {
  w_t W = {buf, 0, len, 0}; w_t *w = &W;
  wr(w, (unsigned long long)(m->flags), 4);
  if (n_written) *n_written = (u8)w->n;
  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;
}
s8 sbp_msg_heartbeat_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_heartbeat_t *m) {
  r_t R = {buf, 0, len, 0}; r_t *r = &R;
  m->flags = (u32)rd(r, 4);
  if (n_read) *n_read = (u8)r->n;
  return r->bad ? SBP_DECODE_ERROR : SBP_OK;
}
s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t t, const sbp_msg_t *m) {
  switch ((int)t) {
    case SBP_MSG_OBS: return sbp_msg_obs_encode(buf, len, n_written, &m->obs);
    case SBP_MSG_BASE_POS_LLH: return sbp_msg_base_pos_llh_encode(buf, len, n_written, &m->base_pos_llh);
    case SBP_MSG_BASE_POS_ECEF: return sbp_msg_base_pos_ecef_encode(buf, len, n_written, &m->base_pos_ecef);
    case SBP_MSG_EPHEMERIS_GPS: return sbp_msg_ephemeris_gps_encode(buf, len, n_written, &m->ephemeris_gps);
    case SBP_MSG_EPHEMERIS_QZSS: return sbp_msg_ephemeris_qzss_encode(buf, len, n_written, &m->ephemeris_qzss);
    case SBP_MSG_EPHEMERIS_BDS: return sbp_msg_ephemeris_bds_encode(buf, len, n_written, &m->ephemeris_bds);
    case SBP_MSG_EPHEMERIS_GAL: return sbp_msg_ephemeris_gal_encode(buf, len, n_written, &m->ephemeris_gal);
    case SBP_MSG_EPHEMERIS_SBAS: return sbp_msg_ephemeris_sbas_encode(buf, len, n_written, &m->ephemeris_sbas);
    case SBP_MSG_EPHEMERIS_GLO: return sbp_msg_ephemeris_glo_encode(buf, len, n_written, &m->ephemeris_glo);
    case SBP_MSG_GLO_BIASES: return sbp_msg_glo_biases_encode(buf, len, n_written, &m->glo_biases);
    case SBP_MSG_SV_AZ_EL: return sbp_msg_sv_az_el_encode(buf, len, n_written, &m->sv_az_el);
    case SBP_MSG_OSR: return sbp_msg_osr_encode(buf, len, n_written, &m->osr);
    case SBP_MSG_SSR_ORBIT_CLOCK: return sbp_msg_ssr_orbit_clock_encode(buf, len, n_written, &m->ssr_orbit_clock);
    case SBP_MSG_SSR_CODE_BIASES: return sbp_msg_ssr_code_biases_encode(buf, len, n_written, &m->ssr_code_biases);
    case SBP_MSG_SSR_PHASE_BIASES: return sbp_msg_ssr_phase_biases_encode(buf, len, n_written, &m->ssr_phase_biases);
    case SBP_MSG_SSR_STEC_CORRECTION_DEP_A: return sbp_msg_ssr_stec_correction_dep_a_encode(buf, len, n_written, &m->ssr_stec_correction_dep_a);
    case SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A: return sbp_msg_ssr_gridded_correction_dep_a_encode(buf, len, n_written, &m->ssr_gridded_correction_dep_a);
    case SBP_MSG_SSR_GRID_DEFINITION_DEP_A: return sbp_msg_ssr_grid_definition_dep_a_encode(buf, len, n_written, &m->ssr_grid_definition_dep_a);
    case SBP_MSG_GPS_TIME: return sbp_msg_gps_time_encode(buf, len, n_written, &m->gps_time);
    case SBP_MSG_GPS_TIME_GNSS: return sbp_msg_gps_time_gnss_encode(buf, len, n_written, &m->gps_time_gnss);
    case SBP_MSG_UTC_TIME: return sbp_msg_utc_time_encode(buf, len, n_written, &m->utc_time);
    case SBP_MSG_UTC_TIME_GNSS: return sbp_msg_utc_time_gnss_encode(buf, len, n_written, &m->utc_time_gnss);
    case SBP_MSG_DOPS: return sbp_msg_dops_encode(buf, len, n_written, &m->dops);
    case SBP_MSG_POS_ECEF: return sbp_msg_pos_ecef_encode(buf, len, n_written, &m->pos_ecef);
    case SBP_MSG_POS_ECEF_GNSS: return sbp_msg_pos_ecef_gnss_encode(buf, len, n_written, &m->pos_ecef_gnss);
    case SBP_MSG_POS_LLH: return sbp_msg_pos_llh_encode(buf, len, n_written, &m->pos_llh);
    case SBP_MSG_POS_LLH_GNSS: return sbp_msg_pos_llh_gnss_encode(buf, len, n_written, &m->pos_llh_gnss);
    case SBP_MSG_POS_LLH_COV: return sbp_msg_pos_llh_cov_encode(buf, len, n_written, &m->pos_llh_cov);
    case SBP_MSG_POS_LLH_COV_GNSS: return sbp_msg_pos_llh_cov_gnss_encode(buf, len, n_written, &m->pos_llh_cov_gnss);
    case SBP_MSG_BASELINE_NED: return sbp_msg_baseline_ned_encode(buf, len, n_written, &m->baseline_ned);
    case SBP_MSG_VEL_ECEF: return sbp_msg_vel_ecef_encode(buf, len, n_written, &m->vel_ecef);
    case SBP_MSG_VEL_ECEF_GNSS: return sbp_msg_vel_ecef_gnss_encode(buf, len, n_written, &m->vel_ecef_gnss);
    case SBP_MSG_VEL_NED: return sbp_msg_vel_ned_encode(buf, len, n_written, &m->vel_ned);
    case SBP_MSG_VEL_NED_GNSS: return sbp_msg_vel_ned_gnss_encode(buf, len, n_written, &m->vel_ned_gnss);
    case SBP_MSG_VEL_NED_COV: return sbp_msg_vel_ned_cov_encode(buf, len, n_written, &m->vel_ned_cov);
    case SBP_MSG_BASELINE_HEADING: return sbp_msg_baseline_heading_encode(buf, len, n_written, &m->baseline_heading);
    case SBP_MSG_AGE_CORRECTIONS: return sbp_msg_age_corrections_encode(buf, len, n_written, &m->age_corrections);
    case SBP_MSG_GNSS_TIME_OFFSET: return sbp_msg_gnss_time_offset_encode(buf, len, n_written, &m->gnss_time_offset);
    case SBP_MSG_ORIENT_QUAT: return sbp_msg_orient_quat_encode(buf, len, n_written, &m->orient_quat);
    case SBP_MSG_ORIENT_EULER: return sbp_msg_orient_euler_encode(buf, len, n_written, &m->orient_euler);
    case SBP_MSG_ANGULAR_RATE: return sbp_msg_angular_rate_encode(buf, len, n_written, &m->angular_rate);
    case SBP_MSG_IMU_RAW: return sbp_msg_imu_raw_encode(buf, len, n_written, &m->imu_raw);
    case SBP_MSG_IMU_AUX: return sbp_msg_imu_aux_encode(buf, len, n_written, &m->imu_aux);
    case SBP_MSG_ODOMETRY: return sbp_msg_odometry_encode(buf, len, n_written, &m->odometry);
    case SBP_MSG_WHEELTICK: return sbp_msg_wheeltick_encode(buf, len, n_written, &m->wheeltick);
    case SBP_MSG_SBAS_RAW: return sbp_msg_sbas_raw_encode(buf, len, n_written, &m->sbas_raw);
    case SBP_MSG_LOG: return sbp_msg_log_encode(buf, len, n_written, &m->log);
    case SBP_MSG_FWD: return sbp_msg_fwd_encode(buf, len, n_written, &m->fwd);
    case SBP_MSG_GROUP_META: return sbp_msg_group_meta_encode(buf, len, n_written, &m->group_meta);
    case SBP_MSG_SOLN_META: return sbp_msg_soln_meta_encode(buf, len, n_written, &m->soln_meta);
    case SBP_MSG_MEASUREMENT_STATE: return sbp_msg_measurement_state_encode(buf, len, n_written, &m->measurement_state);
    case SBP_MSG_HEARTBEAT: return sbp_msg_heartbeat_encode(buf, len, n_written, &m->heartbeat);
    default: return SBP_ENCODE_ERROR;
  }
}
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t t, sbp_msg_t *m) {
  switch ((int)t) {
    case SBP_MSG_OBS: return sbp_msg_obs_decode(buf, len, n_read, &m->obs);
    case SBP_MSG_BASE_POS_LLH: return sbp_msg_base_pos_llh_decode(buf, len, n_read, &m->base_pos_llh);
    case SBP_MSG_BASE_POS_ECEF: return sbp_msg_base_pos_ecef_decode(buf, len, n_read, &m->base_pos_ecef);
    case SBP_MSG_EPHEMERIS_GPS: return sbp_msg_ephemeris_gps_decode(buf, len, n_read, &m->ephemeris_gps);
    case SBP_MSG_EPHEMERIS_QZSS: return sbp_msg_ephemeris_qzss_decode(buf, len, n_read, &m->ephemeris_qzss);
    case SBP_MSG_EPHEMERIS_BDS: return sbp_msg_ephemeris_bds_decode(buf, len, n_read, &m->ephemeris_bds);
    case SBP_MSG_EPHEMERIS_GAL: return sbp_msg_ephemeris_gal_decode(buf, len, n_read, &m->ephemeris_gal);
    case SBP_MSG_EPHEMERIS_SBAS: return sbp_msg_ephemeris_sbas_decode(buf, len, n_read, &m->ephemeris_sbas);
    case SBP_MSG_EPHEMERIS_GLO: return sbp_msg_ephemeris_glo_decode(buf, len, n_read, &m->ephemeris_glo);
    case SBP_MSG_GLO_BIASES: return sbp_msg_glo_biases_decode(buf, len, n_read, &m->glo_biases);
    case SBP_MSG_SV_AZ_EL: return sbp_msg_sv_az_el_decode(buf, len, n_read, &m->sv_az_el);
    case SBP_MSG_OSR: return sbp_msg_osr_decode(buf, len, n_read, &m->osr);
    case SBP_MSG_SSR_ORBIT_CLOCK: return sbp_msg_ssr_orbit_clock_decode(buf, len, n_read, &m->ssr_orbit_clock);
    case SBP_MSG_SSR_CODE_BIASES: return sbp_msg_ssr_code_biases_decode(buf, len, n_read, &m->ssr_code_biases);
    case SBP_MSG_SSR_PHASE_BIASES: return sbp_msg_ssr_phase_biases_decode(buf, len, n_read, &m->ssr_phase_biases);
    case SBP_MSG_SSR_STEC_CORRECTION_DEP_A: return sbp_msg_ssr_stec_correction_dep_a_decode(buf, len, n_read, &m->ssr_stec_correction_dep_a);
    case SBP_MSG_SSR_GRIDDED_CORRECTION_DEP_A: return sbp_msg_ssr_gridded_correction_dep_a_decode(buf, len, n_read, &m->ssr_gridded_correction_dep_a);
    case SBP_MSG_SSR_GRID_DEFINITION_DEP_A: return sbp_msg_ssr_grid_definition_dep_a_decode(buf, len, n_read, &m->ssr_grid_definition_dep_a);
    case SBP_MSG_GPS_TIME: return sbp_msg_gps_time_decode(buf, len, n_read, &m->gps_time);
    case SBP_MSG_GPS_TIME_GNSS: return sbp_msg_gps_time_gnss_decode(buf, len, n_read, &m->gps_time_gnss);
    case SBP_MSG_UTC_TIME: return sbp_msg_utc_time_decode(buf, len, n_read, &m->utc_time);
    case SBP_MSG_UTC_TIME_GNSS: return sbp_msg_utc_time_gnss_decode(buf, len, n_read, &m->utc_time_gnss);
    case SBP_MSG_DOPS: return sbp_msg_dops_decode(buf, len, n_read, &m->dops);
    case SBP_MSG_POS_ECEF: return sbp_msg_pos_ecef_decode(buf, len, n_read, &m->pos_ecef);
    case SBP_MSG_POS_ECEF_GNSS: return sbp_msg_pos_ecef_gnss_decode(buf, len, n_read, &m->pos_ecef_gnss);
    case SBP_MSG_POS_LLH: return sbp_msg_pos_llh_decode(buf, len, n_read, &m->pos_llh);
    case SBP_MSG_POS_LLH_GNSS: return sbp_msg_pos_llh_gnss_decode(buf, len, n_read, &m->pos_llh_gnss);
    case SBP_MSG_POS_LLH_COV: return sbp_msg_pos_llh_cov_decode(buf, len, n_read, &m->pos_llh_cov);
    case SBP_MSG_POS_LLH_COV_GNSS: return sbp_msg_pos_llh_cov_gnss_decode(buf, len, n_read, &m->pos_llh_cov_gnss);
    case SBP_MSG_BASELINE_NED: return sbp_msg_baseline_ned_decode(buf, len, n_read, &m->baseline_ned);
    case SBP_MSG_VEL_ECEF: return sbp_msg_vel_ecef_decode(buf, len, n_read, &m->vel_ecef);
    case SBP_MSG_VEL_ECEF_GNSS: return sbp_msg_vel_ecef_gnss_decode(buf, len, n_read, &m->vel_ecef_gnss);
    case SBP_MSG_VEL_NED: return sbp_msg_vel_ned_decode(buf, len, n_read, &m->vel_ned);
    case SBP_MSG_VEL_NED_GNSS: return sbp_msg_vel_ned_gnss_decode(buf, len, n_read, &m->vel_ned_gnss);
    case SBP_MSG_VEL_NED_COV: return sbp_msg_vel_ned_cov_decode(buf, len, n_read, &m->vel_ned_cov);
    case SBP_MSG_BASELINE_HEADING: return sbp_msg_baseline_heading_decode(buf, len, n_read, &m->baseline_heading);
    case SBP_MSG_AGE_CORRECTIONS: return sbp_msg_age_corrections_decode(buf, len, n_read, &m->age_corrections);
    case SBP_MSG_GNSS_TIME_OFFSET: return sbp_msg_gnss_time_offset_decode(buf, len, n_read, &m->gnss_time_offset);
    case SBP_MSG_ORIENT_QUAT: return sbp_msg_orient_quat_decode(buf, len, n_read, &m->orient_quat);
    case SBP_MSG_ORIENT_EULER: return sbp_msg_orient_euler_decode(buf, len, n_read, &m->orient_euler);
    case SBP_MSG_ANGULAR_RATE: return sbp_msg_angular_rate_decode(buf, len, n_read, &m->angular_rate);
    case SBP_MSG_IMU_RAW: return sbp_msg_imu_raw_decode(buf, len, n_read, &m->imu_raw);
    case SBP_MSG_IMU_AUX: return sbp_msg_imu_aux_decode(buf, len, n_read, &m->imu_aux);
    case SBP_MSG_ODOMETRY: return sbp_msg_odometry_decode(buf, len, n_read, &m->odometry);
    case SBP_MSG_WHEELTICK: return sbp_msg_wheeltick_decode(buf, len, n_read, &m->wheeltick);
    case SBP_MSG_SBAS_RAW: return sbp_msg_sbas_raw_decode(buf, len, n_read, &m->sbas_raw);
    case SBP_MSG_LOG: return sbp_msg_log_decode(buf, len, n_read, &m->log);
    case SBP_MSG_FWD: return sbp_msg_fwd_decode(buf, len, n_read, &m->fwd);
    case SBP_MSG_GROUP_META: return sbp_msg_group_meta_decode(buf, len, n_read, &m->group_meta);
    case SBP_MSG_SOLN_META: return sbp_msg_soln_meta_decode(buf, len, n_read, &m->soln_meta);
    case SBP_MSG_MEASUREMENT_STATE: return sbp_msg_measurement_state_decode(buf, len, n_read, &m->measurement_state);
    case SBP_MSG_HEARTBEAT: return sbp_msg_heartbeat_decode(buf, len, n_read, &m->heartbeat);
    default: return SBP_DECODE_ERROR;
  }
}
