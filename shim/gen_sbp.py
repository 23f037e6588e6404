#!/usr/bin/env python3
"""Generates the stand-in libsbp (headers + codec) from the message table below.

Only the wire layout published in the SBP specification is encoded here; the
project under test never gets to see anything but the public libsbp names."""
import os, sys
OUT = sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), 'include')
os.makedirs(OUT + '/libsbp/v4', exist_ok=True)
os.makedirs(OUT + '/libsbp/legacy', exist_ok=True)

PRIM = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 's8': 1, 's16': 2, 's32': 4, 's64': 8, 'float': 4, 'double': 8}

# sub structs: name -> (v4 name, legacy name, fields)
SUB = {
 'gnss_signal': ('sbp_v4_gnss_signal_t', 'sbp_gnss_signal_t', [('sat','u8'),('code','u8')]),
 'sv_id': ('sbp_sv_id_t','sv_id_t',[('satId','u8'),('constellation','u8')]),
 'gps_time': ('sbp_v4_gps_time_t','sbp_gps_time_t',[('tow','u32'),('ns_residual','s32'),('wn','u16')]),
 'gps_time_sec': ('sbp_gps_time_sec_t','gps_time_sec_t',[('tow','u32'),('wn','u16')]),
 'gps_time_dep': ('sbp_gps_time_dep_t','gps_time_dep_t',[('tow','u32'),('wn','u16')]),
 'carrier_phase': ('sbp_carrier_phase_t','carrier_phase_t',[('i','s32'),('f','u8')]),
 'doppler': ('sbp_doppler_t','doppler_t',[('i','s16'),('f','u8')]),
 'observation_header': ('sbp_observation_header_t','observation_header_t',[('t','gps_time'),('n_obs','u8')]),
 'packed_obs_content': ('sbp_packed_obs_content_t','packed_obs_content_t',
   [('P','u32'),('L','carrier_phase'),('D','doppler'),('cn0','u8'),('lock','u8'),('flags','u8'),('sid','gnss_signal')]),
 'packed_osr_content': ('sbp_packed_osr_content_t','packed_osr_content_t',
   [('P','u32'),('L','carrier_phase'),('lock','u8'),('flags','u8'),('sid','gnss_signal'),('iono_std','u16'),('tropo_std','u16'),('range_std','u16')]),
 'ephemeris_common_content': ('sbp_ephemeris_common_content_t','ephemeris_common_content_t',
   [('sid','gnss_signal'),('toe','gps_time_sec'),('ura','float'),('fit_interval','u32'),('valid','u8'),('health_bits','u8')]),
 'sv_az_el': ('sbp_sv_az_el_t','sv_az_el_t',[('sid','gnss_signal'),('az','u8'),('el','s8')]),
 'code_biases_content': ('sbp_code_biases_content_t','code_biases_content_t',[('code','u8'),('value','s16')]),
 'phase_biases_content': ('sbp_phase_biases_content_t','phase_biases_content_t',
   [('code','u8'),('integer_indicator','u8'),('widelane_integer_indicator','u8'),('discontinuity_counter','u8'),('bias','s32')]),
 'measurement_state': ('sbp_measurement_state_t','measurement_state_t',[('mesid','gnss_signal'),('cn0','u8')]),
 'solution_input_type': ('sbp_solution_input_type_t','solution_input_type_t',[('sensor_type','u8'),('flags','u8')]),
 'stec_header_dep_a': ('sbp_stec_header_dep_a_t','stec_header_dep_a_t',
   [('time','gps_time_sec'),('num_msgs','u8'),('seq_num','u8'),('update_interval','u8'),('iod_atmo','u8')]),
 'stec_sat_element': ('sbp_stec_sat_element_t','stec_sat_element_t',
   [('sv_id','sv_id'),('stec_quality_indicator','u8'),('stec_coeff','s16[4]')]),
 'gridded_header_dep_a': ('sbp_gridded_correction_header_dep_a_t','gridded_correction_header_dep_a_t',
   [('time','gps_time_sec'),('num_msgs','u16'),('seq_num','u16'),('update_interval','u8'),('iod_atmo','u8'),('tropo_quality_indicator','u8')]),
 'tropo_delay_no_std': ('sbp_tropospheric_delay_correction_no_std_t','tropospheric_delay_correction_no_std_t',[('hydro','s16'),('wet','s8')]),
 'stec_residual_no_std': ('sbp_stec_residual_no_std_t','stec_residual_no_std_t',[('sv_id','sv_id'),('residual','s16')]),
 'grid_def_header_dep_a': ('sbp_grid_definition_header_dep_a_t','grid_definition_header_dep_a_t',
   [('region_size_inverse','u8'),('area_width','u16'),('lat_nw_corner_enc','u16'),('lon_nw_corner_enc','u16'),('num_msgs','u8'),('seq_num','u8')]),
}
KEP = lambda t: [('c_rs','float'),('c_rc','float'),('c_uc','float'),('c_us','float'),('c_ic','float'),('c_is','float'),
   ('dn','double'),('m0','double'),('ecc','double'),('sqrta','double'),('omega0','double'),('omegadot','double'),('w','double'),('inc','double'),('inc_dot','double')]
CV = [('cov_n_n','float'),('cov_n_e','float'),('cov_n_d','float'),('cov_e_e','float'),('cov_e_d','float'),('cov_d_d','float'),('n_sats','u8'),('flags','u8')]
GPSEPH = [('common','ephemeris_common_content'),('tgd','float')]+KEP(0)+[('af0','float'),('af1','float'),('af2','float'),('toc','gps_time_sec'),('iode','u8'),('iodc','u16')]
UTC = [('flags','u8'),('tow','u32'),('year','u16'),('month','u8'),('day','u8'),('hours','u8'),('minutes','u8'),('seconds','u8'),('ns','u32')]
GPST = [('wn','u16'),('tow','u32'),('ns_residual','s32'),('flags','u8')]
ECEF=[('tow','u32'),('x','double'),('y','double'),('z','double'),('accuracy','u16'),('n_sats','u8'),('flags','u8')]
LLH=[('tow','u32'),('lat','double'),('lon','double'),('height','double'),('h_accuracy','u16'),('v_accuracy','u16'),('n_sats','u8'),('flags','u8')]
LLHC=[('tow','u32'),('lat','double'),('lon','double'),('height','double')]+CV
NED=[('tow','u32'),('n','s32'),('e','s32'),('d','s32'),('h_accuracy','u16'),('v_accuracy','u16'),('n_sats','u8'),('flags','u8')]
NEDC=[('tow','u32'),('n','s32'),('e','s32'),('d','s32')]+CV
VECEF=[('tow','u32'),('x','s32'),('y','s32'),('z','s32'),('accuracy','u16'),('n_sats','u8'),('flags','u8')]
# name, CamelCase, id, legacy struct, fields   ('type[*]' variable array)
M = [
 ('obs','Obs',0x004A,[('header','observation_header'),('obs','packed_obs_content[*]')]),
 ('base_pos_llh','BasePosLlh',0x0044,[('lat','double'),('lon','double'),('height','double')]),
 ('base_pos_ecef','BasePosEcef',0x0048,[('x','double'),('y','double'),('z','double')]),
 ('ephemeris_gps','EphemerisGps',0x008A,GPSEPH),
 ('ephemeris_qzss','EphemerisQzss',0x008E,GPSEPH),
 ('ephemeris_bds','EphemerisBds',0x0089,[('common','ephemeris_common_content'),('tgd1','float'),('tgd2','float')]+KEP(0)+[('af0','double'),('af1','float'),('af2','float'),('toc','gps_time_sec'),('iode','u8'),('iodc','u16')]),
 ('ephemeris_gal','EphemerisGal',0x008D,[('common','ephemeris_common_content'),('bgd_e1e5a','float'),('bgd_e1e5b','float')]+KEP(0)+[('af0','double'),('af1','double'),('af2','float'),('toc','gps_time_sec'),('iode','u16'),('iodc','u16'),('source','u8')]),
 ('ephemeris_sbas','EphemerisSbas',0x008C,[('common','ephemeris_common_content'),('pos','double[3]'),('vel','float[3]'),('acc','float[3]'),('a_gf0','float'),('a_gf1','float')]),
 ('ephemeris_glo','EphemerisGlo',0x008B,[('common','ephemeris_common_content'),('gamma','float'),('tau','float'),('d_tau','float'),('pos','double[3]'),('vel','double[3]'),('acc','float[3]'),('fcn','u8'),('iod','u8')]),
 ('glo_biases','GloBiases',0x0075,[('mask','u8'),('l1ca_bias','s16'),('l1p_bias','s16'),('l2ca_bias','s16'),('l2p_bias','s16')]),
 ('sv_az_el','SvAzEl',0x0097,[('azel','sv_az_el[*]')]),
 ('osr','Osr',0x0640,[('header','observation_header'),('obs','packed_osr_content[*]')]),
 ('ssr_orbit_clock','SsrOrbitClock',0x05DD,[('time','gps_time_sec'),('sid','gnss_signal'),('update_interval','u8'),('iod_ssr','u8'),('iod','u32'),('radial','s32'),('along','s32'),('cross','s32'),('dot_radial','s32'),('dot_along','s32'),('dot_cross','s32'),('c0','s32'),('c1','s32'),('c2','s32')]),
 ('ssr_code_biases','SsrCodeBiases',0x05E1,[('time','gps_time_sec'),('sid','gnss_signal'),('update_interval','u8'),('iod_ssr','u8'),('biases','code_biases_content[*]')]),
 ('ssr_phase_biases','SsrPhaseBiases',0x05E6,[('time','gps_time_sec'),('sid','gnss_signal'),('update_interval','u8'),('iod_ssr','u8'),('dispersive_bias','u8'),('mw_consistency','u8'),('yaw','u16'),('yaw_rate','s8'),('biases','phase_biases_content[*]')]),
 ('ssr_stec_correction_dep_a','SsrStecCorrectionDepA',0x05FB,[('header','stec_header_dep_a'),('stec_sat_list','stec_sat_element[*]')]),
 ('ssr_gridded_correction_dep_a','SsrGriddedCorrectionDepA',0x05FA,[('header','gridded_header_dep_a'),('index','u16'),('tropo_delay_correction','tropo_delay_no_std'),('stec_residuals','stec_residual_no_std[*]')]),
 ('ssr_grid_definition_dep_a','SsrGridDefinitionDepA',0x05F5,[('header','grid_def_header_dep_a'),('rle_list','u8[*]')]),
 ('gps_time','GpsTime',0x0102,GPST), ('gps_time_gnss','GpsTimeGnss',0x0104,GPST),
 ('utc_time','UtcTime',0x0103,UTC), ('utc_time_gnss','UtcTimeGnss',0x0105,UTC),
 ('dops','Dops',0x0208,[('tow','u32'),('gdop','u16'),('pdop','u16'),('tdop','u16'),('hdop','u16'),('vdop','u16'),('flags','u8')]),
 ('pos_ecef','PosEcef',0x0209,ECEF), ('pos_ecef_gnss','PosEcefGnss',0x0229,ECEF),
 ('pos_llh','PosLlh',0x020A,LLH), ('pos_llh_gnss','PosLlhGnss',0x022A,LLH),
 ('pos_llh_cov','PosLlhCov',0x0211,LLHC), ('pos_llh_cov_gnss','PosLlhCovGnss',0x0231,LLHC),
 ('baseline_ned','BaselineNed',0x020C,NED),
 ('vel_ecef','VelEcef',0x020D,VECEF), ('vel_ecef_gnss','VelEcefGnss',0x022D,VECEF),
 ('vel_ned','VelNed',0x020E,NED), ('vel_ned_gnss','VelNedGnss',0x022E,NED),
 ('vel_ned_cov','VelNedCov',0x0212,NEDC),
 ('baseline_heading','BaselineHeading',0x020F,[('tow','u32'),('heading','u32'),('n_sats','u8'),('flags','u8')]),
 ('age_corrections','AgeCorrections',0x0210,[('tow','u32'),('age','u16')]),
 ('gnss_time_offset','GnssTimeOffset',0xFF07,[('weeks','s16'),('milliseconds','s32'),('microseconds','s16'),('flags','u8')]),
 ('orient_quat','OrientQuat',0x0220,[('tow','u32'),('w','s32'),('x','s32'),('y','s32'),('z','s32'),('w_accuracy','float'),('x_accuracy','float'),('y_accuracy','float'),('z_accuracy','float'),('flags','u8')]),
 ('orient_euler','OrientEuler',0x0221,[('tow','u32'),('roll','s32'),('pitch','s32'),('yaw','s32'),('roll_accuracy','float'),('pitch_accuracy','float'),('yaw_accuracy','float'),('flags','u8')]),
 ('angular_rate','AngularRate',0x0222,[('tow','u32'),('x','s32'),('y','s32'),('z','s32'),('flags','u8')]),
 ('imu_raw','ImuRaw',0x0900,[('tow','u32'),('tow_f','u8'),('acc_x','s16'),('acc_y','s16'),('acc_z','s16'),('gyr_x','s16'),('gyr_y','s16'),('gyr_z','s16')]),
 ('imu_aux','ImuAux',0x0901,[('imu_type','u8'),('temp','s16'),('imu_conf','u8')]),
 ('odometry','Odometry',0x0903,[('tow','u32'),('velocity','s32'),('flags','u8')]),
 ('wheeltick','Wheeltick',0x0904,[('time','u64'),('flags','u8'),('source','u8'),('ticks','s32')]),
 ('sbas_raw','SbasRaw',0x7777,[('sid','gnss_signal'),('tow','u32'),('message_type','u8'),('data','u8[27]')]),
 ('log','Log',0x0401,[('level','u8'),('text','string')]),
 ('fwd','Fwd',0x0402,[('source','u8'),('protocol','u8'),('fwd_payload','u8[*]')]),
 ('group_meta','GroupMeta',0xFF0A,[('group_id','u8'),('flags','u8'),('n_group_msgs','count'),('group_msgs','u16[*]')]),
 ('soln_meta','SolnMeta',0xFF0E,[('tow','u32'),('pdop','u16'),('hdop','u16'),('vdop','u16'),('age_corrections','u16'),('age_gnss','u32'),('sol_in','solution_input_type[*]')]),
 ('measurement_state','MeasurementState',0x0061,[('states','measurement_state[*]')]),
 ('heartbeat','Heartbeat',0xFFFF,[('flags','u32')]),
]
MAXP = 255
def size(t):
    if t in PRIM: return PRIM[t]
    if t in SUB: return sum(size(x) for _, x in SUB[t][2])
    if t == 'count': return 1
    if t.endswith(']') and '*' not in t:
        b, n = t[:-1].split('['); return size(b)*int(n)
    return 0
def fixed(fields): return sum(size(t) for _, t in fields)
def decl(name, t, v4):
    if t in PRIM: return '%s %s' % (t, name)
    if t in SUB: return '%s %s' % (SUB[t][0 if v4 else 1], name)
    if t.endswith(']'):
        b, n = t[:-1].split('[')
        ct = b if b in PRIM else SUB[b][0 if v4 else 1]
        return '%s %s[%s]' % (ct, name, n)
    raise Exception(t)

H = []
h = H.append
h('''/* Generated by gen_sbp.py: stand-in for libsbp. Do not edit. */
#ifndef SHIM_SBP_ALL_H
#define SHIM_SBP_ALL_H
#include <libsbp/common.h>
#ifdef __cplusplus
extern "C" {
#endif
#define SBP_MAX_PAYLOAD_LEN 255
#define SBP_FRAMING_MAX_PAYLOAD_SIZE 255
''')
for n, camel, mid, f in M: h('#define SBP_MSG_%s 0x%04X' % (n.upper(), mid))
h('typedef enum {')
for n, camel, mid, f in M: h('  SbpMsg%s = SBP_MSG_%s,' % (camel, n.upper()))
h('  SbpMsgAll = 0x10000')
h('} sbp_msg_type_t;')
# legacy structs
for k, (v4, leg, f) in SUB.items():
    h('typedef struct SBP_ATTR_PACKED {'); [h('  %s;' % decl(a, t, False)) for a, t in f]; h('} %s;' % leg)
for n, camel, mid, f in M:
    h('typedef struct SBP_ATTR_PACKED {')
    for a, t in f:
        if t == 'string': h('  char %s[0];' % a)
        elif t == 'count': h('  u8 %s;' % a)
        elif '*' in t: h('  %s;' % decl(a, t.replace('*', '0'), False))
        else: h('  %s;' % decl(a, t, False))
    h('} msg_%s_t;' % n)
# v4
for k, (v4, leg, f) in SUB.items():
    h('typedef struct {'); [h('  %s;' % decl(a, t, True)) for a, t in f]; h('} %s;' % v4)
for n, camel, mid, f in M:
    fx = fixed(f)
    for a, t in f:
        if t.endswith('[*]'):
            mx = (MAXP - fx)//size(t[:-3])
            h('#define SBP_MSG_%s_%s_MAX %du' % (n.upper(), a.upper(), mx))
        elif t == 'string':
            h('#define SBP_MSG_%s_%s_MAX %du' % (n.upper(), a.upper(), MAXP-fx))
    h('typedef struct {')
    for a, t in f:
        if t == 'string': h('  sbp_string_t %s;' % a)
        elif t == 'count': continue
        elif t.endswith('[*]'):
            mx = (MAXP - fx)//size(t[:-3])
            h('  %s;' % decl(a, t.replace('*', str(mx)), True)); h('  u8 n_%s;' % a)
        else: h('  %s;' % decl(a, t, True))
    h('} sbp_msg_%s_t;' % n)
    h('#define SBP_MSG_%s_ENCODED_OVERHEAD %du' % (n.upper(), fx))
    h('s8 sbp_msg_%s_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_%s_t *msg);' % (n, n))
    h('s8 sbp_msg_%s_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_%s_t *msg);' % (n, n))
h('typedef union {')
for n, camel, mid, f in M: h('  sbp_msg_%s_t %s;' % (n, n))
h('} sbp_msg_t;')
h('''s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t msg_type, const sbp_msg_t *msg);
s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t msg_type, sbp_msg_t *msg);
#ifdef __cplusplus
}
#endif
#endif''')
open(OUT+'/libsbp/shim_all.h','w').write('\n'.join(H)+'\n')

C = ['/* Generated by gen_sbp.py. */', '#include <libsbp/sbp.h>', '#include <string.h>']
c = C.append
c('''typedef struct { u8 *p; unsigned n, cap; int bad; } w_t;
typedef struct { const u8 *p; unsigned n, cap; int bad; } r_t;
static void wr(w_t *w, unsigned long long v, unsigned sz) { for (unsigned i = 0; i < sz; i++) { if (w->n >= w->cap) { w->bad = 1; return; } w->p[w->n++] = (u8)(v >> (8 * i)); } }
static unsigned long long rd(r_t *r, unsigned sz) { unsigned long long v = 0; if (r->n + sz > r->cap) { r->bad = 1; r->n = r->cap; return 0; } for (unsigned i = 0; i < sz; i++) v |= (unsigned long long)r->p[r->n++] << (8 * i); return v; }
static void wf(w_t *w, float f) { u32 v; memcpy(&v, &f, 4); wr(w, v, 4); }
static void wd(w_t *w, double f) { u64 v; memcpy(&v, &f, 8); wr(w, v, 8); }
static float rf(r_t *r) { u32 v = (u32)rd(r, 4); float f; memcpy(&f, &v, 4); return f; }
static double rdd(r_t *r) { u64 v = rd(r, 8); double f; memcpy(&f, &v, 8); return f; }
''')
def enc(expr, t, ind):
    s = '  '*ind
    if t == 'float': return ['%swf(w, %s);' % (s, expr)]
    if t == 'double': return ['%swd(w, %s);' % (s, expr)]
    if t in PRIM: return ['%swr(w, (unsigned long long)(%s), %d);' % (s, expr, PRIM[t])]
    if t in SUB: return ['%senc_%s(w, &%s);' % (s, t, expr)]
    b, n = t[:-1].split('[')
    return ['%sfor (unsigned i = 0; i < %s; i++) {' % (s, n)] + enc('%s[i]' % expr, b, ind+1) + [s+'}']
def dec(expr, t, ind):
    s = '  '*ind
    if t == 'float': return ['%s%s = rf(r);' % (s, expr)]
    if t == 'double': return ['%s%s = rdd(r);' % (s, expr)]
    if t in PRIM: return ['%s%s = (%s)rd(r, %d);' % (s, expr, t, PRIM[t])]
    if t in SUB: return ['%sdec_%s(r, &%s);' % (s, t, expr)]
    b, n = t[:-1].split('[')
    return ['%sfor (unsigned i = 0; i < %s; i++) {' % (s, n)] + dec('%s[i]' % expr, b, ind+1) + [s+'}']
for k, (v4, leg, f) in SUB.items():
    c('static inline void enc_%s(w_t *w, const %s *m) {' % (k, v4))
    for a, t in f: C.extend(enc('m->%s' % a, t, 1))
    c('}')
    c('static inline void dec_%s(r_t *r, %s *m) {' % (k, v4))
    for a, t in f: C.extend(dec('m->%s' % a, t, 1))
    c('}')
for n, camel, mid, f in M:
    fx = fixed(f)
    c('s8 sbp_msg_%s_encode(u8 *buf, u8 len, u8 *n_written, const sbp_msg_%s_t *m) {\n  w_t W = {buf, 0, len, 0}; w_t *w = &W;' % (n, n))
    for i, (a, t) in enumerate(f):
        if t == 'string': c('  if (m->text.encoded_len > SBP_MSG_LOG_TEXT_MAX) return SBP_ENCODE_ERROR;\n  for (unsigned i = 0; i < m->%s.encoded_len; i++) wr(w, (u8)m->%s.data[i], 1);' % (a, a))
        elif t == 'count': c('  wr(w, m->n_%s, 1);' % f[i+1][0])
        elif t.endswith('[*]'):
            b = t[:-3]; mx = (MAXP-fx)//size(b)
            c('  if (m->n_%s > %d) return SBP_ENCODE_ERROR;' % (a, mx))
            c('  for (unsigned i = 0; i < m->n_%s; i++) {' % a); C.extend(enc('m->%s[i]' % a, b, 2)); c('  }')
        else: C.extend(enc('m->%s' % a, t, 1))
    c('  if (n_written) *n_written = (u8)w->n;\n  return w->bad ? SBP_ENCODE_ERROR : SBP_OK;\n}')
    c('s8 sbp_msg_%s_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_%s_t *m) {\n  r_t R = {buf, 0, len, 0}; r_t *r = &R;' % (n, n))
    cnt = None
    for a, t in f:
        if t == 'string':
            c('  m->%s.encoded_len = 0; while (r->n < r->cap && m->%s.encoded_len < SBP_MSG_LOG_TEXT_MAX) m->%s.data[m->%s.encoded_len++] = (char)rd(r, 1);' % (a,a,a,a))
        elif t == 'count': c('  unsigned cnt = (unsigned)rd(r, 1);'); cnt = 1
        elif t.endswith('[*]'):
            b = t[:-3]; sz = size(b); mx = (MAXP-fx)//sz
            c('  m->n_%s = (u8)((r->cap - r->n) / %d); if (m->n_%s > %d) m->n_%s = %d;' % (a, sz, a, mx, a, mx))
            if cnt: c('  if (cnt < m->n_%s) m->n_%s = (u8)cnt;' % (a, a))
            c('  for (unsigned i = 0; i < m->n_%s; i++) {' % a); C.extend(dec('m->%s[i]' % a, b, 2)); c('  }')
        else: C.extend(dec('m->%s' % a, t, 1))
    c('  if (n_read) *n_read = (u8)r->n;\n  return r->bad ? SBP_DECODE_ERROR : SBP_OK;\n}')
c('s8 sbp_message_encode(u8 *buf, u8 len, u8 *n_written, sbp_msg_type_t t, const sbp_msg_t *m) {\n  switch ((int)t) {')
for n, camel, mid, f in M: c('    case SBP_MSG_%s: return sbp_msg_%s_encode(buf, len, n_written, &m->%s);' % (n.upper(), n, n))
c('    default: return SBP_ENCODE_ERROR;\n  }\n}')
c('s8 sbp_message_decode(const u8 *buf, u8 len, u8 *n_read, sbp_msg_type_t t, sbp_msg_t *m) {\n  switch ((int)t) {')
for n, camel, mid, f in M: c('    case SBP_MSG_%s: return sbp_msg_%s_decode(buf, len, n_read, &m->%s);' % (n.upper(), n, n))
c('    default: return SBP_DECODE_ERROR;\n  }\n}')
open(OUT+'/../gen/sbp_codec.c','w').write('\n'.join(C)+'\n')
for d in ['v4/','legacy/','']:
    for n in ['gnss','observation','navigation','orientation','solution_meta','system','tracking','imu','vehicle','ssr','sbas','logging','ext_events','sbp_msg','flash','piksi','settings','integrity','ins','mag','bootload','acquisition','ndb','linux','user','profiling','signing','sbp_msg_type']:
        if d == '' and n in ('sbp_msg',): continue
        open(OUT+'/libsbp/%s%s.h' % (d, n),'w').write('#include <libsbp/sbp.h>\n')
