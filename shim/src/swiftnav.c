/* Stand-in for libswiftnav (the submodule is empty here): the public helpers the
 * converters call, written from the published ICDs / the names' documented
 * contract. None of it is code under test. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <swiftnav/array_tools.h>
#include <swiftnav/bits.h>
#include <swiftnav/bitstream.h>
#include <swiftnav/bytestream.h>
#include <swiftnav/constants.h>
#include <swiftnav/edc.h>
#include <swiftnav/ephemeris.h>
#include <swiftnav/fifo_byte.h>
#include <swiftnav/geoid_model.h>
#include <swiftnav/gnss_time.h>
#include <swiftnav/logging.h>
#include <swiftnav/memcpy_s.h>
#include <swiftnav/nav_meas.h>
#include <swiftnav/sid_set.h>
#include <swiftnav/signal.h>
#include <swiftnav/swift_strnlen.h>

/* ---- hooks the simulator may override ---- */
void (*shim_log_hook)(int level, const char *text) = NULL;
unsigned long shim_log_count = 0;
void shim_log(int level, const char *fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  shim_log_count++;
  if (shim_log_hook) shim_log_hook(level, buf);
}
void logging_set_implementation(void (*a)(int, const char *, ...), void (*b)(int, const char *, const char *, const int, const char *, ...)) {
  (void)a;
  (void)b;
}
void shim_memcpy_s(void *dst, size_t dn, const void *src, size_t n) {
  assert(n <= dn);
  if (n) memcpy(dst, src, n);
}
bool is_value_in_array_u8(const uint8_t *a, size_t n, uint8_t v) {
  for (size_t i = 0; i < n; i++)
    if (a[i] == v) return true;
  return false;
}
bool is_value_in_array_u16(const uint16_t *a, size_t n, uint16_t v) {
  for (size_t i = 0; i < n; i++)
    if (a[i] == v) return true;
  return false;
}
bool is_value_in_array_u32(const uint32_t *a, size_t n, uint32_t v) {
  for (size_t i = 0; i < n; i++)
    if (a[i] == v) return true;
  return false;
}
size_t swift_strnlen(const char *s, size_t max) { return strnlen(s, max); }
float get_geoid_offset(double lat, double lon) { return (float)(20.0 * sin(lat) * cos(lon)); }

/* ---- bits ---- */
u8 parity(u32 x) { return (u8)__builtin_parity(x); }
u64 getbitul(const u8 *buff, u32 pos, u8 len) {
  u64 v = 0;
  for (u32 i = pos; i < pos + len; i++) v = (v << 1) | ((buff[i / 8] >> (7 - i % 8)) & 1u);
  return v;
}
u32 getbitu(const u8 *buff, u32 pos, u8 len) { return (u32)getbitul(buff, pos, len); }
static s64 sext(u64 v, u8 len) {
  if (len == 0 || len >= 64) return (s64)v;
  u64 m = (u64)1 << (len - 1);
  v &= ((u64)1 << len) - 1;
  return (s64)((v ^ m) - m);
}
s64 getbitsl(const u8 *buff, u32 pos, u8 len) { return sext(getbitul(buff, pos, len), len); }
s32 getbits(const u8 *buff, u32 pos, u8 len) { return (s32)getbitsl(buff, pos, len); }
s32 sign_extend32(u32 v, u8 bits) { return (s32)sext(v, bits); }
void setbitul(u8 *buff, u32 pos, u32 len, u64 data) {
  for (u32 i = 0; i < len; i++) {
    u32 p = pos + i;
    u8 m = (u8)(1u << (7 - p % 8));
    u32 sh = len - 1 - i;
    if (sh < 64 && ((data >> sh) & 1u))
      buff[p / 8] |= m;
    else
      buff[p / 8] = (u8)(buff[p / 8] & ~m);
  }
}
void setbitu(u8 *buff, u32 pos, u32 len, u32 data) { setbitul(buff, pos, len, data); }
void setbits(u8 *buff, u32 pos, u32 len, s32 data) { setbitul(buff, pos, len, (u64)(s64)data); }
void setbitsl(u8 *buff, u32 pos, u32 len, s64 data) { setbitul(buff, pos, len, (u64)data); }
void bitcopy(void *dst, u32 di, const void *src, u32 si, u32 n) {
  for (u32 i = 0; i < n; i++) setbitu(dst, di + i, 1, getbitu(src, si + i, 1));
}
void bitshl(void *buf, u32 size, u32 shift) {
  u32 nbits = size * 8;
  if (shift >= nbits) {
    memset(buf, 0, size);
    return;
  }
  for (u32 i = 0; i + shift < nbits; i++) setbitu(buf, i, 1, getbitu(buf, i + shift, 1));
  for (u32 i = nbits - shift; i < nbits; i++) setbitu(buf, i, 1, 0);
}
void bitinv(void *buf, u32 off, u32 n) {
  for (u32 i = 0; i < n; i++) setbitu(buf, off + i, 1, !getbitu(buf, off + i, 1));
}
u8 count_bits_u64(u64 v, u8 bv) { return (u8)(bv ? __builtin_popcountll(v) : 64 - __builtin_popcountll(v)); }
u8 count_bits_u32(u32 v, u8 bv) { return (u8)(bv ? __builtin_popcount(v) : 32 - __builtin_popcount(v)); }
u8 count_bits_u16(u16 v, u8 bv) { return (u8)(bv ? __builtin_popcount(v) : 16 - __builtin_popcount(v)); }
u8 count_bits_u8(u8 v, u8 bv) { return (u8)(bv ? __builtin_popcount(v) : 8 - __builtin_popcount(v)); }

/* ---- bit/byte streams ---- */
void swiftnav_bitstream_init(swiftnav_bitstream_t *b, const u8 *d, u32 len) {
  b->data = d;
  b->len = len;
  b->offset = 0;
}
static bool bs_ok(const swiftnav_bitstream_t *b, u32 pos, u32 len) { return (u64)b->offset + pos + len <= b->len; }
bool swiftnav_bitstream_getbitu(const swiftnav_bitstream_t *b, u32 *o, u32 p, u8 n) {
  if (!bs_ok(b, p, n)) return false;
  *o = getbitu(b->data, b->offset + p, n);
  return true;
}
bool swiftnav_bitstream_getbits(const swiftnav_bitstream_t *b, s32 *o, u32 p, u8 n) {
  if (!bs_ok(b, p, n)) return false;
  *o = getbits(b->data, b->offset + p, n);
  return true;
}
bool swiftnav_bitstream_getbitul(const swiftnav_bitstream_t *b, u64 *o, u32 p, u8 n) {
  if (!bs_ok(b, p, n)) return false;
  *o = getbitul(b->data, b->offset + p, n);
  return true;
}
bool swiftnav_bitstream_getbitsl(const swiftnav_bitstream_t *b, s64 *o, u32 p, u8 n) {
  if (!bs_ok(b, p, n)) return false;
  *o = getbitsl(b->data, b->offset + p, n);
  return true;
}
bool swiftnav_bitstream_remove(swiftnav_bitstream_t *b, u32 n) {
  if (!bs_ok(b, 0, n)) return false;
  b->offset += n;
  return true;
}
u32 swiftnav_bitstream_remaining(const swiftnav_bitstream_t *b) { return b->len - b->offset; }
void swiftnav_bytestream_init(swiftnav_bytestream_t *b, const u8 *d, u32 len) {
  b->data = d;
  b->len = len;
  b->offset = 0;
}
bool swiftnav_bytestream_get_bytes(const swiftnav_bytestream_t *b, u32 pos, u32 len, u8 *out) {
  if ((u64)b->offset + pos + len > b->len) return false;
  memcpy(out, b->data + b->offset + pos, len);
  return true;
}
bool swiftnav_bytestream_remove(swiftnav_bytestream_t *b, u32 len) {
  if ((u64)b->offset + len > b->len) return false;
  b->offset += len;
  return true;
}
u32 swiftnav_bytestream_remaining(const swiftnav_bytestream_t *b) { return b->len - b->offset; }

/* ---- CRC-24Q ---- */
static u32 c24tab[256];
__attribute__((constructor)) static void c24init(void) {
  for (u32 i = 0; i < 256; i++) {
    u32 c = i << 16;
    for (int k = 0; k < 8; k++) {
      c <<= 1;
      if (c & 0x1000000u) c ^= 0x1864CFBu;
    }
    c24tab[i] = c & 0xFFFFFFu;
  }
}
u32 crc24q(const u8 *buf, u32 len, u32 crc) {
  for (u32 i = 0; i < len; i++) crc = ((crc << 8) & 0xFFFFFFu) ^ c24tab[((crc >> 16) ^ buf[i]) & 0xFF];
  return crc;
}
u32 crc24q_bits(u32 crc, const u8 *buf, u32 n_bits, bool invert) {
  for (u32 i = 0; i < n_bits; i++) {
    u32 bit = (buf[i / 8] >> (7 - i % 8)) & 1u;
    if (invert) bit ^= 1u;
    u32 top = ((crc >> 23) & 1u) ^ bit;
    crc = (crc << 1) & 0xFFFFFFu;
    if (top) crc ^= 0x864CFBu;
  }
  return crc;
}

/* ---- byte fifo: holds up to its whole buffer; write/read/peek/remove are partial ---- */
void fifo_init(fifo_t *f, u8 *buffer, fifo_size_t size) {
  assert(size != 0 && (size & (size - 1)) == 0);
  f->read_index = f->write_index = 0;
  f->buffer = buffer;
  f->buffer_size = size;
}
fifo_size_t fifo_length(fifo_t *f) { return f->write_index - f->read_index; }
fifo_size_t fifo_space(fifo_t *f) { return f->buffer_size - fifo_length(f); }
fifo_size_t fifo_peek(fifo_t *f, u8 *b, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  for (fifo_size_t i = 0; i < n; i++) b[i] = f->buffer[(f->read_index + i) & (f->buffer_size - 1)];
  return n;
}
fifo_size_t fifo_remove(fifo_t *f, fifo_size_t n) {
  fifo_size_t l = fifo_length(f);
  if (n > l) n = l;
  f->read_index += n;
  return n;
}
fifo_size_t fifo_read(fifo_t *f, u8 *b, fifo_size_t n) {
  n = fifo_peek(f, b, n);
  return fifo_remove(f, n);
}
fifo_size_t fifo_write(fifo_t *f, const u8 *b, fifo_size_t n) {
  fifo_size_t s = fifo_space(f);
  if (n > s) n = s;
  for (fifo_size_t i = 0; i < n; i++) f->buffer[(f->write_index + i) & (f->buffer_size - 1)] = b[i];
  f->write_index += n;
  return n;
}

/* ---- time ---- */
bool gps_time_valid(const gps_time_t *t) { return isfinite(t->tow) && t->tow >= 0 && t->tow < WEEK_SECS && t->wn >= 0; }
bool gps_current_time_valid(const gps_time_t *t) { return gps_time_valid(t) && t->wn >= GPS_WEEK_REFERENCE; }
bool normalize_gps_time_safe(gps_time_t *t) {
  if (!isfinite(t->tow)) return false;
  double w = floor(t->tow / WEEK_SECS);
  if (w != 0) {
    if (t->wn == WN_UNKNOWN) {
      t->tow -= w * WEEK_SECS;
    } else {
      double nw = t->wn + w;
      if (nw < 0 || nw > 32767) return false;
      t->tow -= w * WEEK_SECS;
      t->wn = (s16)nw;
    }
  }
  if (t->tow >= WEEK_SECS) { /* floor() landed on the edge */
    t->tow = 0;
    if (t->wn != WN_UNKNOWN) t->wn++;
  }
  return t->tow >= 0 && t->tow < WEEK_SECS;
}
void normalize_gps_time(gps_time_t *t) {
  bool ok = normalize_gps_time_safe(t);
  assert(ok);
  (void)ok;
}
void unsafe_normalize_gps_time(gps_time_t *t) { normalize_gps_time_safe(t); }
double gpsdifftime(const gps_time_t *e, const gps_time_t *b) {
  double dt = e->tow - b->tow;
  if (b->wn == WN_UNKNOWN || e->wn == WN_UNKNOWN) {
    if (dt > WEEK_SECS / 2) dt -= WEEK_SECS;
    if (dt < -WEEK_SECS / 2) dt += WEEK_SECS;
  } else {
    dt += (double)(e->wn - b->wn) * WEEK_SECS;
  }
  return dt;
}
bool gps_time_match_weeks_safe(gps_time_t *t, const gps_time_t *ref) {
  if (!gps_time_valid(ref)) return true; /* nothing to match against: unchanged */
  t->wn = ref->wn;
  double dt = t->tow - ref->tow;
  if (dt > WEEK_SECS / 2)
    t->wn--;
  else if (dt < -WEEK_SECS / 2)
    t->wn++;
  return t->wn >= 0;
}
void gps_time_match_weeks(gps_time_t *t, const gps_time_t *ref) {
  bool ok = gps_time_match_weeks_safe(t, ref);
  assert(ok);
  (void)ok;
}
u16 gps_adjust_week_cycle(u16 raw, u16 ref) {
  if (raw >= ref) return raw;
  return (u16)(raw + GPS_WEEK_CYCLE * ((ref + GPS_WEEK_CYCLE - 1 - raw) / GPS_WEEK_CYCLE));
}
void add_secs(gps_time_t *t, double s) {
  t->tow += s;
  normalize_gps_time(t);
}
static const struct {
  s16 wn;
  s32 tow;
} leap_ev[] = {{77, 259200}, {129, 345601}, {181, 432002}, {286, 86403}, {416, 432004}, {521, 86405}, {573, 172806}, {651, 259207}, {703, 345608}, {755, 432009}, {834, 86410}, {886, 172811}, {990, 432012}, {1356, 13}, {1512, 345614}, {1695, 15}, {1851, 259216}, {1930, 17}};
double get_gps_utc_offset(const gps_time_t *t, const utc_params_t *p) {
  if (p) {
    double dt = gpsdifftime(t, &p->t_lse);
    return dt > 0 ? p->dt_lsf : p->dt_ls;
  }
  double off = 0;
  for (unsigned i = 0; i < sizeof leap_ev / sizeof leap_ev[0]; i++) {
    gps_time_t e = {leap_ev[i].tow, leap_ev[i].wn};
    if (gpsdifftime(t, &e) >= 1.0) off = i + 1;
  }
  return off;
}
bool is_leap_second_event(const gps_time_t *t, const utc_params_t *p) {
  if (p) return false;
  for (unsigned i = 0; i < sizeof leap_ev / sizeof leap_ev[0]; i++) {
    gps_time_t e = {leap_ev[i].tow, leap_ev[i].wn};
    double d = gpsdifftime(t, &e);
    if (d >= 0 && d < 1.0) return true;
  }
  return false;
}
time_t gps2time(const gps_time_t *t) { return (time_t)GPS_EPOCH + (time_t)WEEK_SECS * t->wn + (s32)t->tow; }
gps_time_t time2gps_t(time_t t) {
  gps_time_t r;
  t -= GPS_EPOCH;
  s64 w = t / WEEK_SECS;
  s64 s = t % WEEK_SECS;
  if (s < 0) {
    s += WEEK_SECS;
    w--;
  }
  r.wn = (s16)w;
  r.tow = (double)s;
  return r;
}
bool is_leap_year(s32 y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
u8 days_in_month(u16 year, u8 month) {
  static const u8 d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  if (month < 1 || month > 12) return 0;
  return (u8)(month == 2 && is_leap_year(year) ? 29 : d[month - 1]);
}
gps_time_t date2gps(s32 y, s32 mo, s32 d, s32 h, s32 mi, s32 s) {
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  tm.tm_year = y - 1900;
  tm.tm_mon = mo - 1;
  tm.tm_mday = d;
  tm.tm_hour = h;
  tm.tm_min = mi;
  tm.tm_sec = s;
  gps_time_t t = time2gps_t(timegm(&tm));
  double off = get_gps_utc_offset(&t, NULL);
  add_secs(&t, off);
  return t;
}
void gps2utc(const gps_time_t *t, utc_tm *u, const utc_params_t *p) {
  gps_time_t x = *t;
  add_secs(&x, -get_gps_utc_offset(t, p));
  time_t tt = gps2time(&x);
  struct tm tm;
  gmtime_r(&tt, &tm);
  u->year = (u16)(tm.tm_year + 1900);
  u->year_day = (u16)(tm.tm_yday + 1);
  u->month = (u8)(tm.tm_mon + 1);
  u->month_day = (u8)tm.tm_mday;
  u->week_day = (u8)(tm.tm_wday ? tm.tm_wday : 7);
  u->hour = (u8)tm.tm_hour;
  u->minute = (u8)tm.tm_min;
  u->second_int = (u8)tm.tm_sec;
  u->second_frac = x.tow - floor(x.tow);
}

/* ---- signals ---- */
static const struct {
  constellation_t con;
  const char *name;
  double hz;
} codes[CODE_COUNT] = {
#define C(i, con, name, hz) [i] = {CONSTELLATION_##con, name, hz}
    C(CODE_GPS_L1CA, GPS, "GPS L1CA", GPS_L1_HZ), C(CODE_GPS_L2CM, GPS, "GPS L2CM", GPS_L2_HZ),
    C(CODE_SBAS_L1CA, SBAS, "SBAS L1", SBAS_L1_HZ), C(CODE_GLO_L1OF, GLO, "GLO L1OF", GLO_L1_HZ),
    C(CODE_GLO_L2OF, GLO, "GLO L2OF", GLO_L2_HZ), C(CODE_GPS_L1P, GPS, "GPS L1P", GPS_L1_HZ),
    C(CODE_GPS_L2P, GPS, "GPS L2P", GPS_L2_HZ), C(CODE_GPS_L2CL, GPS, "GPS L2CL", GPS_L2_HZ),
    C(CODE_GPS_L2CX, GPS, "GPS L2C", GPS_L2_HZ), C(CODE_GPS_L5I, GPS, "GPS L5I", GPS_L5_HZ),
    C(CODE_GPS_L5Q, GPS, "GPS L5Q", GPS_L5_HZ), C(CODE_GPS_L5X, GPS, "GPS L5", GPS_L5_HZ),
    C(CODE_BDS2_B1, BDS, "BDS B1", BDS2_B11_HZ), C(CODE_BDS2_B2, BDS, "BDS B2", BDS2_B2_HZ),
    C(CODE_GAL_E1B, GAL, "GAL E1B", GAL_E1_HZ), C(CODE_GAL_E1C, GAL, "GAL E1C", GAL_E1_HZ),
    C(CODE_GAL_E1X, GAL, "GAL E1", GAL_E1_HZ), C(CODE_GAL_E6B, GAL, "GAL E6B", GAL_E6_HZ),
    C(CODE_GAL_E6C, GAL, "GAL E6C", GAL_E6_HZ), C(CODE_GAL_E6X, GAL, "GAL E6", GAL_E6_HZ),
    C(CODE_GAL_E7I, GAL, "GAL E5bI", GAL_E7_HZ), C(CODE_GAL_E7Q, GAL, "GAL E5bQ", GAL_E7_HZ),
    C(CODE_GAL_E7X, GAL, "GAL E5b", GAL_E7_HZ), C(CODE_GAL_E8I, GAL, "GAL E8I", GAL_E8_HZ),
    C(CODE_GAL_E8Q, GAL, "GAL E8Q", GAL_E8_HZ), C(CODE_GAL_E8X, GAL, "GAL E8", GAL_E8_HZ),
    C(CODE_GAL_E5I, GAL, "GAL E5aI", GAL_E5_HZ), C(CODE_GAL_E5Q, GAL, "GAL E5aQ", GAL_E5_HZ),
    C(CODE_GAL_E5X, GAL, "GAL E5a", GAL_E5_HZ), C(CODE_GLO_L1P, GLO, "GLO L1P", GLO_L1_HZ),
    C(CODE_GLO_L2P, GLO, "GLO L2P", GLO_L2_HZ), C(CODE_QZS_L1CA, QZS, "QZS L1CA", QZS_L1_HZ),
    C(CODE_QZS_L1CI, QZS, "QZS L1CI", QZS_L1_HZ), C(CODE_QZS_L1CQ, QZS, "QZS L1CQ", QZS_L1_HZ),
    C(CODE_QZS_L1CX, QZS, "QZS L1C", QZS_L1_HZ), C(CODE_QZS_L2CM, QZS, "QZS L2CM", QZS_L2_HZ),
    C(CODE_QZS_L2CL, QZS, "QZS L2CL", QZS_L2_HZ), C(CODE_QZS_L2CX, QZS, "QZS L2C", QZS_L2_HZ),
    C(CODE_QZS_L5I, QZS, "QZS L5I", QZS_L5_HZ), C(CODE_QZS_L5Q, QZS, "QZS L5Q", QZS_L5_HZ),
    C(CODE_QZS_L5X, QZS, "QZS L5", QZS_L5_HZ), C(CODE_SBAS_L5I, SBAS, "SBAS L5I", SBAS_L5_HZ),
    C(CODE_SBAS_L5Q, SBAS, "SBAS L5Q", SBAS_L5_HZ), C(CODE_SBAS_L5X, SBAS, "SBAS L5", SBAS_L5_HZ),
    C(CODE_BDS3_B1CI, BDS, "BDS3 B1CI", BDS3_B1C_HZ), C(CODE_BDS3_B1CQ, BDS, "BDS3 B1CQ", BDS3_B1C_HZ),
    C(CODE_BDS3_B1CX, BDS, "BDS3 B1C", BDS3_B1C_HZ), C(CODE_BDS3_B5I, BDS, "BDS3 B5I", BDS3_B5_HZ),
    C(CODE_BDS3_B5Q, BDS, "BDS3 B5Q", BDS3_B5_HZ), C(CODE_BDS3_B5X, BDS, "BDS3 B5", BDS3_B5_HZ),
    C(CODE_BDS3_B7I, BDS, "BDS3 B7I", BDS3_B7_HZ), C(CODE_BDS3_B7Q, BDS, "BDS3 B7Q", BDS3_B7_HZ),
    C(CODE_BDS3_B7X, BDS, "BDS3 B7", BDS3_B7_HZ), C(CODE_BDS3_B3I, BDS, "BDS3 B3I", BDS3_B3_HZ),
    C(CODE_BDS3_B3Q, BDS, "BDS3 B3Q", BDS3_B3_HZ), C(CODE_BDS3_B3X, BDS, "BDS3 B3", BDS3_B3_HZ),
    C(CODE_GPS_L1CI, GPS, "GPS L1CI", GPS_L1_HZ), C(CODE_GPS_L1CQ, GPS, "GPS L1CQ", GPS_L1_HZ),
    C(CODE_GPS_L1CX, GPS, "GPS L1C", GPS_L1_HZ), C(CODE_AUX_GPS, GPS, "GPS AUX", GPS_L1_HZ),
    C(CODE_AUX_SBAS, SBAS, "SBAS AUX", SBAS_L1_HZ), C(CODE_AUX_GAL, GAL, "GAL AUX", GAL_E1_HZ),
    C(CODE_AUX_QZS, QZS, "QZS AUX", QZS_L1_HZ), C(CODE_AUX_BDS, BDS, "BDS AUX", BDS2_B11_HZ),
};
bool code_valid(code_t c) { return (int)c >= 0 && (int)c < CODE_COUNT; }
bool constellation_valid(constellation_t c) { return (int)c >= 0 && (int)c < CONSTELLATION_COUNT; }
constellation_t code_to_constellation(code_t c) { return code_valid(c) ? codes[c].con : CONSTELLATION_INVALID; }
constellation_t sid_to_constellation(gnss_signal_t s) { return code_to_constellation(s.code); }
code_t constellation_to_l1_code(constellation_t c) {
  switch (c) {
    case CONSTELLATION_GPS: return CODE_GPS_L1CA;
    case CONSTELLATION_SBAS: return CODE_SBAS_L1CA;
    case CONSTELLATION_GLO: return CODE_GLO_L1OF;
    case CONSTELLATION_BDS: return CODE_BDS2_B1;
    case CONSTELLATION_QZS: return CODE_QZS_L1CA;
    case CONSTELLATION_GAL: return CODE_GAL_E1B;
    default: return CODE_INVALID;
  }
}
bool sid_valid(gnss_signal_t s) {
  if (!code_valid(s.code)) return false;
  switch (code_to_constellation(s.code)) {
    case CONSTELLATION_GPS: return s.sat >= GPS_FIRST_PRN && s.sat < GPS_FIRST_PRN + NUM_SATS_GPS;
    case CONSTELLATION_SBAS: return s.sat >= SBAS_FIRST_PRN && s.sat < SBAS_FIRST_PRN + NUM_SATS_SBAS;
    case CONSTELLATION_GLO: return s.sat >= GLO_FIRST_PRN && s.sat < GLO_FIRST_PRN + NUM_SATS_GLO;
    case CONSTELLATION_BDS: return s.sat >= BDS_FIRST_PRN && s.sat < BDS_FIRST_PRN + NUM_SATS_BDS;
    case CONSTELLATION_QZS: return s.sat >= QZS_FIRST_PRN && s.sat < QZS_FIRST_PRN + NUM_SATS_QZS;
    case CONSTELLATION_GAL: return s.sat >= GAL_FIRST_PRN && s.sat < GAL_FIRST_PRN + NUM_SATS_GAL;
    default: return false;
  }
}
static u8 glo_fcn[NUM_SATS_GLO + 1];
u8 glo_map_get_fcn(gnss_signal_t s) { return s.sat <= NUM_SATS_GLO ? glo_fcn[s.sat] : 0; }
void glo_map_set_slot_id(u16 fcn, u16 slot) {
  if (slot <= NUM_SATS_GLO) glo_fcn[slot] = (u8)fcn;
}
bool glo_map_valid(gnss_signal_t s) { return s.sat <= NUM_SATS_GLO && glo_fcn[s.sat] != 0; }
void glo_map_clear_all(void) { memset(glo_fcn, 0, sizeof glo_fcn); }
double code_to_carr_freq(code_t c) { return code_valid(c) ? codes[c].hz : 0; }
double sid_to_carr_freq(gnss_signal_t s) {
  if (s.code == CODE_GLO_L1OF || s.code == CODE_GLO_L1P)
    return GLO_L1_HZ + (glo_map_valid(s) ? (glo_map_get_fcn(s) - GLO_FCN_OFFSET) * GLO_L1_DELTA_HZ : 0);
  if (s.code == CODE_GLO_L2OF || s.code == CODE_GLO_L2P)
    return GLO_L2_HZ + (glo_map_valid(s) ? (glo_map_get_fcn(s) - GLO_FCN_OFFSET) * GLO_L2_DELTA_HZ : 0);
  return code_to_carr_freq(s.code);
}
double sid_to_lambda(gnss_signal_t s) { return GPS_C / sid_to_carr_freq(s); }
const char *code_to_string(code_t c) { return code_valid(c) ? codes[c].name : "invalid"; }
int sid_to_string(char *s, int n, gnss_signal_t sid) { return snprintf(s, (size_t)n, "%s %u", code_to_string(sid.code), (unsigned)sid.sat); }
u8 code_to_sig_count(code_t c) {
  switch (code_to_constellation(c)) {
    case CONSTELLATION_GPS: return NUM_SATS_GPS;
    case CONSTELLATION_SBAS: return NUM_SATS_SBAS;
    case CONSTELLATION_GLO: return NUM_SATS_GLO;
    case CONSTELLATION_BDS: return NUM_SATS_BDS;
    case CONSTELLATION_QZS: return NUM_SATS_QZS;
    case CONSTELLATION_GAL: return NUM_SATS_GAL;
    default: return 0;
  }
}
static int firstprn(code_t c) {
  constellation_t k = code_to_constellation(c);
  return k == CONSTELLATION_SBAS ? SBAS_FIRST_PRN : k == CONSTELLATION_QZS ? QZS_FIRST_PRN : 1;
}
void sid_set_init(gnss_sid_set_t *s) { memset(s, 0, sizeof *s); }
void sid_set_add(gnss_sid_set_t *s, gnss_signal_t g) {
  assert(sid_valid(g));
  s->sats[g.code] |= (u64)1 << (g.sat - firstprn(g.code));
}
void sid_set_remove(gnss_sid_set_t *s, gnss_signal_t g) {
  assert(sid_valid(g));
  s->sats[g.code] &= ~((u64)1 << (g.sat - firstprn(g.code)));
}
bool sid_set_contains(const gnss_sid_set_t *s, gnss_signal_t g) {
  return sid_valid(g) && ((s->sats[g.code] >> (g.sat - firstprn(g.code))) & 1);
}
u32 sid_set_get_sig_count(const gnss_sid_set_t *s) {
  u32 n = 0;
  for (int i = 0; i < CODE_COUNT; i++) n += (u32)__builtin_popcountll(s->sats[i]);
  return n;
}
u32 sid_set_get_sat_count(const gnss_sid_set_t *s) {
  u64 per[CONSTELLATION_COUNT];
  memset(per, 0, sizeof per);
  for (int i = 0; i < CODE_COUNT; i++) per[codes[i].con] |= s->sats[i];
  u32 n = 0;
  for (int i = 0; i < CONSTELLATION_COUNT; i++) n += (u32)__builtin_popcountll(per[i]);
  return n;
}

/* ---- broadcast ephemeris decoders ---- */
#define P2(n) ldexp(1.0, n)
#define SEMI GPS_PI
const float g_bds_ura_table[BDS_URA_TABLE_SIZE] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, INVALID_URA_VALUE};
static const float gps_ura[16] = {2.0f, 2.8f, 4.0f, 5.7f, 8.0f, 11.3f, 16.0f, 32.0f, 64.0f, 128.0f, 256.0f, 512.0f, 1024.0f, 2048.0f, 4096.0f, INVALID_URA_VALUE};
#define F(w, sh, n) (((w) >> (sh)) & ((1u << (n)) - 1u))
void decode_ephemeris(const u32 w[3][8], ephemeris_t *e, double tot) {
  ephemeris_kepler_t *k = &e->data.kepler;
  u16 wn10 = (u16)F(w[0][0], 20, 10);
  s16 wn = (s16)gps_adjust_week_cycle(wn10, GPS_WEEK_REFERENCE);
  e->ura = gps_ura[F(w[0][0], 14, 4)];
  e->health_bits = (u8)F(w[0][0], 8, 6);
  k->tgd.gps_s[0] = (float)(sext(F(w[0][4], 6, 8), 8) * P2(-31));
  k->tgd.gps_s[1] = 0;
  k->iodc = (u16)((F(w[0][0], 6, 2) << 8) | F(w[0][5], 22, 8));
  k->toc.tow = F(w[0][5], 6, 16) * 16.0;
  k->toc.wn = wn;
  k->af2 = (double)sext(F(w[0][6], 22, 8), 8) * P2(-55);
  k->af1 = (double)sext(F(w[0][6], 6, 16), 16) * P2(-43);
  k->af0 = (double)sext(F(w[0][7], 8, 22), 22) * P2(-31);
  u8 iode2 = (u8)F(w[1][0], 22, 8);
  k->crs = (double)sext(F(w[1][0], 6, 16), 16) * P2(-5);
  k->dn = (double)sext(F(w[1][1], 14, 16), 16) * P2(-43) * SEMI;
  k->m0 = (double)sext((F(w[1][1], 6, 8) << 24) | F(w[1][2], 6, 24), 32) * P2(-31) * SEMI;
  k->cuc = (double)sext(F(w[1][3], 14, 16), 16) * P2(-29);
  k->ecc = (double)((F(w[1][3], 6, 8) << 24) | F(w[1][4], 6, 24)) * P2(-33);
  k->cus = (double)sext(F(w[1][5], 14, 16), 16) * P2(-29);
  k->sqrta = (double)((F(w[1][5], 6, 8) << 24) | F(w[1][6], 6, 24)) * P2(-19);
  e->toe.tow = F(w[1][7], 14, 16) * 16.0;
  e->toe.wn = wn;
  e->fit_interval = F(w[1][7], 13, 1) ? 6 * HOUR_SECS : 4 * HOUR_SECS;
  k->cic = (double)sext(F(w[2][0], 14, 16), 16) * P2(-29);
  k->omega0 = (double)sext((F(w[2][0], 6, 8) << 24) | F(w[2][1], 6, 24), 32) * P2(-31) * SEMI;
  k->cis = (double)sext(F(w[2][2], 14, 16), 16) * P2(-29);
  k->inc = (double)sext((F(w[2][2], 6, 8) << 24) | F(w[2][3], 6, 24), 32) * P2(-31) * SEMI;
  k->crc = (double)sext(F(w[2][4], 14, 16), 16) * P2(-5);
  k->w = (double)sext((F(w[2][4], 6, 8) << 24) | F(w[2][5], 6, 24), 32) * P2(-31) * SEMI;
  k->omegadot = (double)sext(F(w[2][6], 6, 24), 24) * P2(-43) * SEMI;
  u8 iode3 = (u8)F(w[2][7], 22, 8);
  k->inc_dot = (double)sext(F(w[2][7], 8, 14), 14) * P2(-43) * SEMI;
  k->iode = iode2;
  if (tot >= 0) {
    gps_time_t ref = {tot, wn};
    gps_time_match_weeks_safe(&e->toe, &ref);
    gps_time_match_weeks_safe(&k->toc, &ref);
  }
  e->valid = (iode2 == iode3) && (iode2 == (k->iodc & 0xFF)) && e->toe.tow < WEEK_SECS && k->toc.tow < WEEK_SECS;
}
bool decode_gal_ephemeris_safe(const u8 p[5][GAL_INAV_CONTENT_BYTE], ephemeris_t *e) {
  ephemeris_kepler_t *k = &e->data.kepler;
  u16 iod = (u16)getbitu(p[0], 6, 10);
  e->toe.tow = getbitu(p[0], 16, 14) * 60.0;
  k->m0 = getbits(p[0], 30, 32) * P2(-31) * SEMI;
  k->ecc = getbitu(p[0], 62, 32) * P2(-33);
  k->sqrta = getbitu(p[0], 94, 32) * P2(-19);
  k->omega0 = getbits(p[1], 16, 32) * P2(-31) * SEMI;
  k->inc = getbits(p[1], 48, 32) * P2(-31) * SEMI;
  k->w = getbits(p[1], 80, 32) * P2(-31) * SEMI;
  k->inc_dot = getbits(p[1], 112, 14) * P2(-43) * SEMI;
  k->omegadot = getbits(p[2], 16, 24) * P2(-43) * SEMI;
  k->dn = getbits(p[2], 40, 16) * P2(-43) * SEMI;
  k->cuc = getbits(p[2], 56, 16) * P2(-29);
  k->cus = getbits(p[2], 72, 16) * P2(-29);
  k->crc = getbits(p[2], 88, 16) * P2(-5);
  k->crs = getbits(p[2], 104, 16) * P2(-5);
  u32 sisa = getbitu(p[2], 120, 8);
  e->sid.sat = (u16)getbitu(p[3], 16, 6);
  k->cic = getbits(p[3], 22, 16) * P2(-29);
  k->cis = getbits(p[3], 38, 16) * P2(-29);
  k->toc.tow = getbitu(p[3], 54, 14) * 60.0;
  k->af0 = getbits(p[3], 68, 31) * P2(-34);
  k->af1 = getbits(p[3], 99, 21) * P2(-46);
  k->af2 = getbits(p[3], 120, 6) * P2(-59);
  k->tgd.gal_s[0] = (float)(getbits(p[4], 47, 10) * P2(-32));
  k->tgd.gal_s[1] = (float)(getbits(p[4], 57, 10) * P2(-32));
  e->health_bits = (u8)getbitu(p[4], 67, 6);
  u16 wn = (u16)getbitu(p[4], 73, 12);
  double tow = getbitu(p[4], 85, 20);
  if (e->toe.tow >= WEEK_SECS || k->toc.tow >= WEEK_SECS || tow >= WEEK_SECS) return false;
  gps_time_t ref = {tow, (s16)gps_adjust_week_cycle((u16)(wn + GAL_WEEK_TO_GPS_WEEK), GPS_WEEK_REFERENCE)};
  gps_time_match_weeks_safe(&e->toe, &ref);
  gps_time_match_weeks_safe(&k->toc, &ref);
  if (sisa < 50)
    e->ura = 0.01f * (float)sisa;
  else if (sisa < 75)
    e->ura = 0.5f + 0.02f * (float)(sisa - 50);
  else if (sisa < 100)
    e->ura = 1.0f + 0.04f * (float)(sisa - 75);
  else if (sisa < 126)
    e->ura = 2.0f + 0.16f * (float)(sisa - 100);
  else
    e->ura = INVALID_URA_VALUE;
  k->iode = k->iodc = iod;
  e->fit_interval = GAL_FIT_INTERVAL_SECONDS;
  e->valid = 1;
  return true;
}
/* concatenates the 22 information bits of word 2..10 (word 2 has 12 SOW bits first) */
static u64 d1(const u32 *w, int word, int off, int n) {
  u64 v = 0;
  while (n > 0) {
    int avail = 22 - off;
    int take = n < avail ? n : avail;
    v = (v << take) | F(w[word - 1], 8 + (unsigned)(avail - take), (unsigned)take);
    n -= take;
    off += take;
    if (off == 22) {
      off = 0;
      word++;
    }
  }
  return v;
}
void decode_bds_d1_ephemeris(const u32 w[3][10], gnss_signal_t sid, ephemeris_t *e) {
  ephemeris_kepler_t *k = &e->data.kepler;
  e->sid = sid;
  e->health_bits = (u8)d1(w[0], 2, 12, 1);
  u32 urai = (u32)d1(w[0], 2, 18, 4);
  u32 wn = (u32)d1(w[0], 3, 0, 13);
  k->toc.tow = (double)d1(w[0], 3, 13, 17) * 8.0;
  k->toc.wn = (s16)(wn + BDS_WEEK_TO_GPS_WEEK);
  k->tgd.bds_s[0] = (float)((double)sext(d1(w[0], 4, 8, 10), 10) * 1e-10);
  k->tgd.bds_s[1] = (float)((double)sext(d1(w[0], 4, 18, 10), 10) * 1e-10);
  k->af2 = (double)sext(d1(w[0], 8, 4, 11), 11) * P2(-66);
  k->af0 = (double)sext(d1(w[0], 8, 15, 24), 24) * P2(-33);
  k->af1 = (double)sext(d1(w[0], 9, 17, 22), 22) * P2(-50);
  k->dn = (double)sext(d1(w[1], 2, 12, 16), 16) * P2(-43) * SEMI;
  k->cuc = (double)sext(d1(w[1], 3, 6, 18), 18) * P2(-31);
  k->m0 = (double)sext(d1(w[1], 4, 2, 32), 32) * P2(-31) * SEMI;
  k->ecc = (double)d1(w[1], 5, 12, 32) * P2(-33);
  k->cus = (double)sext(d1(w[1], 7, 0, 18), 18) * P2(-31);
  k->crc = (double)sext(d1(w[1], 7, 18, 18), 18) * P2(-6);
  k->crs = (double)sext(d1(w[1], 8, 14, 18), 18) * P2(-6);
  k->sqrta = (double)d1(w[1], 9, 10, 32) * P2(-19);
  u32 toe = (u32)(d1(w[1], 10, 20, 2) << 15) | (u32)d1(w[2], 2, 12, 15);
  k->inc = (double)sext(d1(w[2], 3, 5, 32), 32) * P2(-31) * SEMI;
  k->cic = (double)sext(d1(w[2], 4, 15, 18), 18) * P2(-31);
  k->omegadot = (double)sext(d1(w[2], 5, 11, 24), 24) * P2(-43) * SEMI;
  k->cis = (double)sext(d1(w[2], 6, 13, 18), 18) * P2(-31);
  k->inc_dot = (double)sext(d1(w[2], 7, 9, 14), 14) * P2(-43) * SEMI;
  k->omega0 = (double)sext(d1(w[2], 8, 1, 32), 32) * P2(-31) * SEMI;
  k->w = (double)sext(d1(w[2], 9, 11, 32), 32) * P2(-31) * SEMI;
  e->toe.tow = toe * 8.0;
  e->toe.wn = k->toc.wn;
  if (e->toe.tow >= WEEK_SECS) e->toe.tow = 0;
  if (k->toc.tow >= WEEK_SECS) k->toc.tow = 0;
  /* the broadcast AODE/AODC do not identify an issue; derived from the times */
  k->iode = (u16)((u32)(e->toe.tow / 720.0) % 240);
  k->iodc = (u16)((u32)(k->toc.tow / 720.0) % 240);
  e->ura = gps_ura[urai];
}
static u32 gs(const glo_string_t *s, int lo, int n) {
  u32 v = 0;
  for (int i = n - 1; i >= 0; i--) {
    int b = lo - 1 + i;
    v = (v << 1) | ((s->word[b / 32] >> (b % 32)) & 1u);
  }
  return v;
}
static double gsm(const glo_string_t *s, int lo, int n) { /* sign-magnitude */
  u32 v = gs(s, lo, n);
  u32 m = v & ((1u << (n - 1)) - 1u);
  return (v >> (n - 1)) & 1u ? -(double)m : (double)m;
}
void decode_glo_ephemeris(const glo_string_t st[5], gnss_signal_t sid, const utc_params_t *utc, ephemeris_t *e) {
  static const float ft[16] = {1, 2, 2.5f, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, INVALID_URA_VALUE};
  ephemeris_glo_t *g = &e->data.glo;
  e->sid = sid;
  for (int i = 0; i < 3; i++) {
    g->vel[i] = gsm(&st[i], 41, 24) * P2(-20) * 1e3;
    g->acc[i] = gsm(&st[i], 36, 5) * P2(-30) * 1e3;
    g->pos[i] = gsm(&st[i], 9, 27) * P2(-11) * 1e3;
  }
  u32 tb = gs(&st[1], 70, 7);
  g->gamma = gsm(&st[2], 69, 11) * P2(-40);
  g->tau = gsm(&st[3], 59, 22) * P2(-30);
  g->d_tau = gsm(&st[3], 54, 5) * P2(-30);
  g->iod = (u8)(tb & 0x7F);
  e->ura = ft[gs(&st[3], 30, 4)];
  e->health_bits = (u8)(gs(&st[1], 80, 1));
  u32 nt = gs(&st[3], 16, 11);
  u32 n4 = gs(&st[4], 32, 5);
  double days = (n4 >= 1 ? (n4 - 1) : 0) * 1461.0 + (nt >= 1 ? nt - 1 : 0);
  /* days since 1996-01-01 = GPS week 834, day 1 */
  double s = (days + 834.0 * 7 + 1) * DAY_SECS + tb * 900.0 - UTC_SU_OFFSET * HOUR_SECS + utc->dt_ls;
  e->toe.wn = (s16)floor(s / WEEK_SECS);
  e->toe.tow = s - (double)e->toe.wn * WEEK_SECS;
  e->fit_interval = GLO_FIT_INTERVAL_SECONDS;
  e->valid = 1;
}

/* DF402 */
u8 encode_lock_time(double t) {
  if (!(t >= 0)) return 0;
  double ms = t * 1000.0;
  u8 v = 0;
  double lim = 32;
  while (v < 15 && ms >= lim) {
    v++;
    lim *= 2;
  }
  return v;
}
double decode_lock_time(u8 v) { return v ? ldexp(0.032, (v & 0xF) - 1) : 0; }
