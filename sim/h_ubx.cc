// ubx2sbp under simulation: C09-C12.
#include <algorithm>
#include <cmath>
#include <map>
#include "harness.h"
#include "rtcm_model.h"
#include "stream.h"
#include "ubx_bits.h"

extern "C" {
#include <gnss-converters/ubx_sbp.h>
#include <swiftnav/ephemeris.h>
int ubx2sbp_main(int argc, char **argv, const char *opts, int (*readfn)(uint8_t *, size_t, void *), s32 (*writefn)(u8 *, u32, void *), void *context);
}

namespace sim {
namespace {
const int64_t W = 604800000;
enum { T_LLH = 0x20A, T_VEL = 0x20D, T_ORI = 0x221, T_AZEL = 0x97, T_MST = 0x61, T_FWD = 0x402, T_SBASRAW = 0x7777, T_IMU = 0x900, T_AUX = 0x901, T_ODO = 0x903, T_TICK = 0x904, T_OFF = 0xFF07 };
int mod(int64_t a, int64_t m) { return (int)(((a % m) + m) % m); }

int urd(uint8_t *b, size_t n, void *x) { return (int)((IO *)x)->read(b, n); }
s32 uwr(u8 *b, u32 n, void *x) { return (s32)((IO *)x)->write(b, n); }

// ---------- broadcast navigation data ----------
struct Issue {
  int gnss = 0, sat = 0;
  int64_t id = 0;
  std::vector<std::vector<uint32_t>> w;  // words of each part
  glo_string_t gs[5];
  uint8_t gpage[5][16];
};
uint32_t setf(uint32_t w, unsigned sh, unsigned n, uint32_t v) { uint32_t m = ((1u << n) - 1) << sh; return (w & ~m) | ((v << sh) & m); }
void setd1(std::vector<uint32_t> &w, int word, int off, int n, uint64_t v) {
  for (int i = 0; i < n; i++) {
    int o = off + i, wd = word + o / 22, b = o % 22;
    w[(size_t)wd - 1] = setf(w[(size_t)wd - 1], (unsigned)(8 + 21 - b), 1, (uint32_t)(v >> (n - 1 - i)) & 1);
  }
}
void setbe(uint8_t *p, int pos, int n, uint64_t v) { for (int i = 0; i < n; i++) { int b = pos + i; uint8_t m = (uint8_t)(0x80 >> (b % 8)); if ((v >> (n - 1 - i)) & 1) p[b / 8] |= m; else p[b / 8] &= (uint8_t)~m; } }
void setgs(glo_string_t &s, int lo, int n, uint32_t v) { for (int i = 0; i < n; i++) { int b = lo - 1 + i; uint32_t m = 1u << (b % 32); if ((v >> i) & 1) s.word[b / 32] |= m; else s.word[b / 32] &= ~m; } }
uint32_t getgs(const glo_string_t &s, int bit) { return (s.word[(bit - 1) / 32] >> ((bit - 1) % 32)) & 1; }

// Everything a satellite sends is a function of (gnss, sat, issue, time).
// abs: seconds since GPS epoch of the frame start
Issue make_issue(int gnss, int sat, int64_t iss, int64_t abs, int64_t frame) {
  Issue I; I.gnss = gnss; I.sat = sat; I.id = iss;
  Rng r((uint64_t)(iss * 1000003 + gnss * 977 + sat * 31 + 5));
  auto rw = [&](int bits) { return (uint32_t)(r.next() & ((1ull << bits) - 1)); };
  int64_t week = 604800;
  if (gnss == 0) {
    for (int s = 0; s < 3; s++) { std::vector<uint32_t> w; for (int i = 0; i < 10; i++) w.push_back(rw(30)); I.w.push_back(w); }
    uint32_t iod = (uint32_t)(iss & 0xFF);
    int64_t toe = ((abs / 7200 + 1) * 7200) % week;
    for (int s = 0; s < 3; s++) {
      int64_t t = abs + 6 * s;
      auto &w = I.w[(size_t)s];
      w[0] = setf(w[0], 22, 8, 0x8b);
      w[1] = setf(setf(w[1], 13, 17, (uint32_t)((t / 6 + 1) % 100800)), 8, 3, (uint32_t)s + 1);
    }
    auto &a = I.w[0], &b = I.w[1], &c = I.w[2];
    a[2] = setf(a[2], 20, 10, (uint32_t)((abs / week) % 1024));
    a[7] = setf(setf(a[7], 22, 8, iod), 6, 16, (uint32_t)(toe / 16));
    b[2] = setf(b[2], 22, 8, iod);
    b[9] = setf(b[9], 14, 16, (uint32_t)(toe / 16));
    c[9] = setf(c[9], 22, 8, iod);
    for (auto &v : I.w) for (auto &x : v) x &= 0x3FFFFFFF;
  } else if (gnss == 3) {
    for (int s = 0; s < 3; s++) { std::vector<uint32_t> w; for (int i = 0; i < 10; i++) w.push_back(rw(30)); I.w.push_back(w); }
    int64_t bt = abs - 14, toe = ((bt / 3600) * 3600) % week, wn = bt / week - 1356;
    setd1(I.w[0], 3, 0, 13, (uint64_t)wn); setd1(I.w[0], 3, 13, 17, (uint64_t)toe / 8);
    setd1(I.w[1], 10, 20, 2, (uint64_t)(toe / 8) >> 15); setd1(I.w[2], 2, 12, 15, (uint64_t)(toe / 8) & 0x7FFF);
    for (int s = 0; s < 3; s++) {
      uint32_t sow = (uint32_t)((bt + 6 * s) % week);
      auto &w = I.w[(size_t)s];
      w[0] = setf(setf(w[0], 12, 3, (uint32_t)s + 1), 4, 8, sow >> 12);
      w[1] = setf(w[1], 18, 12, sow & 0xFFF);
    }
  } else if (gnss == 2) {
    for (int i = 0; i < 5; i++) for (int j = 0; j < 16; j++) I.gpage[i][j] = (uint8_t)r.below(256);
    int64_t toe = (abs / 600) * 600 % week;
    for (int i = 0; i < 4; i++) setbe(I.gpage[i], 6, 10, (uint64_t)iss & 0x3FF);
    setbe(I.gpage[0], 16, 14, (uint64_t)toe / 60);
    setbe(I.gpage[3], 16, 6, (uint64_t)sat);
    setbe(I.gpage[3], 54, 14, (uint64_t)toe / 60);
    Rng q((uint64_t)(abs * 77 + sat));
    for (int j = 0; j < 16; j++) I.gpage[4][j] = (uint8_t)q.below(256);
    setbe(I.gpage[4], 73, 12, (uint64_t)((abs / week - 1024) & 0xFFF));
    setbe(I.gpage[4], 85, 20, (uint64_t)(abs % week));
    for (int i = 0; i < 5; i++) {
      setbe(I.gpage[i], 0, 6, (uint64_t)i + 1);
      // even part: 0, page type 0, 112 bits of data, tail; odd part: 1, 0, 16 bits, ...
      uint8_t e[36] = {0};
      for (int j = 0; j < 112; j++) setbe(e, 2 + j, 1, (I.gpage[i][j / 8] >> (7 - j % 8)) & 1);
      Rng z((uint64_t)(abs + i));
      setbe(e, 114, 14, z.below(1 << 14));
      setbe(e, 128, 1, 1);
      for (int j = 0; j < 16; j++) setbe(e, 130 + j, 1, (I.gpage[i][(112 + j) / 8] >> (7 - (112 + j) % 8)) & 1);
      setbe(e, 146, 64, z.next());
      std::vector<uint32_t> w;
      for (int j = 0; j < 9; j++) w.push_back((uint32_t)e[4 * j] << 24 | (uint32_t)e[4 * j + 1] << 16 | (uint32_t)e[4 * j + 2] << 8 | e[4 * j + 3]);
      I.w.push_back(w);
    }
  } else {  // GLONASS: iss is the superframe
    for (int i = 0; i < 5; i++) {
      glo_string_t &g = I.gs[i];
      memset(&g, 0, sizeof g);
      for (int b = 1; b <= 84; b++) setgs(g, b, 1, (uint32_t)r.below(2));
      setgs(g, 81, 4, (uint32_t)i + 1); setgs(g, 85, 1, 0);
    }
    setgs(I.gs[1], 70, 7, (uint32_t)r.below(96));
    setgs(I.gs[3], 16, 11, 1 + (uint32_t)r.below(1461));
    setgs(I.gs[4], 32, 5, 6 + (uint32_t)r.below(10));
    for (int i = 0; i < 5; i++) {
      std::vector<uint32_t> w(4, 0);
      for (int b = 85; b >= 1; b--) { int p = 85 - b; if (getgs(I.gs[i], b)) w[(size_t)p / 32] |= 0x80000000u >> (p % 32); }
      w[2] |= (uint32_t)(frame * 7 + i) & 0x7FF;  // padding
      w[3] = (uint32_t)((iss & 0xFFFF) << 16) | (uint32_t)(frame & 0xFFFF);
      I.w.push_back(w);
    }
  }
  return I;
}
int nparts(int gnss) { return gnss == 0 || gnss == 3 ? 3 : 5; }

std::vector<Fld> eph_fields(const ephemeris_t &e, int gnss) {
  std::vector<Fld> f = {FU(1, e.sid.sat), FU(1, e.sid.code), FU(4, (uint32_t)llround(e.toe.tow)), FU(2, (uint16_t)e.toe.wn), FF(e.ura), FU(4, e.fit_interval), FU(1, e.valid), FU(1, e.health_bits)};
  if (gnss == 6) {
    auto &g = e.data.glo;
    f.push_back(FF(g.gamma)); f.push_back(FF(g.tau)); f.push_back(FF(g.d_tau));
    for (int i = 0; i < 3; i++) f.push_back(FD(g.pos[i]));
    for (int i = 0; i < 3; i++) f.push_back(FD(g.vel[i]));
    for (int i = 0; i < 3; i++) f.push_back(FF(g.acc[i]));
    f.push_back(FU(1, g.fcn)); f.push_back(FU(1, g.iod));
    return f;
  }
  auto &k = e.data.kepler;
  if (gnss == 0) f.push_back(FF(k.tgd.gps_s[0]));
  else if (gnss == 3) { f.push_back(FF(k.tgd.bds_s[0])); f.push_back(FF(k.tgd.bds_s[1])); }
  else { f.push_back(FF(k.tgd.gal_s[0])); f.push_back(FF(k.tgd.gal_s[1])); }
  for (double x : {k.crs, k.crc, k.cuc, k.cus, k.cic, k.cis}) f.push_back(FF(x));
  for (double x : {k.dn, k.m0, k.ecc, k.sqrta, k.omega0, k.omegadot, k.w, k.inc, k.inc_dot}) f.push_back(FD(x));
  if (gnss == 0) { f.push_back(FF(k.af0)); f.push_back(FF(k.af1)); }
  else if (gnss == 3) { f.push_back(FD(k.af0)); f.push_back(FF(k.af1)); }
  else { f.push_back(FD(k.af0)); f.push_back(FD(k.af1)); }
  f.push_back(FF(k.af2));
  f.push_back(FU(4, (uint32_t)llround(k.toc.tow))); f.push_back(FU(2, (uint16_t)k.toc.wn));
  f.push_back(FU(gnss == 2 ? 2 : 1, k.iode)); f.push_back(FU(2, k.iodc));
  if (gnss == 2) f.push_back(FU(1, 0));
  return f;
}

// ---------- frames from operations ----------
struct Tag { int gnss, sat, part; int64_t iss; int64_t abs, frame; };
struct Built {
  Bytes s;
  Link l;
  Delivery d;
  bool hnr = false; int sender = -1;
  std::map<Bytes, Tag> reg;  // SFRBX payload -> what it is
  double span = 0;
};

Bytes pay_sfrbx(int gnss, int sat, int freq, const std::vector<uint32_t> &w) {
  Bytes b = {(uint8_t)gnss, (uint8_t)sat, 0, (uint8_t)freq, (uint8_t)w.size(), 3, 2, 0};
  for (uint32_t x : w) le(b, x, 4);
  return b;
}
int freq_of(int sat) { return (sat * 5) % 14; }

double odd_double(Rng &r) {
  static const double v[] = {0.0, -0.0, 1e300, -1e300, 2147483646.9, 2147483647.5, 2147483648.0, -2147483647.9, -2147483649.5, 4294967296.0, 1e10, -1.0, 85899345.5, 85899350.0, 0.998, 0.9990, -0.0005, 32766.999, 32767.5, -32768.5, -32767.999};
  size_t i = r.below(sizeof v / sizeof *v + 2);
  if (i < sizeof v / sizeof *v) return v[i];
  return i % 2 ? NAN : INFINITY;
}

bool encode(const Op &op, int *cls, int *id, Bytes *pay) {
  Bytes &b = *pay;
  const std::string &k = op.k;
  if (k == "rawx") {
    *cls = 2; *id = 0x15;
    Rng r((uint64_t)op.arg(5));
    int64_t tow = op.arg(0);  // ms
    double t = (double)tow / 1000.0;
    int fl = (int)op.arg(6);
    if (fl & 1) t += (double)r.range(-499, 499) * 1e-6;
    if (fl & 2) t += 0.0009996;
    if (fl & 4) t = nextafter((double)tow / 1000.0, (double)tow);
    if (t < 0) t = 0;
    if (t >= 604800) t = nextafter(604800.0, 0);
    led(b, t);
    le(b, (uint64_t)op.arg(1), 2); le(b, (uint64_t)op.arg(2), 1); le(b, (uint64_t)op.arg(4), 1); le(b, (uint64_t)op.arg(3), 1); le(b, 1, 1); le(b, 0, 2);
    static const int ok[][2] = {{0, 0}, {0, 3}, {0, 4}, {1, 0}, {2, 0}, {2, 1}, {2, 5}, {2, 6}, {3, 0}, {3, 1}, {3, 2}, {3, 3}, {5, 0}, {5, 4}, {5, 5}, {6, 0}, {6, 2}};
    for (int64_t i = 0; i < op.arg(4); i++) {
      bool odd = r.chance(fl & 8 ? 0.3 : 0.03);
      double p = odd && r.chance(0.4) ? odd_double(r) : 1.9e7 + r.unit() * 2.2e7;
      double l = odd && r.chance(0.4) ? odd_double(r) : (r.unit() - 0.3) * 1.9e8;
      if (!odd && r.chance(0.05)) l = floor(l) + 0.9985;
      if (!odd && r.chance(0.05)) l = floor(l);
      float d = (float)(odd && r.chance(0.4) ? odd_double(r) : (r.unit() - 0.5) * 10000);
      led(b, p); led(b, l); lef(b, d);
      int g, sg; auto &x = ok[r.below(17)]; g = x[0]; sg = x[1];
      if (r.chance(0.03)) { g = (int)r.below(8); sg = (int)r.below(8); }
      le(b, (uint64_t)g, 1); le(b, 1 + r.below(g == 1 ? 158 : 63), 1); le(b, (uint64_t)sg, 1); le(b, r.below(14), 1);
      le(b, r.chance(0.3) ? 64500 : r.chance(0.4) ? (1ull << r.below(16)) - r.below(2) : r.below(65536), 2);
      le(b, r.chance(0.05) ? r.below(256) : 10 + r.below(54), 1); le(b, r.below(16), 1); le(b, r.below(16), 1); le(b, r.below(16), 1); le(b, r.chance(0.7) ? 7 : r.below(16), 1); le(b, 0, 1);
    }
    return true;
  }
  Rng r((uint64_t)op.arg(1));
  auto coord = [&](int64_t lim) { return r.chance(0.1) ? (r.chance(0.5) ? lim : -lim) : r.range(-lim, lim); };
  if (k == "pvt") {
    *cls = 1; *id = 7;
    le(b, (uint64_t)op.arg(0), 4); le(b, 2021, 2); for (int i = 0; i < 5; i++) le(b, 1 + r.below(20), 1);
    le(b, r.below(256), 1); le(b, r.below(1000), 4); le(b, (uint64_t)r.range(-500000, 500000), 4);
    le(b, (uint64_t)op.arg(2), 1); le(b, (uint64_t)op.arg(3), 1); le(b, r.below(256), 1); le(b, r.below(33), 1);
    le(b, (uint64_t)coord(1800000000), 4); le(b, (uint64_t)coord(900000000), 4); le(b, (uint64_t)r.range(-500000, 9000000), 4); le(b, (uint64_t)r.range(-500000, 9000000), 4);
    le(b, r.chance(0.3) ? 65530 + r.below(12) : r.below(20000), 4); le(b, r.chance(0.3) ? r.next() & 0xFFFFFFFF : r.below(20000), 4);
    for (int i = 0; i < 3; i++) le(b, (uint64_t)r.range(-50000, 50000), 4);
    for (int i = 0; i < 4; i++) le(b, r.below(100000), 4);
    le(b, r.below(1000), 2); le(b, r.below(2), 1); for (int i = 0; i < 5; i++) le(b, 0, 1);
    le(b, (uint64_t)r.range(-18000000, 36000000), 4); le(b, r.below(1000), 2); le(b, r.below(1000), 2);
  } else if (k == "hnr") {
    *cls = 0x28; *id = 0;
    le(b, (uint64_t)op.arg(0), 4); le(b, 2021, 2); for (int i = 0; i < 6; i++) le(b, 1 + r.below(20), 1);
    le(b, (uint64_t)r.range(-500000, 500000), 4); le(b, r.below(6), 1); le(b, r.below(256), 1); le(b, 0, 2);
    le(b, (uint64_t)coord(1800000000), 4); le(b, (uint64_t)coord(900000000), 4); le(b, (uint64_t)r.range(-500000, 9000000), 4); le(b, (uint64_t)r.range(-500000, 9000000), 4);
    le(b, (uint64_t)r.range(0, 50000), 4); le(b, (uint64_t)r.range(0, 50000), 4); le(b, (uint64_t)r.range(0, 36000000), 4); le(b, (uint64_t)r.range(-18000000, 36000000), 4);
    le(b, r.chance(0.2) ? 65530 + r.below(12) : r.below(20000), 4); le(b, r.chance(0.2) ? 1u << 31 : r.below(20000), 4); le(b, r.below(5000), 4); le(b, r.below(500000), 4); le(b, 0, 4);
  } else if (k == "att") {
    *cls = 1; *id = 5;
    le(b, (uint64_t)op.arg(0), 4); le(b, 0, 4);
    for (int i = 0; i < 2; i++) le(b, (uint64_t)coord(18000000), 4);
    le(b, (uint64_t)r.range(0, 36000000), 4); for (int i = 0; i < 3; i++) le(b, r.below(500000), 4);
  } else if (k == "vel") {
    *cls = 1; *id = 0x11;
    le(b, (uint64_t)op.arg(0), 4); for (int i = 0; i < 3; i++) le(b, (uint64_t)coord(100000), 4); le(b, r.below(65536), 4);
  } else if (k == "nsat") {
    *cls = 1; *id = 0x35;
    int n = (int)op.arg(2);
    le(b, (uint64_t)op.arg(0), 4); le(b, 1, 1); le(b, (uint64_t)n, 1); le(b, 0, 2);
    static const int gn[] = {0, 0, 1, 2, 3, 5, 6, 4};
    for (int i = 0; i < n; i++) { le(b, (uint64_t)gn[r.below(8)], 1); le(b, 1 + r.below(200), 1); le(b, r.below(64), 1); le(b, (uint64_t)r.range(-90, 90), 1); le(b, r.below(361), 2); le(b, r.next() & 0xFFFF, 2); le(b, r.next() & 0xFFFFFFFF, 4); }
  } else if (k == "status") {
    *cls = 1; *id = 3;
    le(b, (uint64_t)op.arg(0), 4); le(b, (uint64_t)op.arg(2), 1); le(b, (uint64_t)op.arg(3), 1); le(b, r.below(256), 1); le(b, r.below(256), 1); le(b, r.below(100000), 4); le(b, (uint64_t)op.arg(4), 4);
  } else if (k == "hw") {
    *cls = 0x0A; *id = 9;
    for (int64_t i = 0; i < op.arg(0); i++) le(b, r.below(256), 1);
  } else if (k == "sbas") {
    *cls = 2; *id = 0x13;
    uint8_t e[32] = {0};
    static const int pre[] = {0x53, 0x9A, 0xC6};
    setbe(e, 0, 8, op.arg(3) & 1 ? r.below(256) : (uint64_t)pre[r.below(3)]);
    for (int i = 8; i < 226; i++) setbe(e, i, 1, r.below(2));
    uint32_t crc = 0;
    for (int i = 0; i < 226; i++) { uint32_t bit = (e[i / 8] >> (7 - i % 8)) & 1, top = ((crc >> 23) & 1) ^ bit; crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
    if (op.arg(3) & 2) crc ^= 1u << r.below(24);
    setbe(e, 226, 24, crc); setbe(e, 250, 6, r.below(64));
    std::vector<uint32_t> w;
    for (int j = 0; j < 8; j++) w.push_back((uint32_t)e[4 * j] << 24 | (uint32_t)e[4 * j + 1] << 16 | (uint32_t)e[4 * j + 2] << 8 | e[4 * j + 3]);
    if (op.arg(3) & 4) w.push_back((uint32_t)r.next());
    if (op.arg(3) & 8) w.push_back((uint32_t)r.next());
    b = pay_sfrbx(1, (int)op.arg(2), 0, w);
  } else if (k == "eraw") {
    // msss, seed, tag, sets, flavour
    *cls = 0x10; *id = 3;
    le(b, (uint64_t)op.arg(0), 4);
    int order[7] = {16, 17, 18, 14, 13, 5, 12};
    int fl = (int)op.arg(4);
    if (fl & 1) for (int i = 0; i < 6; i++) std::swap(order[i], order[i + (int)r.below((uint64_t)(6 - i))]);
    uint32_t tag = (uint32_t)op.arg(2);
    for (int64_t s = 0; s < op.arg(3); s++) {
      for (int i = 0; i < 7; i++) {
        if ((fl & 2) && r.chance(0.08)) continue;
        if (order[i] == 12 && (fl & 8)) continue;
        uint32_t v = order[i] == 12 ? (r.chance(0.1) ? (uint32_t)(r.chance(0.5) ? r.range(8690, 8710) : r.range(-4110, -4090)) : (uint32_t)r.range(-4500, 9500)) : r.chance(0.1) ? (uint32_t)r.next() : (uint32_t)r.range(-400000, 400000);
        le(b, (v & 0xFFFFFF) | (uint32_t)order[i] << 24, 4); le(b, tag & 0xFFFFFF, 4);
        if ((fl & 4) && r.chance(0.1)) { le(b, (uint32_t)r.below(32) << 24 | 77, 4); le(b, tag & 0xFFFFFF, 4); }
      }
      tag += 255 + (uint32_t)r.below(5);
    }
  } else if (k == "meas") {
    // calib tag, seed, entries as type<<24|value..., flags in arg2, values from arg 3
    *cls = 0x10; *id = 2;
    int n = (int)op.a.size() - 3;
    le(b, r.next() & 0xFFFFFFFF, 4); le(b, (uint64_t)((op.arg(2) & 0x7FF) | n << 11), 2); le(b, r.below(65536), 2);
    for (int i = 0; i < n; i++) le(b, (uint64_t)op.arg((size_t)i + 3), 4);
    if (op.arg(2) & 8) le(b, (uint64_t)op.arg(0), 4);
  } else if (k == "oth") {
    *cls = (int)op.arg(0); *id = (int)op.arg(2);
    for (int64_t i = 0; i < op.arg(3); i++) le(b, r.below(256), 1);
  } else return false;
  return true;
}

void build(const Plan &plan, Built &B, Ctx *c) {
  B.l.c = c; B.l.sync = {0xB5, 0x62}; B.l.inert_max = 4090; B.l.inert = [](const Bytes &x) { return ubx_frame(0x77, 1, x); };
  int64_t tmin = INT64_MAX, tmax = INT64_MIN;
  for (auto &op : plan.ops) {
    const std::string &k = op.k;
    if (k == "opt") { B.hnr = op.arg(0) != 0; B.sender = (int)op.arg(1, -1); continue; }
    if (B.d.take(op) || B.l.take(op)) continue;
    if (k == "bighdr") { Bytes x = {0xB5, 0x62, 1, 7, (uint8_t)op.arg(0), (uint8_t)(op.arg(0) >> 8)}; B.l.take(Op("raw", {}, x)); continue; }
    if (k == "cut" || k == "ext") {  // payload of other length, checksum valid
      int i = B.l.lastframe();
      if (i < 0) continue;
      Bytes &f = B.l.P[(size_t)i].b;
      if (k == "ext" && f[2] == 2 && f[3] == 0x13) continue;
      Bytes p(f.begin() + 6, f.end() - 2);
      if (k == "cut") p.resize(p.size() * (size_t)op.arg(0) / 1000);
      else { Rng r((uint64_t)op.arg(1)); for (int64_t j = 0; j < op.arg(0); j++) p.push_back((uint8_t)r.below(256)); }
      if (p.size() > 4090) continue;
      f = ubx_frame(f[2], f[3], p); B.l.sent.insert(f);
      if (c) c->fault(k == "cut" ? "short payload" : "long payload");
      continue;
    }
    int cls, id; Bytes pay;
    if (k == "sf") {
      // gnss, sat, issue, abs, frame, part, flavour
      int g = (int)op.arg(0), sat = (int)op.arg(1), part = (int)op.arg(5), fl = (int)op.arg(6);
      Issue I = make_issue(g, sat, op.arg(2), op.arg(3), op.arg(4));
      std::vector<uint32_t> w = I.w[(size_t)part];
      int osat = sat; bool known = true;
      if (fl & 1) { osat = 255; known = false; }
      if (fl & 2) { w.push_back(0x12345678); known = g == 2; }
      if (fl & 4) { w.pop_back(); known = false; }
      if (fl & 8) {  // something else this satellite sends
        known = false;
        if (g == 0) w[1] = setf(w[1], 8, 3, 4 + (uint32_t)(op.arg(4) & 1));
        else if (g == 3) w[0] = setf(w[0], 12, 3, 4);
        else if (g == 2) w[0] = setf(w[0], 24, 6, 6 + (uint32_t)(op.arg(4) % 5));
        else w[0] = setf(w[0], 27, 4, 6 + (uint32_t)(op.arg(4) % 10));
      }
      if (fl & 16) {  // of another kind of signal or flagged
        known = false;
        if (g == 0) w[0] = setf(w[0], 22, 8, 0x8c); else if (g == 2) w[0] |= 1u << 30; else if (g == 6) w[0] |= 1u << 31; else osat = 3;
      }
      pay = pay_sfrbx(g, osat, g == 6 ? freq_of(sat) : 0, w);
      if (known) B.reg[pay] = {g, sat, part, op.arg(2), op.arg(3), op.arg(4)};
      cls = 2; id = 0x13;
      tmin = std::min(tmin, op.arg(3) * 1000); tmax = std::max(tmax, op.arg(3) * 1000);
    } else {
      if (!encode(op, &cls, &id, &pay)) continue;
      if (k == "rawx" || k == "pvt" || k == "hnr" || k == "eraw") { tmin = std::min(tmin, op.arg(0)); tmax = std::max(tmax, op.arg(0)); }
    }
    if (pay.size() > 4090) continue;
    B.l.push(ubx_frame(cls, id, pay));
  }
  B.s = B.l.finish();
  if (tmax > tmin && tmax - tmin < 100000000) B.span = (double)(tmax - tmin) / 1000.0;
}
std::vector<std::string> args(const Built &B) {
  std::vector<std::string> av = {"ubx2sbp"};
  if (B.hnr) av.push_back("--hnr");
  if (B.sender >= 0) { av.push_back("-s"); av.push_back(std::to_string(B.sender)); }
  return av;
}
Entry entry(const Built &B) {
  std::vector<std::string> av = args(B);
  return [av](IO &io) {
    std::vector<std::string> a = av;
    std::vector<char *> v;
    for (auto &s : a) { v.push_back(&s[0]); mark_init(&s[0], s.size() + 1); }
    v.push_back(nullptr);
    quiet_stderr();
    return ubx2sbp_main((int)a.size(), v.data(), "", urd, uwr, &io);
  };
}

void api_cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *m, void *x) {
  sbp_state_t s; sbp_state_init(&s); sbp_state_set_io_context(&s, x);
  sbp_message_send(&s, type, sender, m, uwr);
}
Entry api_entry(const Built &B) {
  bool hnr = B.hnr; int sender = B.sender;
  return [hnr, sender](IO &io) {
    quiet_stderr();
    struct ubx_sbp_state *st = (struct ubx_sbp_state *)io.state(0, sizeof *st);
    ubx_sbp_init(st, api_cb, &io);
    if (hnr) ubx_set_hnr_flag(st, true);
    if (sender >= 0) ubx_set_sender_id(st, (u16)sender);
    int r;
    do r = ubx_sbp_process(st, urd); while (r >= 0);
    return 0;
  };
}

// ---------- the reference model ----------
struct UObs { double P, L; float D; int cno, lock, trk, sat, code; };
struct Exp {
  int type = 0;
  bool optional = false;
  std::vector<Fld> f;
  bool fuzzy = false;                        // checked by fn
  std::function<std::string(const Bytes &)> fn;
};
int ubx_code(int g, int s) {
  switch (g * 8 + s) {
    case 0: return 0; case 3: return 7; case 4: return 1; case 8: return 2;
    case 16: return 15; case 17: return 14; case 21: return 20; case 22: return 21;
    case 24: case 25: return 12; case 26: case 27: return 13;
    case 40: return 31; case 44: return 35; case 45: return 36; case 48: return 3; case 50: return 4;
  }
  return 255;
}
int lock_of(double ms) { int v = 0; double lim = 32; while (v < 15 && ms >= lim) { v++; lim *= 2; } return v; }

struct Model {
  bool hnr;
  int pvt_flags = 0, pvt_fix = 0, pvt_sats = 0;
  int64_t last_tow = -1;
  std::vector<Fld> ori;  // last NAV-ATT without tow and yaw
  int32_t roll = 0, pitch = 0; double ar = 0, ap = 0; int oflags = 0;
  bool week_set = false; int obs_wn = -1; double obs_tow = 0;
  bool leap_known = false; int leap = 0;
  // sensor clocks
  bool imu_run = false; int64_t imu = 0; uint32_t imu_last = 0; bool imu_valid = false; double imu_time = 0; bool imu_dropped = false;
  bool odo_run = false; int64_t odo = 0; uint32_t odo_last = 0;
  int sent = 0; bool temp_set = false; int temp = 0;
  int64_t tick_in[5] = {-1, -1, -1, -1, -1}; int64_t tick_out[5] = {0};
  int n_gap = 0, n_wrap = 0, n_broken = 0, n_sets = 0, n_inval = 0, n_off = 0;

  void orient(std::vector<Exp> &o, uint32_t tow, int32_t yaw, double ay) {
    Exp e; e.type = T_ORI;
    e.f = {FU(4, tow), FS(4, roll), FS(4, pitch), FS(4, yaw), FF(ar), FF(ap), FF(ay), FU(1, (uint64_t)oflags)};
    o.push_back(e);
  }
  void frame(const UbxF &u, std::vector<Exp> &o) {
    const Bytes &p = u.p;
    int key = u.cls << 8 | u.id;
    switch (key) {
      case 0x0107: {
        if (p.size() < 92) return;
        int fix = p[20], fl = p[21], sats = p[23], flags = 0;
        if (fix == 1) flags = 5;
        else if (fix >= 2 && fix <= 4) {
          if (!(fl & 2)) flags = 1;
          else switch (fl & 0xC0) { case 0: flags = 2; break; case 0x40: flags = 3; break; case 0x80: flags = 4; break; default: flags = 0; }
        }
        if (fix == 1 || fix == 4) flags |= 8;
        pvt_fix = fix; pvt_sats = sats; pvt_flags = flags;
        last_tow = (int64_t)rd(p, 0, 4);
        Exp e; e.type = T_LLH;
        e.f = {FU(4, rd(p, 0, 4)), FD((double)rds(p, 28, 4) * 1e-7), FD((double)rds(p, 24, 4) * 1e-7), FD((double)rds(p, 32, 4) * 1e-3), FU(2, std::min<uint64_t>(65535, rd(p, 40, 4))), FU(2, std::min<uint64_t>(65535, rd(p, 44, 4))), FU(1, (uint64_t)sats), FU(1, (uint64_t)flags)};
        if (!hnr) o.push_back(e);
        return;
      }
      case 0x2800: {
        if (p.size() < 72) return;
        last_tow = (int64_t)rd(p, 0, 4);
        if (!hnr) return;
        Exp e; e.type = T_LLH;
        e.f = {FU(4, rd(p, 0, 4)), FD((double)rds(p, 24, 4) * 1e-7), FD((double)rds(p, 20, 4) * 1e-7), FD((double)rds(p, 28, 4) * 1e-3), FU(2, std::min<uint64_t>(65535, rd(p, 52, 4))), FU(2, std::min<uint64_t>(65535, rd(p, 56, 4))), FU(1, (uint64_t)pvt_sats), FU(1, (uint64_t)pvt_flags)};
        o.push_back(e);
        orient(o, (uint32_t)rd(p, 0, 4), (int32_t)(rds(p, 48, 4) * 10), (double)rd(p, 64, 4) * 1e-5);
        return;
      }
      case 0x0105: {
        if (p.size() < 32) return;
        roll = (int32_t)(rds(p, 8, 4) * 10); pitch = (int32_t)(rds(p, 12, 4) * 10);
        ar = (double)rd(p, 20, 4) * 1e-5; ap = (double)rd(p, 24, 4) * 1e-5;
        oflags = pvt_fix == 1 || pvt_fix == 4;
        if (!hnr) orient(o, (uint32_t)rd(p, 0, 4), (int32_t)(rds(p, 16, 4) * 10), (double)rd(p, 28, 4) * 1e-5);
        return;
      }
      case 0x0111: {
        if (p.size() < 20) return;
        Exp e; e.type = T_VEL;
        auto mm = [&](size_t q) { int64_t v = rds(p, q, 4) * 10; return v == (int32_t)v ? FS(4, v) : Fld{'x', 4, 0, 0}; };
        e.f = {FU(4, rd(p, 0, 4)), mm(4), mm(8), mm(12), {'x', 2, 0, 0}, FU(1, (uint64_t)pvt_sats), FU(1, pvt_fix > 0 ? 13 : 8)};
        o.push_back(e);
        return;
      }
      case 0x0135: {
        if (p.size() < 8) return;
        size_t n = std::min<size_t>(p[5], 100);
        if (p.size() < 8 + 12 * n) return;
        // messages with as many entries as fit; the order between the two
        // kinds is not fixed
        Exp az; az.type = T_AZEL; Exp ms; ms.type = T_MST;
        for (size_t i = 0; i < n; i++) {
          size_t q = 8 + 12 * i;
          uint64_t code = (uint64_t)ubx_code(p[q], 0), a = (uint64_t)lround((double)rds(p, q + 4, 2) / 2.0);
          for (Fld x : {FU(1, p[q + 1]), FU(1, code), FU(1, a), FU(1, p[q + 3])}) az.f.push_back(x);
          for (Fld x : {FU(1, p[q + 1]), FU(1, code), FU(1, (uint64_t)lround(p[q + 2] * 4.0))}) ms.f.push_back(x);
          if (az.f.size() == 63 * 4) { o.push_back(az); az.f.clear(); }
          if (ms.f.size() == 85 * 3) { o.push_back(ms); ms.f.clear(); }
        }
        if (!az.f.empty()) o.push_back(az);
        if (!ms.f.empty()) o.push_back(ms);
        return;
      }
      case 0x0A09: {
        if (p.size() + 4 > 253) return;
        Exp e; e.type = T_FWD;
        e.f = {FU(1, 0), FU(1, 1), FU(1, 0x0A), FU(1, 9), FU(2, p.size())};
        for (uint8_t x : p) e.f.push_back(FU(1, x));
        o.push_back(e);
        return;
      }
      case 0x0215: rawx(p, o); return;
      case 0x0213: {
        if (p.size() < 8 || p[4] > 16) return;
        if (p.size() < 8 + 4u * p[4]) return;
        if (p[0] == 1) sbas(p, o);
        return;
      }
      case 0x0103: status(p, o); return;
      case 0x1003: esf_raw(p, o); return;
      case 0x1002: esf_meas(p, o); return;
    }
  }
  void rawx(const Bytes &p, std::vector<Exp> &o) {
    if (p.size() < 16) return;
    size_t n = p[11];
    if (p.size() < 16 + 32 * n) return;
    double tow = rdd(p, 0); int wn = (int)rd(p, 8, 2);
    if (n && wn && week_set) { obs_tow = tow; obs_wn = wn; }
    if (p[12] & 1) { leap_known = true; leap = (int8_t)p[10]; } else leap_known = false;
    std::vector<UObs> v;
    for (size_t i = 0; i < n; i++) {
      size_t q = 16 + 32 * i;
      v.push_back({rdd(p, q), rdd(p, q + 8), rdf(p, q + 16), p[q + 26], (int)rd(p, q + 24, 2), p[q + 30], p[q + 21], ubx_code(p[q + 20], p[q + 22])});
    }
    int total = n ? (int)(n + 13) / 14 : 1;
    for (int m = 0; m < total; m++) {
      std::vector<UObs> s(v.begin() + m * 14, v.begin() + (long)std::min<size_t>(n, (size_t)m * 14 + 14));
      Exp e; e.type = M_OBS; e.fuzzy = true;
      e.fn = [=](const Bytes &g) -> std::string {
        if (g.size() != 11 + 17 * s.size()) return fmt("%zu bytes, expected packet %d of %d with %zu observations", g.size(), m, total, s.size());
        if (g[10] != (total << 4 | m)) return fmt("packet number %d of %d, expected %d of %d", g[10] & 15, g[10] >> 4, m, total);
        int64_t gt = (int64_t)rd(g, 0, 4), ns = rds(g, 4, 4); int gw = (int)rd(g, 8, 2);
        if (gt >= W || ns < -500000 || ns > 500000) return fmt("time of week %lld ms %lld ns", (long long)gt, (long long)ns);
        int64_t wk = 0;
        if (wn == 0) { if (gw != 65535) return "week number set but unknown"; if (gt < 1000 && tow > 604000) wk = 1; }
        else { wk = gw - wn; if (wk != 0 && wk != 1) return fmt("week %d, expected %d", gw, wn); }
        long double d = (long double)tow * 1e9L - ((long double)(wk * W + gt) * 1e6L + (long double)ns);
        if (fabsl(d) > 2.5L) return fmt("time off by %.1Lf ns", d);
        for (size_t i = 0; i < s.size(); i++) {
          size_t q = 11 + 17 * i; const UObs &u = s[i];
          std::string w = fmt("observation %zu (satellite %d code %d): ", i, u.sat, u.code);
          if (g[q + 15] != u.sat || g[q + 16] != u.code) return w + fmt("is of satellite %d code %d", g[q + 15], g[q + 16]);
          int fl = 8 | (u.trk & 7);
          double p50 = 50 * u.P;
          bool pok = p50 >= 0 && p50 <= 4294967295.0, lok = floor(u.L) >= -2147483648.0 && floor(u.L) < 2147483647.0, dok = floorf(u.D) >= -32768.0f && floorf(u.D) < 32767.0f;
          if (!pok) fl &= ~1;
          if (!lok) fl &= ~2;
          if (!dok) fl &= ~8;
          if (g[q + 14] != fl) return w + fmt("flags %d, expected %d", g[q + 14], fl);
          if (pok) { double P = (double)rd(g, q, 4) * 0.02; if (fabs(P - u.P) > 0.0201) return w + fmt("pseudorange %.3f, expected %.3f", P, u.P); }
          if (lok) { double L = (double)rds(g, q + 4, 4) + g[q + 8] / 256.0; if (fabs(L - u.L) > 0.00196) return w + fmt("phase %.4f, expected %.4f", L, u.L); }
          if (dok) { double D = (double)rds(g, q + 9, 2) + g[q + 11] / 256.0; if (fabs(D - u.D) > 0.00196) return w + fmt("Doppler %.4f, expected %.4f", D, u.D); }
          if (g[q + 12] != (u.cno > 63 ? 255 : 4 * u.cno)) return w + fmt("C/N0 %d, expected %d dB-Hz", g[q + 12], u.cno);
          if (g[q + 13] != lock_of(u.lock) && g[q + 13] != lock_of(u.lock - 1)) return w + fmt("lock %d for %d ms", g[q + 13], u.lock);
        }
        return "";
      };
      for (auto &u : s) if (!(50 * u.P >= 0) || !(fabs(u.L) < 2e9) || !(fabs(u.D) < 32767)) n_inval++;
      o.push_back(e);
    }
  }
  void sbas(const Bytes &p, std::vector<Exp> &o) {
    int sat = p[1], nw = p[4];
    if (sat < 120 || sat > 158 || (nw != 8 && nw != 9)) return;
    if (last_tow < 0 || last_tow > W) return;
    uint8_t e[32];
    for (int i = 0; i < 8; i++) for (int j = 0; j < 4; j++) e[4 * i + j] = p[(size_t)(8 + 4 * i + 3 - j)];
    if (e[0] != 0x53 && e[0] != 0x9A && e[0] != 0xC6) return;
    uint32_t crc = 0, got = 0;
    for (int i = 0; i < 226; i++) { uint32_t bit = (e[i / 8] >> (7 - i % 8)) & 1, top = ((crc >> 23) & 1) ^ bit; crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
    for (int i = 226; i < 250; i++) got = got << 1 | ((e[i / 8] >> (7 - i % 8)) & 1);
    if (crc != got) return;
    Exp x; x.type = T_SBASRAW;
    x.f = {FU(1, (uint64_t)sat), FU(1, 2), FU(4, (uint64_t)mod(last_tow - 1120, W)), FU(1, e[1] >> 2)};
    uint8_t d[27] = {0};
    for (int i = 0; i < 212; i++) setbe(d, i, 1, (e[(14 + i) / 8] >> (7 - (14 + i) % 8)) & 1);
    for (uint8_t y : d) x.f.push_back(FU(1, y));
    o.push_back(x);
  }
  void status(const Bytes &p, std::vector<Exp> &o) {
    if (p.size() < 16) return;
    int fix = p[4], fl = p[5];
    bool time_good = (fl & 8) && (fl & 4);
    if (time_good) week_set = true;
    uint32_t itow = (uint32_t)rd(p, 0, 4), ms = (uint32_t)rd(p, 12, 4);
    if (!((fix == 3 || fix == 4) && (fl & 1) && time_good)) return;
    if (obs_wn < 0 || !(obs_tow >= 0 && obs_tow < 604800)) return;
    if (!imu_valid) return;
    Exp e; e.type = T_OFF;
    // continuous with the sensor clock, or the answer is not judged
    int32_t dd = (int32_t)(ms - imu_last);
    int64_t local = imu + dd;
    if (itow >= W || !imu_run || dd < -2000 || dd > 2000 || local < 0 || imu_dropped) { e.optional = true; e.fuzzy = true; e.fn = [](const Bytes &) { return std::string(); }; o.push_back(e); last_tow = -2; return; }
    double d = (double)itow / 1000.0 - obs_tow;
    int gw = obs_wn; if (d > 302400) gw--; else if (d < -302400) gw++;
    int64_t diff = (int64_t)gw * W + itow - local;
    bool modw = n_gap > 0;  // sensor messages carry no week: after a restart only the time of week is tied
    last_tow = itow; n_off++;
    e.fuzzy = true;
    e.fn = [=](const Bytes &g) -> std::string {
      if (g.size() != 9) return "odd length";
      int64_t off = rds(g, 0, 2) * W + rds(g, 2, 4);
      if ((modw ? (off - diff) % W != 0 : off != diff) || rds(g, 6, 2) != 0) return fmt("offset %lld ms, expected %lld (time of week %u, sensor clock %lld ms)", (long long)off, (long long)diff, itow, (long long)local);
      return "";
    };
    o.push_back(e);
  }
  static int s24(uint32_t v) { v &= 0xFFFFFF; return v & 0x800000 ? (int)v - (1 << 24) : (int)v; }
  void esf_raw(const Bytes &p, std::vector<Exp> &o) {
    if (p.size() < 4) return;
    size_t n = (p.size() - 4) / 8;
    if (n > 128) return;
    uint32_t msss = (uint32_t)rd(p, 0, 4);
    std::map<int, int> set; uint32_t stag = 0; bool started = false;
    for (size_t i = 0; i < n; i++) {
      uint32_t d = (uint32_t)rd(p, 4 + 8 * i, 4), tag = (uint32_t)rd(p, 8 + 8 * i, 4);
      int type = (int)(d >> 24);
      if (type == 12) { temp = s24(d); temp_set = true; }
      if (!(type == 5 || type == 13 || type == 14 || type == 16 || type == 17 || type == 18)) continue;
      if (imu_run && (uint32_t)(msss - imu_last) > 1000) { imu_run = false; imu_dropped = true; n_gap++; return; }
      if (!imu_run) imu = msss; else { uint32_t dd = msss - imu_last; if (msss < imu_last) n_wrap++; imu += dd; }
      imu_run = true; imu_last = msss; imu_dropped = false;
      int64_t dt = (int64_t)tag - (int64_t)(uint32_t)rd(p, 8, 4);
      if (dt < 0) dt += 1 << 24;
      double t = (double)imu / 1000.0 + 39.0625e-6 * (double)dt - 0.05;
      if (t < 0) return;
      imu_valid = true; imu_time = t;
      if (!started) { started = true; stag = tag; set.clear(); }
      else if (tag != stag) { n_broken++; return; }
      if (set.count(type)) { n_broken++; return; }
      set[type] = s24(d);
      if (set.size() < 6) continue;
      started = false;
      n_sets++;
      if (sent % 20 == 0) {
        sent = 0;
        Exp a; a.type = T_AUX; a.fuzzy = true;
        bool ts = temp_set; double T = temp * 0.01;
        a.fn = [=](const Bytes &g) -> std::string {
          if (g.size() != 4 || g[0] != 0 || g[3] != 0x41) return "IMU type or ranges";
          int64_t v = rds(g, 1, 2);
          if (!ts) return v == -32768 ? "" : "temperature not known yet";
          double x = (T - 23) * 512;
          if (x > 32767) x = 32767;
          if (x < -32767) x = -32767;
          if (fabs((double)v - x) > 1.01) return fmt("temperature %lld, expected %.1f", (long long)v, x);
          return "";
        };
        o.push_back(a);
      }
      sent++;
      Exp e; e.type = T_IMU; e.fuzzy = true;
      std::map<int, int> v = set;
      double ms = t * 1000.0;
      e.fn = [=](const Bytes &g) -> std::string {
        if (g.size() != 17) return "odd length";
        uint32_t tw = (uint32_t)rd(g, 0, 4);
        if (tw >> 30 != 1) return "time is not marked as of the sensor clock";
        double x = (double)(tw & 0x3FFFFFFF) + g[4] / 256.0, w = fmod(ms, (double)W), df = x - w;
        if (df > W / 2.0) df -= (double)W;
        if (df < -W / 2.0) df += (double)W;
        if ((tw & 0x3FFFFFFF) >= W || fabs(df) > 0.006) return fmt("time %.4f ms, expected %.4f", x, w);
        static const int ty[6] = {16, 17, 18, 14, 13, 5};
        for (int k = 0; k < 6; k++) {
          double ex = k < 3 ? v.at(ty[k]) / 1024.0 / (4.0 * 9.80665 / 32768.0) : v.at(ty[k]) / 4096.0 / (125.0 / 32768.0);
          ex = std::min(32767.0, std::max(-32768.0, ex));
          int64_t gv = rds(g, (size_t)(5 + 2 * k), 2);
          if (fabs((double)gv - ex) > 0.51 + fabs(ex) * 1e-6) return fmt("%s %c %lld, expected %.2f", k < 3 ? "acceleration" : "rate", "xyz"[k % 3], (long long)gv, ex);
        }
        return "";
      };
      o.push_back(e);
    }
  }
  void esf_meas(const Bytes &p, std::vector<Exp> &o) {
    if (p.size() < 8) return;
    int fl = (int)rd(p, 4, 2), n = fl >> 11 & 31;
    if (p.size() < 8 + 4 * (size_t)n + ((fl & 8) ? 4 : 0)) return;
    if (!(fl & 8)) return;
    uint32_t tag = (uint32_t)rd(p, 8 + 4 * (size_t)n, 4);
    for (int i = 0; i < n; i++) {
      uint32_t d = (uint32_t)rd(p, 8 + 4 * (size_t)i, 4);
      int type = (int)(d >> 24 & 0x3F);
      if (type < 6 || type > 11) continue;
      if (odo_run && (uint32_t)(tag - odo_last) > 1000) { odo_run = false; n_gap++; return; }
      if (!odo_run) odo = tag; else { if (tag < odo_last) n_wrap++; odo += (uint32_t)(tag - odo_last); }
      odo_run = true; odo_last = tag;
      int64_t t = odo % W;
      Exp e; e.fuzzy = true;
      if (type == 11) {
        e.type = T_ODO;
        e.fn = [=](const Bytes &g) -> std::string {
          if (g.size() != 9) return "odd length";
          int64_t df = (int64_t)rd(g, 0, 4) - t;
          if (df < -1 || df > 0) return fmt("time %llu, expected %lld", (unsigned long long)rd(g, 0, 4), (long long)t);
          if (rds(g, 4, 4) != s24(d)) return fmt("velocity %lld, expected %d", (long long)rds(g, 4, 4), s24(d));
          if (g[8] != (2 | 3 << 3 | (int)(d >> 23 & 1) << 5)) return fmt("flags %d", g[8]);
          return "";
        };
      } else {
        e.type = T_TICK;
        int w = type - 6;
        uint32_t cnt = d & 0x3FFFFF;
        if (tick_in[w] < 0) tick_out[w] = cnt;
        else { int64_t inc = (cnt - (uint32_t)tick_in[w]) & 0x3FFFFF; tick_out[w] += (d >> 23 & 1) ? -inc : inc; }
        tick_in[w] = cnt;
        int32_t out = (int32_t)tick_out[w];
        static const int src[5] = {2, 3, 1, 0, 0};
        e.fn = [=](const Bytes &g) -> std::string {
          if (g.size() != 14) return "odd length";
          int64_t df = (int64_t)rd(g, 0, 8) - t * 1000;
          if (df < -2 || df > 1) return fmt("time %llu us, expected %lld", (unsigned long long)rd(g, 0, 8), (long long)t * 1000);
          if (g[8] != 2 || g[9] != src[w]) return fmt("flags %d source %d, expected source %d", g[8], g[9], src[w]);
          if (rds(g, 10, 4) != out) return fmt("wheel %d ticks %lld, expected %d", w, (long long)rds(g, 10, 4), out);
          return "";
        };
      }
      o.push_back(e);
    }
  }
};

bool is_c10(int t) { return t == M_OBS || t == T_LLH || t == T_VEL || t == T_ORI || t == T_AZEL || t == T_MST || t == T_FWD || t == T_SBASRAW; }
bool is_c12(int t) { return t == T_IMU || t == T_AUX || t == T_ODO || t == T_TICK || t == T_OFF; }
bool is_eph(int t) { return t == M_EGPS || t == M_EBDS || t == M_EGAL || t == M_EGLO; }

struct UbxHarness : Harness {
  const char *name() override { return "ubx"; }
  std::vector<std::string> properties() override { return {"C09", "C10", "C11", "C12"}; }
  std::vector<std::string> assumptions() override {
    return {"SBP encoding (libsbp) and the broadcast ephemeris decoders of libswiftnav are stand-ins written from their interface documents",
            "one read call returns at most what the simulator decides"};
  }
  std::string rule(const std::string &f) override {
    return "a seeded simulated receiver sends observations, solutions, attitude, navigation subframes of several satellites over issue changes, inertial and wheel data with wrapping and restarting sensor clocks; focus " + f +
           " weights the mix; frames are lost, duplicated, delayed, corrupted, truncated, spliced, surrounded by garbage, delivered in arbitrary reads; a history counts as distinct by the hash of its sequence of message kinds, faults and delivery";
  }
  std::vector<std::string> real_components() override { return {"ubx2sbp", "gnss_converters ubx_sbp, ubx_ephemeris, ephemeris/sbas", "libubx"}; }
  std::vector<std::string> stub_components() override { return {"libsbp (stand-in)", "libswiftnav (stand-in)", "input stream and output sink (simulated)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override {
    if (o.k == "rawx") return i == 4;
    if (o.k == "eraw") return i == 3;
    if (o.k == "nsat") return i == 2;
    if (o.k == "garb") return i == 0;
    if (o.k == "hw") return i == 0;
    return false;
  }
  Plan gen(uint64_t seed, const std::string &F) override {
    Rng r(seed);
    Plan p; p.focus = F; p.seed = seed;
    p.ops.push_back(Op("opt", {r.chance(0.3), r.chance(0.2) ? (int64_t)r.below(65536) : -1}));
    FaultGen g(r, p, F == "C09" || r.chance(0.3));
    g.chunk();
    if (F == "C09" && r.chance(0.5)) p.ops.push_back(Op("rerr", {(int64_t)r.below(1000)}));
    auto sd = [&]() { return g.sd(); };
    int64_t wn = r.range(1931, 2300), tow = r.chance(0.3) ? W - r.range(0, 60) * 1000 : r.chance(0.15) ? r.range(0, 3) * 500 : r.range(0, 604799) * 1000;
    int64_t step = r.pick(std::vector<int64_t>{100, 200, 250, 1000, 1000});
    int epochs = (int)r.range(3, F == "C10" ? 16 : 10);
    double p10 = F == "C10" ? 0.8 : F == "C09" ? 0.5 : 0.1, p12 = F == "C12" ? 1.0 : F == "C09" ? 0.3 : 0.05, p11 = F == "C11" ? 1.0 : F == "C09" ? 0.25 : 0.03;
    // sensor clock
    uint32_t ms;
    switch (r.below(6)) {
      case 0: ms = (uint32_t)-(int)r.range(0, 3000); break;
      case 1: ms = (uint32_t)((r.below(7) + 1) * (uint64_t)W - (uint64_t)r.range(-200, 3000)); break;
      case 2: ms = (uint32_t)r.below(200); break;
      default: ms = (uint32_t)r.next();
    }
    uint32_t oclk = r.chance(0.5) ? ms : (r.chance(0.5) ? (uint32_t)-(int)r.range(0, 3000) : (uint32_t)((r.below(7) + 1) * (uint64_t)W - (uint64_t)r.range(-200, 3000)));
    uint32_t tag = r.chance(0.3) ? (1u << 24) - (uint32_t)r.below(20000) : (uint32_t)r.below(1 << 24);
    int eflav = r.chance(0.3) ? 1 : 0; if (r.chance(0.15)) eflav |= 8;
    uint32_t ticks[5]; for (auto &t : ticks) t = r.chance(0.4) ? (1u << 22) - (uint32_t)r.below(300) : (uint32_t)r.below(1 << 22);
    int64_t clk = 0;
    auto cutmaybe = [&]() {
      if (r.chance(0.02)) p.ops.push_back(Op("cut", {(int64_t)r.below(1000)}));
      else if (r.chance(0.02)) p.ops.push_back(Op("ext", {1 + (int64_t)r.below(40), sd()}));
    };
    auto push = [&](Op o) { g.push(o); if (g.on) cutmaybe(); if (g.dirty_ok && g.on && r.chance(0.02)) p.ops.push_back(Op("bighdr", {r.chance(0.6) ? r.range(4085, 65535) : (int64_t)r.below(60)})); };
    // satellites
    struct SV { int gnss, sat; int64_t iss, abs, frame; int next; int chg; };
    std::vector<SV> sv;
    int nsv = F == "C11" ? 1 + (int)r.below(5) : 1;
    static const int gs[] = {0, 0, 2, 2, 3, 6};
    for (int i = 0; i < nsv; i++) {
      SV s; s.gnss = gs[r.below(6)]; s.sat = s.gnss == 0 ? 1 + (int)r.below(32) : s.gnss == 2 ? 1 + (int)r.below(36) : s.gnss == 3 ? 6 + (int)r.below(53) : 1 + (int)r.below(28);
      bool dupl = false; for (auto &x : sv) dupl |= x.gnss == s.gnss && x.sat == s.sat;
      if (dupl) continue;
      s.iss = (int64_t)r.below(200); s.abs = (wn * W + tow) / 1000 / 30 * 30; s.frame = 0; s.next = (int)r.below((uint64_t)nparts(s.gnss)); s.chg = (int)r.below(4);
      if (s.gnss == 3) s.abs += 14;
      sv.push_back(s);
    }
    bool paired = r.chance(0.3);  // another constellation's satellite with the same number
    if (paired && !sv.empty() && F == "C11") { SV s = sv[0]; s.gnss = s.gnss == 0 ? 2 : 0; s.sat = std::min(s.sat, 28); s.abs = (wn * W + tow) / 1000 / 30 * 30; s.next = 0; bool d = false; for (auto &x : sv) d |= x.gnss == s.gnss && x.sat == s.sat; if (!d) sv.push_back(s); }
    // the reference time is part of an issue
    auto blk = [](int gnss, int64_t t) { return gnss == 2 ? t / 600 : gnss == 0 ? t / 7200 : gnss == 3 ? (t - 14) / 3600 : 0; };
    auto do_sv = [&](SV &s) {
      static const int galord[2][5] = {{1, 3, 0, 2, 4}, {0, 1, 2, 3, 4}};
      int part = s.gnss == 2 ? galord[s.sat & 1][s.next] : s.next;
      int64_t fl = 0;
      if (g.on && r.chance(0.04)) fl = 1 << r.below(5);
      push(Op("sf", {s.gnss, s.sat, s.iss, s.abs, s.frame, part, fl}));
      if (++s.next == nparts(s.gnss)) {
        s.next = 0; s.frame++; s.abs += 30;
        if (s.gnss == 6) { if (s.frame % 5 == 0) s.iss++; }
        else if (r.chance(0.3) || blk(s.gnss, s.abs) != blk(s.gnss, s.abs - 30)) s.iss += s.gnss == 2 && r.chance(0.3) ? 64 * r.range(1, 15) : 1;
      }
    };
    if (r.chance(0.8)) push(Op("status", {tow, sd(), 3, 0x0F, (int64_t)(uint32_t)ms}));
    if (r.chance(0.8)) push(Op("rawx", {tow, wn, 18, 1, 1 + (int64_t)r.below(5), sd(), 0}));
    for (int e = 0; e < epochs; e++) {
      int64_t t = tow, w = wn;
      if (r.chance(p10)) {
        int n = r.chance(0.05) ? 127 : r.chance(0.15) ? 14 * (int)r.below(5) + (int)r.below(3) : (int)r.below(30);
        int fl = r.chance(0.3) ? 1 : 0; if (r.chance(0.05)) fl |= 2; if (r.chance(0.03)) fl |= 4; if (r.chance(0.3)) fl |= 8;
        int64_t tt = t; if (r.chance(0.03)) { tt = W - 1; fl |= 2; }
        push(Op("rawx", {tt, r.chance(0.05) ? 0 : w, 18, r.chance(0.9), n, sd(), fl}));
      }
      auto fixf = [&]() { return (int64_t)(r.below(8) << 5 | r.below(32)); };
      if (r.chance(p10 * 0.8)) push(Op("pvt", {t, sd(), (int64_t)r.below(7), fixf()}));
      if (r.chance(p10 * 0.5)) push(Op("att", {t, sd()}));
      if (r.chance(p10 * 0.5)) push(Op("vel", {t, sd()}));
      if (r.chance(p10 * 0.5)) { int k = 1 + (int)r.below(3); for (int i = 0; i < k; i++) push(Op("hnr", {t + i * 50, sd()})); }
      if (r.chance(p10 * 0.3)) push(Op("nsat", {t, sd(), r.chance(0.2) ? 60 + (int64_t)r.below(50) : r.chance(0.1) ? (int64_t)r.below(256) : (int64_t)r.below(40)}));
      if (r.chance(p10 * 0.2)) push(Op("hw", {r.chance(0.3) ? 245 + (int64_t)r.below(10) : (int64_t)r.below(80), sd()}));
      if (r.chance(p10 * 0.3)) push(Op("sbas", {0, sd(), 115 + (int64_t)r.below(48), r.chance(0.7) ? (r.chance(0.3) ? 4 : 0) : (int64_t)r.below(16)}));
      if (r.chance(0.05)) push(Op("oth", {(int64_t)r.below(256), sd(), (int64_t)r.below(256), (int64_t)r.below(60)}));
      if (r.chance(p11)) {
        int k = F == "C11" ? 2 + (int)r.below(8) : 3;
        while (k--) {
          SV &s = sv[r.below(sv.size())];
          if (r.chance(0.5)) { int m = nparts(s.gnss); while (m--) do_sv(s); } else do_sv(s);
          if (r.chance(0.05)) { SV &q = sv[r.below(sv.size())]; if (q.gnss != 6) { q.iss++; if (q.gnss == 3) { q.next = 0; q.abs += 30; } } }
          if (F == "C11" && r.chance(0.04)) push(Op("rawx", {t, w, 18 + (int64_t)r.below(2), r.chance(0.8), (int64_t)r.below(2), sd(), 0}));
        }
      }
      if (r.chance(p12)) {
        int k = F == "C12" ? 1 + (int)r.below(4) : 1;
        for (int i = 0; i < k; i++) {
          int sets = (int)r.range(1, 10);
          int fl = eflav; if (g.on && r.chance(0.05)) fl |= 2; if (r.chance(0.1)) fl |= 4;
          if (r.chance(0.6)) push(Op("eraw", {(int64_t)ms, sd(), (int64_t)(tag & 0xFFFFFF), sets, fl}));
          if (r.chance(0.4)) {
            Op o("meas", {(int64_t)oclk, sd(), r.chance(0.93) ? 8 : 0});
            int n = 1 + (int)r.below(5);
            for (int q = 0; q < n; q++) {
              int ty = 6 + (int)r.below(6);
              if (r.chance(0.1)) ty = (int)r.below(20);
              uint32_t v;
              if (ty >= 6 && ty <= 10) { bool rev = r.chance(0.2); uint32_t inc = (uint32_t)r.below(100); ticks[ty - 6] = (ticks[ty - 6] + inc) & 0x3FFFFF; v = ticks[ty - 6] | (rev ? 1u << 23 : 0) | (r.chance(0.1) ? 1u << 22 : 0); }
              else v = (uint32_t)r.next() & 0xFFFFFF;
              o.a.push_back((int64_t)(v | (uint32_t)ty << 24 | (r.chance(0.05) ? 3u << 30 : 0)));
            }
            push(o);
          }
          if (r.chance(0.25)) push(Op("status", {t, sd(), r.chance(0.8) ? 3 + (int64_t)r.below(2) : (int64_t)r.below(6), r.chance(0.85) ? 0x0F : (int64_t)r.below(256), (int64_t)(uint32_t)(ms + (uint32_t)r.below(90))}));
          int64_t adv = 90 + (int64_t)r.below(20);
          if (r.chance(0.04)) adv += r.range(500, 3000);            // gap
          if (r.chance(0.02)) { ms = (uint32_t)r.below(5000); oclk = ms; }  // sensor restart
          if (r.chance(0.02)) adv = r.pick(std::vector<int64_t>{999, 1000, 1001});
          ms += (uint32_t)adv; oclk += (uint32_t)adv; tag += (uint32_t)(adv * 25.6);
        }
      }
      int64_t st = step; if (r.chance(0.05)) st *= 1 + (int64_t)r.below(20);
      tow += st; clk += st;
      if (F != "C12") { ms += (uint32_t)st; oclk += (uint32_t)st; }
      while (tow >= W) { tow -= W; wn++; }
    }
    return p;
  }

  // C11: judge each ephemeris by what its satellite sent
  struct SatHist {
    std::map<int64_t, std::vector<int>> cnt;               // issue -> receipts per part
    std::map<std::pair<int64_t, int>, std::vector<Tag>> got;  // all receipts
    std::map<int64_t, int> emitted;
    std::vector<std::pair<Tag, bool>> win; std::vector<int> wine; std::vector<int64_t> wini;
    bool have5 = false; Tag last5;
  };
  void c11(Ctx &c, const Built &B, const std::vector<UbxF> &fr, const std::vector<std::vector<Sbp>> &out) {
    std::map<std::pair<int, int>, SatHist> H;
    Model m; m.hnr = B.hnr;
    std::vector<Exp> dummy;
    for (size_t i = 0; i < fr.size(); i++) {
      dummy.clear(); m.frame(fr[i], dummy);
      const UbxF &u = fr[i];
      auto it = u.cls == 2 && u.id == 0x13 ? B.reg.find(u.p) : B.reg.end();
      // damage which left a valid checksum is data this registry cannot know
      if (B.l.dirty && u.cls == 2 && u.id == 0x13 && it == B.reg.end() && !B.l.sent.count(ubx_frame(2, 0x13, u.p))) return;
      SatHist *h = nullptr; Tag t{};
      if (it != B.reg.end()) {
        t = it->second; h = &H[{t.gnss, t.sat}];
        auto &cv = h->cnt[t.iss]; cv.resize((size_t)nparts(t.gnss)); cv[(size_t)t.part]++;
        if (t.gnss == 2 && t.part == 4) { h->have5 = true; h->last5 = t; }
        h->got[{t.iss, t.part}].push_back(t);
        h->win.push_back({t, m.leap_known}); h->wine.push_back(0); h->wini.push_back(-1);
      }
      int n = 0;
      for (auto &s : out[i]) {
        if (!is_eph(s.type)) continue;
        c.evals(1);
        if (!h) { c.violate("C11", "ephemeris without a navigation message", show(s) + " after " + hex(u.p, 40)); return; }
        if (++n > 1) { c.violate("C11", "two ephemerides from one message", show(s)); return; }
        int want = t.gnss == 0 ? M_EGPS : t.gnss == 2 ? M_EGAL : t.gnss == 3 ? M_EBDS : M_EGLO;
        if (s.type != want || s.p.empty() || s.p[0] != t.sat) { c.violate("C11", "ephemeris of another satellite", show(s) + fmt(" after part %d of constellation %d satellite %d", t.part + 1, t.gnss, t.sat)); return; }
        int64_t match = -1; std::string why = "no issue of this satellite has been received completely";
        for (auto &ci : h->cnt) {
          bool all = true;
          for (int q = 0; q < nparts(t.gnss); q++) all &= (t.gnss == 2 && q == 4) ? h->have5 : (ci.second.size() > (size_t)q && ci.second[(size_t)q] > 0);
          if (!all) continue;
          // any complete set of receipts of this issue
          std::vector<Tag> first = t.gnss == 2 ? h->got[{ci.first, 0}] : h->got[{ci.first, 0}];
          for (auto &v : first) {
            ephemeris_t e; memset(&e, 0, sizeof e);
            Issue I = make_issue(t.gnss, t.sat, ci.first, v.abs, v.frame);
            if (t.gnss == 0) {
              uint32_t w[3][8]; for (int a = 0; a < 3; a++) for (int b = 0; b < 8; b++) w[a][b] = I.w[(size_t)a][(size_t)b + 2];
              e.sid.sat = (uint16_t)t.sat; e.sid.code = CODE_GPS_L1CA;
              int64_t tot = v.abs % 604800;
              decode_ephemeris(w, &e, (double)tot);
            } else if (t.gnss == 3) {
              uint32_t w[3][10]; for (int a = 0; a < 3; a++) for (int b = 0; b < 10; b++) w[a][b] = I.w[(size_t)a][(size_t)b];
              gnss_signal_t sid; sid.sat = (uint16_t)t.sat; sid.code = CODE_BDS2_B1;
              decode_bds_d1_ephemeris(w, sid, &e);
              e.toe.tow += 14; e.data.kepler.toc.tow += 14; normalize_gps_time(&e.toe); normalize_gps_time(&e.data.kepler.toc);
              e.fit_interval = 3 * 3600; e.valid = 1;
            } else if (t.gnss == 2) {
              Issue L = make_issue(2, t.sat, h->last5.iss, h->last5.abs, h->last5.frame);
              memcpy(I.gpage[4], L.gpage[4], 16);
              decode_gal_ephemeris_safe((const uint8_t(*)[16])I.gpage, &e);
              e.sid.sat = (uint16_t)t.sat; e.sid.code = CODE_GAL_E1B;
            } else {
              utc_params_t utc; memset(&utc, 0, sizeof utc); utc.dt_ls = m.leap; utc.dt_lsf = m.leap;
              gnss_signal_t sid; sid.sat = (uint16_t)t.sat; sid.code = CODE_GLO_L1OF;
              decode_glo_ephemeris(I.gs, sid, &utc, &e);
              e.data.glo.fcn = (uint16_t)(freq_of(t.sat) + 1);
            }
            if (fields_eq(eph_fields(e, t.gnss), s.p, &why)) { match = ci.first; break; }
          }
          if (match >= 0) break;
        }
        if (match < 0) { c.violate("C11", "an ephemeris is not that of one issue", fmt("constellation %d satellite %d: ", t.gnss, t.sat) + show(s).substr(0, 160) + ": " + why); return; }
        int lim = INT32_MAX;
        for (int q = 0; q < nparts(t.gnss); q++) if (!(t.gnss == 2 && q == 4)) lim = std::min(lim, h->cnt[match][(size_t)q]);
        if (++h->emitted[match] > lim) { c.violate("C11", "an issue is emitted more often than it was received", fmt("constellation %d satellite %d issue %lld emitted %d times, received %d times", t.gnss, t.sat, (long long)match, h->emitted[match], lim)); return; }
        if (t.gnss == 6 && !m.leap_known) { c.violate("C11", "GLONASS ephemeris while the leap seconds are unknown", show(s)); return; }
        h->wine.back()++; h->wini.back() = match;
        c.probe(t.gnss == 0 ? "GPS ephemeris" : t.gnss == 2 ? "Galileo ephemeris" : t.gnss == 3 ? "BeiDou ephemeris" : "GLONASS ephemeris");
      }
    }
    // complete, uninterrupted receptions
    for (auto &hh : H) {
      auto &h = hh.second; int g = hh.first.first, n = nparts(g);
      for (size_t i = 0; i + (size_t)n <= h.win.size(); i++) {
        bool ok = true; int em = 0; unsigned seen = 0; bool right = true;
        const Tag &a = h.win[i].first;
        for (int q = 0; q < n && ok; q++) {
          const Tag &b = h.win[i + (size_t)q].first;
          ok &= b.iss == a.iss && b.abs == a.abs;
          if (g == 2) { ok &= q < 4 || b.part == 4; ok &= !(seen >> b.part & 1); seen |= 1u << b.part; } else ok &= b.part == q;
          if (g == 6) ok &= h.win[i + (size_t)q].second;
          em += h.wine[i + (size_t)q];
          if (h.wini[i + (size_t)q] >= 0 && h.wini[i + (size_t)q] != a.iss) right = false;
        }
        if (!ok) continue;
        c.evals(1); c.probe("uninterrupted reception");
        if (em != 1 || !right) { c.violate("C11", em < 1 ? "a completely received ephemeris is not emitted" : "a completely received ephemeris is emitted repeatedly", fmt("constellation %d satellite %d issue %lld: all %d parts in order gave %d ephemerides%s", g, hh.first.second, (long long)a.iss, n, em, right ? "" : " of another issue")); return; }
      }
    }
  }

  bool job(const Plan &p, Ctx *c, Job &j) override {
    Built B; build(p, B, c);
    j.tool = "ubx2sbp"; j.framing = FR_UBX; j.out = OUT_SBP; j.in = B.s; j.mode = B.d.mode; j.rmax = B.d.rmax; j.rseed = B.d.seed; j.span = B.span;
    j.main = entry(B); j.api = api_entry(B); j.argv = args(B);
    return true;
  }
  void run(Ctx &c) override {
    Built B;
    build(c.plan, B, &c);
    const std::string &F = c.plan.focus;
    c.simtime(B.span);
    if (B.l.nframes) c.shape(ops_shape(c.plan) ^ ((uint64_t)B.d.mode << 3) ^ B.d.rmax);
    auto fr = ubx_deframe(B.s);
    std::vector<Span> sp;
    for (auto &f : fr) sp.push_back({f.at, f.end, f.cls == 0x77});
    Entry en = entry(B);
    if (F == "C09") {
      Bytes out;
      if (!check_delivery(c, "C09", B.s, sp, B.l.dirty, B.d, en, &out)) return;
      if (B.l.dirty || B.l.nested) check_containment(c, "C09", B.s, sp, B.d, en);
      return;
    }
    IOPlan q = B.d.io(B.s, RM_LIST);
    for (auto &f : fr) q.cuts.push_back(f.end);
    ToolRun a = run_tool(c, q, en);
    tool_crashes(c, a, "run");
    c.log(a.out);
    // what each frame produced: output between the read that completed it and the next
    std::vector<std::vector<Sbp>> per(fr.size());
    std::map<size_t, size_t> cum;
    for (auto &r : a.reads) if (r.delivered < B.s.size() || !cum.count(r.delivered)) cum[r.delivered] = r.out;
    cum[B.s.size()] = a.out.size();
    std::vector<Sbp> all; size_t bad;
    if (!parse_sbp(a.out, all, &bad) && !a.bad()) { c.violate("C10", "output is not a sequence of SBP messages", fmt("at byte %zu", bad)); return; }
    size_t fi = 0;
    for (auto &m : all) {
      while (fi < fr.size() && !(cum.count(fr[fi].end) && cum[fr[fi].end] >= m.end)) fi++;
      if (fi >= fr.size()) { if (!a.bad()) c.violate("C10", "output that no frame explains", show(m)); return; }
      per[fi].push_back(m);
      if (m.sender != (B.sender >= 0 ? B.sender : 61568)) { c.violate("C10", "sender", show(m)); return; }
    }
    c.probe("frames", fr.size());
    if (F == "C11") { if (!a.bad()) c11(c, B, fr, per); return; }
    Model m; m.hnr = B.hnr;
    const char *P = F.c_str();
    for (size_t i = 0; i < fr.size(); i++) {
      std::vector<Exp> ex;
      int64_t lt = m.last_tow;
      m.frame(fr[i], ex);
      if (a.bad() && !cum.count(fr[i].end)) return;
      if (m.last_tow == -2) {  // an offset that is not judged: did it set the time?
        bool sent = false; for (auto &s : per[i]) sent |= s.type == T_OFF;
        m.last_tow = sent ? (int64_t)rd(fr[i].p, 0, 4) : lt;
      }
      // compare in order per message type
      std::map<int, std::vector<const Exp *>> E; std::map<int, std::vector<const Sbp *>> G;
      for (auto &e : ex) E[e.type].push_back(&e);
      for (auto &s : per[i]) if (!is_eph(s.type)) G[s.type].push_back(&s);
      for (auto &s : per[i]) if (!is_c10(s.type) && !is_c12(s.type) && !is_eph(s.type)) { c.violate(P, fmt("unexpected message 0x%X", s.type), show(s)); return; }
      std::string what = fmt("frame %zu (class 0x%02X id 0x%02X, %zu bytes): ", i, fr[i].cls, fr[i].id, fr[i].p.size());
      std::set<int> ty; for (auto &x : E) ty.insert(x.first); for (auto &x : G) ty.insert(x.first);
      for (int t : ty) {
        if (F == "C10" ? !is_c10(t) : !is_c12(t)) continue;
        auto &x = E[t]; auto &y = G[t];
        for (size_t k = 0; k < std::max(x.size(), y.size()); k++) {
          c.evals(1);
          if (k >= y.size()) { if (x[k]->optional) continue; c.violate(P, fmt("message 0x%X missing", t), what + fmt("%zu messages 0x%X, expected %zu", y.size(), t, x.size())); return; }
          if (k >= x.size()) { c.violate(P, fmt("extra message 0x%X", t), what + "extra " + show(*y[k])); return; }
          std::string d;
          if (x[k]->fuzzy) d = x[k]->fn(y[k]->p); else fields_eq(x[k]->f, y[k]->p, &d);
          if (!d.empty()) { c.violate(P, fmt("content of message 0x%X", t), what + show(*y[k]).substr(0, 200) + ": " + d); return; }
        }
      }
    }
    if (m.n_gap) c.probe("sensor gap or restart", (uint64_t)m.n_gap);
    if (m.n_wrap) c.probe("sensor clock wrapped", (uint64_t)m.n_wrap);
    if (m.n_broken) c.probe("incomplete IMU set", (uint64_t)m.n_broken);
    if (m.n_sets) c.probe("IMU sets", (uint64_t)m.n_sets);
    if (m.n_inval) c.probe("measurement out of range", (uint64_t)m.n_inval);
    if (m.n_off) c.probe("clock offset judged", (uint64_t)m.n_off);
  }
};
}  // namespace
Harness *make_ubx() { return new UbxHarness; }
}  // namespace sim
