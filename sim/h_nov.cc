// NovAtel to SBP: delivery independence, containment of damage (C14) and the
// content and time of every message (C15).
#include <unistd.h>
#include <cmath>
#include <cstdio>
#include "harness.h"
#include "rtcm_model.h"
#include "stream.h"
#include "ubx_bits.h"
extern "C" {
int nov2sbp_main(int, char **, const char *, int (*)(uint8_t *, uint32_t, void *), int (*)(uint8_t *, uint32_t, void *), void *);
// stand-ins, so that a change of theirs is not a change of the converter
float get_geoid_offset(double lat, double lon);
uint8_t encode_lock_time(double s);
}

namespace sim {
namespace {
int nrd(uint8_t *b, uint32_t n, void *c) { return (int)((IO *)c)->read(b, n); }
int nwr(uint8_t *b, uint32_t n, void *c) { return (int)((IO *)c)->write(b, n); }

uint32_t crc32(const uint8_t *p, size_t n) {
  uint32_t c = 0;
  for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int j = 0; j < 8; j++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; }
  return c;
}
enum { GPSEPHEM = 7, BESTPOS = 42, BESTVEL = 99, RANGECMP = 140, INSATT = 263, GLOEPHEMERIS = 723, RAWIMUSX = 1462 };
Bytes frame(int id, int week, int32_t ms, const Bytes &pay, bool brief) {
  Bytes b;
  if (brief) {
    b = {0xAA, 0x44, 0x13, (uint8_t)pay.size()};
    le(b, (uint64_t)id, 2); le(b, (uint64_t)week, 2); le(b, (uint32_t)ms, 4);
  } else {
    b = {0xAA, 0x44, 0x12, 28};
    le(b, (uint64_t)id, 2); b.push_back(0); b.push_back(0x20); le(b, pay.size(), 2); le(b, 0, 2);
    b.push_back(60); b.push_back(180); le(b, (uint64_t)week, 2); le(b, (uint32_t)ms, 4); le(b, 0, 4); le(b, 0, 2); le(b, 0, 2);
  }
  b.insert(b.end(), pay.begin(), pay.end());
  le(b, crc32(b.data(), b.size()), 4);
  return b;
}
const size_t MAXTOTAL = 4096;  // the longest message the parser has room for
struct NF { size_t at, end; int id, week; uint32_t ms; Bytes p; };
std::vector<NF> deframe(const Bytes &s) {
  std::vector<NF> v;
  size_t i = 0;
  while (i + 3 <= s.size()) {
    if (s[i] == 0xAA && s[i + 1] == 0x44 && (s[i + 2] == 0x12 || s[i + 2] == 0x13)) {
      bool reg = s[i + 2] == 0x12;
      size_t h = reg ? 28 : 12;
      if (i + h + 4 <= s.size() && (!reg || s[i + 3] == 28)) {
        size_t n = reg ? (size_t)rd(s, i + 8, 2) : s[i + 3];
        if (h + n + 4 <= MAXTOTAL && i + h + n + 4 <= s.size() && crc32(&s[i], h + n) == rd(s, i + h + n, 4)) {
          NF f;
          f.at = i; f.end = i + h + n + 4; f.id = (int)rd(s, i + 4, 2);
          f.week = (int)rd(s, reg ? i + 14 : i + 6, 2); f.ms = (uint32_t)rd(s, reg ? i + 16 : i + 8, 4);
          f.p = Bytes(s.begin() + (long)(i + h), s.begin() + (long)(i + h + n));
          v.push_back(f);
          i = f.end;
          continue;
        }
      }
    }
    i++;
  }
  return v;
}

double odd(Rng &r) {
  switch (r.below(5)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return 1e300; case 3: return -1e12; default: return 0; }
}
const int IMUTYPES[] = {1, 4, 5, 8, 11, 12, 13, 16, 20, 26, 27, 28, 31, 32, 33, 41, 52, 56, 58, 61, 62, 0, 99};

struct Built { Link l; Delivery d; Bytes s; std::vector<std::pair<int, int64_t>> times; };
Bytes payload(const std::string &k, Rng &r, const Op &op, int &id, int week, int32_t ms) {
  Bytes p;
  auto sd = [&](double lim) { return r.chance(0.01) ? odd(r) : (r.unit() * 2 - 1) * lim; };
  if (k == "pos") {
    id = BESTPOS;
    static const int T[] = {0, 16, 17, 18, 34, 48, 49, 50, 52, 53, 54, 55, 56, 1, 2, 8, 19, 32, 69, 73};
    le(p, r.below(3), 4); le(p, (uint64_t)T[r.below(20)], 4);
    led(p, (r.unit() - 0.5) * 180); led(p, (r.unit() - 0.5) * 360); led(p, sd(3000));
    lef(p, (float)sd(80)); le(p, 61, 4);
    for (int i = 0; i < 3; i++) lef(p, (float)(r.chance(0.1) ? r.unit() * 1000 : r.chance(0.05) ? 65.535 + (r.unit() - 0.5) * 0.004 : r.chance(0.02) ? fabs(odd(r)) : r.unit() * 5));
    le(p, r.next(), 4); lef(p, 0); lef(p, 0);
    for (int i = 0; i < 8; i++) p.push_back((uint8_t)r.below(256));
  } else if (k == "vel") {
    id = BESTVEL;
    le(p, 0, 4); le(p, 16, 4); lef(p, 0); lef(p, 0);
    led(p, r.chance(0.02) ? 1e7 : r.unit() * 60); led(p, r.unit() * 360); led(p, r.chance(0.02) ? -5e6 : (r.unit() - 0.5) * 20); lef(p, 0);
  } else if (k == "att") {
    id = INSATT;
    le(p, (uint64_t)week, 4); led(p, ms / 1000.0);
    for (int i = 0; i < 3; i++) led(p, r.chance(0.02) ? 1e5 : (r.unit() - 0.5) * 360);
    le(p, r.chance(0.6) ? 3 : r.below(13), 4);
  } else if (k == "eph") {
    id = GPSEPHEM;
    le(p, r.chance(0.05) ? r.next() : 1 + r.below(32), 4); led(p, ms / 1000); le(p, r.below(64), 4); int iode = (int)r.below(256); le(p, (uint64_t)iode, 4); le(p, (uint64_t)iode, 4);
    le(p, r.chance(0.03) ? 0x10000 + r.below(100) : (uint64_t)week, 4); le(p, (uint64_t)week, 4);
    auto when = [&]() { return r.chance(0.03) ? (r.chance(0.5) ? -16.0 : r.chance(0.5) ? 1e10 : NAN) : (double)(r.below(37800) * 16); };
    led(p, when()); led(p, 2.65e7 + r.unit() * 1e4);
    for (int i = 0; i < 14; i++) led(p, sd(i < 4 ? 1 : 1e-3));
    le(p, (uint64_t)iode | r.below(4) << 8, 4); led(p, when());
    for (int i = 0; i < 4; i++) led(p, sd(1e-6));
    le(p, 1, 4); led(p, 1e-4); led(p, r.unit() * 50);
  } else if (k == "glo") {
    id = GLOEPHEMERIS;
    while (p.size() < 144) p.push_back((uint8_t)r.below(256));
  } else if (k == "imu") {
    id = RAWIMUSX;
    int type = op.arg(3) < 0 ? IMUTYPES[r.below(sizeof IMUTYPES / sizeof *IMUTYPES)] : (int)op.arg(3);
    p.push_back((uint8_t)(r.chance(0.03) ? 1 + r.below(3) : r.below(64) << 2)); p.push_back((uint8_t)type);
    le(p, (uint64_t)week, 2); led(p, ms / 1000.0); le(p, r.next(), 4);
    int sh = (int)r.below(26);
    for (int i = 0; i < 6; i++) le(p, (uint64_t)((int64_t)(int32_t)r.next() >> sh) & 0xFFFFFFFF, 4);
  } else if (k == "range") {
    id = RANGECMP;
    int n = (int)op.arg(3);
    if (n < 0) n = 0;
    if (n > 169) n = 169;
    le(p, (uint64_t)n, 4);
    for (int i = 0; i < n; i++) {
      int sys = (int)r.weighted({5, 4, 1, 1, 1, 1, 0, 1}), sig = r.chance(0.8) ? (sys == 0 ? (r.chance(0.5) ? 0 : 5) : (int)r.below(3)) : (int)r.below(32);
      uint32_t ts = (uint32_t)(sys << 16) | (uint32_t)(sig << 21) | (uint32_t)r.below(32) | (uint32_t)r.below(2) << 20;
      if (r.chance(0.9)) ts |= 0x1000;
      if (r.chance(0.9)) ts |= 0x400;
      if (r.chance(0.8)) ts |= 0x800;
      if (r.chance(0.5)) ts |= 0x10000000;
      uint64_t dop = (uint64_t)(r.chance(0.03) ? (int64_t)r.below(1 << 28) - (1 << 27) : r.range(-6000 * 256, 6000 * 256)) & 0xFFFFFFF;
      uint64_t psr = r.chance(0.03) ? r.next() & 0xFFFFFFFFFull : r.chance(0.02) ? r.below(3) : r.chance(0.02) ? 10995116276ull + r.below(5) : (uint64_t)((1.9e7 + r.unit() * 2e7) * 128);
      // 24-byte record: 32 status, 28 Doppler, 36 range, 32 ADR, 4+4 deviations, 8 PRN, 21 lock, 5 C/N0, 6 channel, 16
      le(p, ts, 4);
      uint64_t w = dop | psr << 28;
      le(p, w, 8);
      le(p, r.chance(0.05) ? 0x80000000u : (uint32_t)r.next(), 4);
      p.push_back((uint8_t)r.below(256));
      p.push_back((uint8_t)(r.chance(0.05) ? r.below(256) : sys == 1 ? 38 + r.below(24) : 1 + r.below(32)));
      uint64_t lk = r.chance(0.3) ? r.below(64) : r.below(1 << 21);
      le(p, lk | r.below(32) << 21 | r.below(64) << 26, 4);
      le(p, 0, 2);
    }
    if (r.chance(0.02)) p[0] = (uint8_t)(p[0] + 1 + r.below(5));  // wrong count
  } else if (k == "other") {
    static const int I[] = {41, 43, 101, 1465, 47, 1429, 0, 65535};
    id = I[r.below(8)];
    size_t n = op.arg(3) > 0 ? (size_t)op.arg(3) : 0;
    if (n > MAXTOTAL - 32) n = MAXTOTAL - 32;
    while (p.size() < n) p.push_back((uint8_t)r.below(256));
  }
  // what looks like the beginning of a message inside one
  if (k != "range" && p.size() > 24 && r.chance(0.05)) { size_t o = r.below(p.size() - 5); p[o] = 0xAA; p[o + 1] = 0x44; p[o + 2] = (uint8_t)(0x12 + r.below(2)); p[o + 3] = r.chance(0.5) ? 28 : (uint8_t)r.below(256); }
  return p;
}
void build(const Plan &pl, Built &B, Ctx *c) {
  B.l.c = c; B.l.sync = {0xAA, 0x44, 0x12, 0x13}; B.l.inert_max = MAXTOTAL - 32; B.l.inert = [](const Bytes &x) { return frame(0x7777, 2200, 1000, x, x.size() < 256 && x.size() % 2); };
  for (auto &op : pl.ops) {
    const std::string &k = op.k;
    if (B.d.take(op) || B.l.take(op)) continue;
    if (k == "hdr") {
      Rng r((uint64_t)op.arg(1));
      Bytes b = op.arg(2) ? Bytes{0xAA, 0x44, 0x13, (uint8_t)op.arg(0)} : Bytes{0xAA, 0x44, 0x12, (uint8_t)(r.chance(0.8) ? 28 : r.below(256)), 42, 0, 0, 0, (uint8_t)op.arg(0), (uint8_t)(op.arg(0) >> 8)};
      while (b.size() < (size_t)(op.arg(2) ? 12 : 28)) b.push_back((uint8_t)r.below(128));
      B.l.take(Op("raw", {}, b));
      if (c) c->fault("header claiming another length");
      continue;
    }
    Rng r((uint64_t)op.arg(2));
    int id = 0;
    int week = (int)op.arg(0); int32_t ms = (int32_t)op.arg(1);
    if (k == "len") {  // a message of another length than its kind has
      static const char *K[] = {"pos", "vel", "att", "eph", "glo", "imu", "range"};
      Bytes p = payload(K[(size_t)op.arg(3) % 7], r, Op("", {0, 0, 0, (int64_t)r.below(6)}), id, week, ms);
      if (r.chance(0.5)) p.resize(r.below(p.size())); else { size_t n = p.size() + 1 + r.below(60); while (p.size() < n) p.push_back((uint8_t)r.below(256)); }
      B.l.push(frame(id, week, ms, p, r.chance(0.5) && p.size() < 256), 1);
      if (c) c->fault("payload of another length");
      continue;
    }
    Bytes p = payload(k, r, op, id, week, ms);
    if (!id && k != "other") continue;
    if (r.chance(0.01)) ms = r.chance(0.5) ? -1 : 604800000 + (int32_t)r.below(2000);
    bool brief = p.size() < 256 && (k == "imu" || k == "att" ? r.chance(0.8) : r.chance(0.1));
    if (ms >= 0 && ms < 604800000) B.times.push_back({week, ms});
    B.l.push(frame(id, week, ms, p, brief));
  }
  B.s = B.l.finish();
}

struct Exp { int type; std::vector<Fld> f; size_t at; };
// What the received messages become.
struct Model {
  int gw = -1; uint32_t gt = 0;              // last time announced
  int pw = -1; uint32_t pt = 0; int pf = 0;  // last position
  int iw = 0; uint32_t it = 0;               // last IMU message
  int aw = 0; uint32_t at = 0;               // last auxiliary message
  std::vector<Exp> out;
  Ctx *c;
  void put(const NF &f, int type, std::vector<Fld> v) { out.push_back({type, std::move(v), f.at}); }
  void time(const NF &f) {
    if (gw != f.week || gt != f.ms) put(f, 0x102, {FU(2, (uint64_t)f.week), FU(4, f.ms), FS(4, 0), FU(1, 1)});
    gw = f.week; gt = f.ms;
  }
  static int mode(uint32_t t) {
    switch (t) {
      case 0: return 0;
      case 16: return 1; case 17: return 2; case 18: return 6; case 34: return 3;
      case 48: case 49: case 50: return 4;
      case 53: return 9; case 52: return 14; case 54: return 10; case 55: return 11; case 56: return 12;
      default: return 1;
    }
  }
  static Fld acc(double m) { return std::isnan(m) ? FX(2) : Fld{'u', 2, 0, m * 1000 >= 65535 ? 65535 : m <= 0 ? 0 : (int64_t)round((double)(float)(1000.0f * (float)m))}; }
  // nominal rate, gyro scale (rad/LSB, < 0: per rate) and accelerometer scale (m/s/LSB)
  static bool imu(int t, double *rate, double *g, double *a) {
    const double d = M_PI / 180, mg = 9.806 / 1000;
    switch (t) {
      case 11: case 5: case 27: case 20: case 28: *rate = 100; *g = ldexp(1, -33); *a = 0.3048 * ldexp(1, -27); return true;
      case 12: *rate = 100; *g = ldexp(1, -33); *a = 0.3048 * ldexp(1, -26); return true;
      case 58: *rate = 100; *g = ldexp(1, -33); *a = ldexp(1, -29); return true;
      case 33: *rate = 200; *g = 0.1 / (3600. * 256); *a = ldexp(0.05, -15); return true;
      case 13: *rate = 200; *g = ldexp(0.1, -8) / 3600 * d; *a = ldexp(0.05, -15); return true;
      case 8: *rate = 200; *g = ldexp(1, -19); *a = ldexp(1, -14); return true;
      case 26: *rate = 200; *g = 1e-9; *a = 2e-8; return true;
      case 31: *rate = 200; *g = ldexp(720, -31) * d; *a = ldexp(200, -31); return true;
      case 32: case 56: *rate = 125; *g = ldexp(1, -21) * d; *a = ldexp(1, -22); return true;
      case 41: case 62: *rate = t == 41 ? 125 : 200; *g = -0.008 / 65536 * d; *a = -0.2 / 65536 * mg; return true;
      case 61: *rate = 200; *g = 0.0151515 / 65536 / 200 * d; *a = 0.4 / 65536 / 200 * mg; return true;
      default: return false;
    }
  }
  void frame(const NF &f) {
    const Bytes &p = f.p;
    const size_t L = p.size();
    bool sane = f.ms < 604800000;
    switch (f.id) {
      case BESTPOS: {
        if (L != 72) { c->probe("length ignored"); break; }
        time(f);
        double lat = rdd(p, 8), lon = rdd(p, 16), hgt = rdd(p, 24);
        double h = hgt + get_geoid_offset(lat * M_PI / 180, lon * M_PI / 180);
        float a = rdf(p, 40), b = rdf(p, 44), v = rdf(p, 48);
        pf = mode((uint32_t)rd(p, 4, 4)); pw = f.week; pt = f.ms;
        put(f, 0x20A, {FU(4, f.ms), std::isfinite(lat) ? FD(lat) : FX(8), std::isfinite(lon) ? FD(lon) : FX(8), std::isfinite(h) && fabs(lat) <= 90 && fabs(lon) <= 360 ? Fld{'h', 8, h, 0} : FX(8), acc(fmaxf(a, b)), acc(v), FU(1, p[65]), FU(1, (uint64_t)pf)});
        c->probe("positions");
        break;
      }
      case BESTVEL: {
        if (L != 44) { c->probe("length ignored"); break; }
        time(f);
        double s = rdd(p, 16), t = rdd(p, 24) * M_PI / 180, v = rdd(p, 32);
        bool same = pw == f.week && pt == f.ms;
        put(f, 0x20E, {FU(4, f.ms), FR(4, 1000 * s * cos(t)), FR(4, 1000 * s * sin(t)), fabs(v) > 2.1e6 ? FX(4) : FR(4, -1000 * v), FU(2, 0), FU(2, 0), FU(1, 0), FU(1, (uint64_t)(same ? pf : 0))});
        c->probe(same ? "velocities with the position of their time" : "velocities without position");
        break;
      }
      case INSATT: {
        if (L != 40) { c->probe("length ignored"); break; }
        put(f, 0x221, {FU(4, f.ms), FR(4, rdd(p, 12) * 1e6), FR(4, rdd(p, 20) * 1e6), FR(4, rdd(p, 28) * 1e6), FF(0), FF(0), FF(0), FU(1, rd(p, 36, 4) == 3)});
        break;
      }
      case GPSEPHEM: {
        if (L != 224) { c->probe("length ignored"); break; }
        auto D = [&](size_t o) { return rdd(p, o); };
        auto F4 = [&](double v) { return std::isfinite((float)v) ? FF(v) : FX(4); };
        auto F8 = [&](double v) { return std::isfinite(v) ? FD(v) : FX(8); };
        double toe = D(32), toc = D(164);
        if (rd(p, 0, 4) > 255 || rd(p, 24, 4) > 65535 || !(toe >= 0 && toe <= 4294967295.0) || !(toc >= 0 && toc <= 4294967295.0)) { c->probe("impossible ephemerides"); break; }
        // prn tow health iode iode week zweek toe A dN M0 ecc w cuc cus crc crs cic cis I0 Idot Om0 Omd iodc toc tgd af0 af1 af2
        put(f, M_EGPS, {FU(1, rd(p, 0, 4)), FU(1, 0), FU(4, (uint64_t)toe), FU(2, rd(p, 24, 4)), F4(sqrt(D(216))), FU(4, 14400), FU(1, 1), FU(1, rd(p, 12, 4)),
                        F4(D(172)), F4(D(104)), F4(D(96)), F4(D(80)), F4(D(88)), F4(D(112)), F4(D(120)),
                        F8(D(48)), F8(D(56)), F8(D(64)), F8(sqrt(D(40))), F8(D(144)), F8(D(152)), F8(D(72)), F8(D(128)), F8(D(136)),
                        F4(D(180)), F4(D(188)), F4(D(196)), FU(4, (uint64_t)toc), FU(2, rd(p, 24, 4)), FU(1, rd(p, 16, 4)), FU(2, rd(p, 160, 4))});
        c->probe("ephemerides");
        break;
      }
      case RAWIMUSX: {
        if (L != 40) { c->probe("length ignored"); break; }
        double rate = 0, nom, g, a;
        bool known = imu(p[1], &nom, &g, &a), amb = false, meas = false;
        if (iw && f.week) {
          if (!it || !f.ms) amb = true;
          else if (f.week == iw && f.ms > it) { meas = true; rate = 1000.0 / (f.ms - it); }
          else if (f.week == iw + 1 && f.ms < it) { meas = true; rate = 1000.0 / (604800000.0 - it + f.ms); c->probe("IMU rate across a week rollover"); }
        }
        if (!sane || it >= 604800000) amb = true;
        if (!meas) rate = nom;
        if (known && !(p[0] & 3)) {
          double gs = g < 0 ? -g : g * rate, as = a < 0 ? -a : a * rate;  // per second
          int64_t z = rds(p, 16, 4), y = rds(p, 20, 4), x = rds(p, 24, 4), gz = rds(p, 28, 4), gy = rds(p, 32, 4), gx = rds(p, 36, 4);
          auto R = [&](int n, int64_t raw, double k) { return amb || raw == INT32_MIN ? FX(n) : FR(n, (double)raw * k); };
          const double md = 180 / M_PI * 1e6, kg = 180 / M_PI * 32768 / 125, ka = 32768 / (8 * 9.806);
          put(f, 0x222, {FU(4, f.ms), R(4, gx, gs * md), R(4, gy, gs * md), R(4, gz, gs * md), FU(1, 1)});
          put(f, 0x900, {FU(4, f.ms), FU(1, 0), R(2, x, as * ka), R(2, y, as * ka), R(2, z, as * ka), R(2, gx, gs * kg), R(2, gy, gs * kg), R(2, gz, gs * kg)});
          c->probe("IMU samples");
        } else c->probe("IMU messages not usable");
        int64_t el = (int64_t)(f.week - aw) * 604800000 + (int64_t)f.ms - at;
        if (!(aw && f.week && el > -1000 && el < 1000)) {
          put(f, 0x901, {FU(1, 1), FS(2, 0), FU(1, 0x42)});
          if (aw && f.week != aw) c->probe("auxiliary message in a new week");
          if (aw && el < 0) c->probe("auxiliary message after time went back");
          aw = f.week; at = f.ms;
        }
        iw = f.week; it = f.ms;
        break;
      }
      case RANGECMP: {
        size_t n = (size_t)rd(p, 0, 4);
        if (L < 4 || L != 4 + 24 * n) { c->probe("length ignored"); break; }
        if (n == 0) { put(f, M_OBS, {sane ? FU(4, f.ms) : FX(4), sane ? FS(4, 0) : FX(4), sane ? FU(2, (uint64_t)f.week) : FX(2), FU(1, 0x10)}); c->probe("empty observations"); break; }
        if (n > 63) { n = 63; c->probe("more than 63 channels"); }
        int total = (int)(n + 13) / 14;
        for (int m = 0; m < total; m++) {
          std::vector<Fld> o;
          if (sane) o = {FU(4, f.ms), FS(4, 0), FU(2, (uint64_t)f.week)}; else o = {FX(10)};
          o.push_back(FU(1, (uint64_t)(total << 4 | m)));
          for (size_t i = (size_t)m * 14; i < n && i < (size_t)m * 14 + 14; i++) {
            size_t b = 4 + 24 * i;
            uint32_t ts = (uint32_t)rd(p, b, 4);
            uint64_t w = rd(p, b + 4, 8);
            int64_t dop = (int64_t)(w << 36) >> 36;
            uint64_t psr = w >> 28;
            int64_t adr = rds(p, b + 12, 4);
            int prn = p[b + 17];
            uint32_t lw = (uint32_t)rd(p, b + 18, 4);
            int sys = ts >> 16 & 7, sig = ts >> 21 & 31;
            int code = sys == 0 ? (sig == 0 ? 0 : sig == 5 ? 6 : -1) : sys == 1 ? (sig == 0 ? 3 : sig == 1 ? 4 : -1) : -1;
            if (code < 0) continue;
            if (sys == 1 && prn >= 38) prn -= 37;
            if (prn < 1 || prn > (sys == 0 ? 32 : 28)) continue;
            uint64_t P = (psr * 50 + 64) / 128;
            if (P > 0xFFFFFFFFull) { c->probe("pseudorange out of range left out"); continue; }
            if (dop >> 8 < -32768 || dop >> 8 > 32767) { c->probe("Doppler out of range left out"); continue; }
            int fl = (ts & 0x1000 ? 9 : 0) | (ts & 0xC00 ? 2 : 0) | (ts & 0x10000000 ? 4 : 0);
            for (Fld x : {FU(4, P), FS(4, -adr >> 8), FU(1, (uint64_t)-adr & 255), FS(2, dop >> 8), FU(1, (uint64_t)dop & 255), FU(1, ts & 0x1000 ? ((lw >> 21 & 31) + 20) * 4 : 0),
                          FU(1, encode_lock_time((lw & 0x1FFFFF) / 32.0)), FU(1, (uint64_t)fl), FU(1, (uint64_t)prn), FU(1, (uint64_t)code)}) o.push_back(x);
            c->probe("observations");
          }
          put(f, M_OBS, o);
        }
        break;
      }
    }
  }
};

Entry entry() {
  return [](IO &io) {
    char a0[] = "nov2sbp"; char *av[] = {a0, nullptr};
    quiet_stderr();
    return nov2sbp_main(1, av, "", nrd, nwr, &io);
  };
}
struct NovHarness : Harness {
  const char *name() override { return "nov"; }
  std::vector<std::string> properties() override { return {"C14", "C15"}; }
  std::string rule(const std::string &) override {
    return "a seeded simulated NovAtel receiver with a clock that crosses week rollovers, steps and stalls sends long and short messages over a link that loses, duplicates, delays, corrupts, truncates and splices them, with headers claiming other lengths, delivered in arbitrary reads with read errors; a history counts as distinct by the hash of its sequence of message kinds, faults and delivery";
  }
  std::vector<std::string> real_components() override { return {"nov2sbp", "novatel-parser"}; }
  std::vector<std::string> stub_components() override { return {"libsbp (stand-in)", "libswiftnav (stand-in, including the geoid model)", "input stream and output sink (simulated)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override { return (o.k == "range" && i == 3) || (o.k == "garb" && i == 0) || (o.k == "other" && i == 3) || (o.k == "hdr" && i == 0); }
  Plan gen(uint64_t seed, const std::string &F) override {
    Rng r(seed);
    Plan p; p.focus = F; p.seed = seed;
    FaultGen g(r, p, F == "C14" ? r.chance(0.7) : r.chance(0.2));
    g.chunk();
    if (F == "C14" && r.chance(0.5)) p.ops.push_back(Op("rerr", {(int64_t)r.below(1000)}));
    int64_t week = r.chance(0.1) ? r.range(0, 3) : r.range(1900, 2400), ms = r.chance(0.3) ? 604800000 - r.range(0, 4000) : r.chance(0.1) ? 0 : r.range(0, 604799999);
    int imut = r.chance(0.6) ? IMUTYPES[r.below(21)] : -1;
    bool aligned = r.chance(0.6);  // position and velocity of the same instants
    int64_t step = r.chance(0.5) ? 10 : r.chance(0.5) ? 100 : 5 + (int64_t)r.below(700);
    if (aligned) ms -= ms % step;
    int n = (int)r.range(2, F == "C15" ? 60 : 35);
    for (int i = 0; i < n; i++) {
      auto norm = [&]() { while (ms >= 604800000) { ms -= 604800000; week++; } while (ms < 0) { if (week > 0) { ms += 604800000; week--; } else ms = 0; } };
      if (r.chance(0.5)) ms += step * (r.chance(0.2) ? r.range(0, 5) : 1);
      if (g.on && r.chance(0.04)) { ms += r.chance(0.5) ? r.range(0, 700000000) : r.range(0, 3000); if (r.chance(0.3)) week += r.range(0, 2); }
      if (g.on && r.chance(0.04)) { ms -= r.chance(0.5) ? r.range(0, 700000000) : r.range(0, 3000); }
      norm();
      auto T = [&](int64_t extra) { return std::vector<int64_t>{week, ms, g.sd(), extra}; };
      switch (r.weighted({4, 5, 3, 2, 8, 3, 2, 1, g.on ? 1 : 0})) {
        case 0: g.push(Op("pos", T(0))); if (r.chance(0.5)) g.push(Op("vel", T(0))); break;
        case 1: g.push(Op("vel", T(0))); break;
        case 2: g.push(Op("att", T(0))); break;
        case 3: g.push(Op("eph", T(0))); break;
        case 4: g.push(Op("imu", T(imut))); break;
        case 5: g.push(Op("range", T(r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(50, 169) : r.chance(0.2) ? 14 * r.range(1, 4) : (int64_t)r.below(40)))); break;
        case 6: g.push(Op("other", T(r.chance(0.1) ? 4064 - (int64_t)r.below(3) : (int64_t)r.below(r.chance(0.2) ? 4000 : 100)))); break;
        case 7: g.push(Op("glo", T(0))); break;
        default: g.push(Op("len", T((int64_t)r.below(7)))); break;
      }
      if (g.dirty_ok && g.on && r.chance(0.06)) p.ops.push_back(Op("hdr", {r.chance(0.3) ? (int64_t)r.below(65536) : r.chance(0.5) ? r.range(4050, 4070) : (int64_t)r.below(400), g.sd(), r.chance(0.4)}));
    }
    return p;
  }
  bool job(const Plan &p, Ctx *c, Job &j) override {
    Built B; build(p, B, c);
    j.tool = "nov2sbp"; j.framing = FR_NOV; j.out = OUT_SBP; j.in = B.s; j.mode = B.d.mode; j.rmax = B.d.rmax; j.rseed = B.d.seed;
    j.main = entry(); j.argv = {"nov2sbp"};
    return true;
  }
  void run(Ctx &c) override {
    Built B; build(c.plan, B, &c);
    c.shape(ops_shape(c.plan));
    for (size_t i = 1; i < B.times.size(); i++) { double d = (B.times[i].first - B.times[i - 1].first) * 604800.0 + (double)(B.times[i].second - B.times[i - 1].second) / 1000; if (d > 0 && d < 2e6) c.simtime(d); }
    auto fr = deframe(B.s);
    std::vector<Span> sp;
    for (auto &f : fr) sp.push_back({f.at, f.end, f.id == 0x7777});
    Entry en = entry();
    const std::string &F = c.plan.focus;
    Bytes out;
    if (F == "C14") {
      if (!check_delivery(c, "C14", B.s, sp, B.l.dirty, B.d, en, &out)) return;
      if ((B.l.dirty || B.l.nested) && !check_containment(c, "C14", B.s, sp, B.d, en)) return;
    } else {
      ToolRun a = run_tool(c, B.d.io(B.s), en);
      tool_crashes(c, a, "conversion");
      c.log(a.out);
      if (a.bad()) return;
      out = a.out;
    }
    std::vector<Sbp> got; size_t bad;
    if (!parse_sbp(out, got, &bad)) { c.violate(F, "output is not a sequence of SBP messages", fmt("at byte %zu", bad)); return; }
    Model M; M.c = &c;
    for (auto &f : fr) M.frame(f);
    // C14 judges which messages come, C15 what they contain
    for (size_t i = 0; i < std::max(got.size(), M.out.size()); i++) {
      c.evals(1);
      if (i >= got.size()) { c.violate("C14", "a message is not converted", fmt("message type 0x%X for the frame at byte %zu is missing at the end", M.out[i].type, M.out[i].at)); c.violate("C15", "messages missing", fmt("type 0x%X for the frame at byte %zu", M.out[i].type, M.out[i].at)); return; }
      if (i >= M.out.size()) { c.violate("C14", "a message no frame explains", show(got[i])); c.violate("C15", "message of no cause", show(got[i])); return; }
      const Exp &e = M.out[i];
      if (got[i].type != e.type) { std::string t = fmt("%s where the frame at byte %zu gives type 0x%X", show(got[i]).c_str(), e.at, e.type); c.violate("C14", "messages out of order, missing or extra", t); c.violate("C15", fmt("sequence of messages at type 0x%X", e.type), t); return; }
      if (got[i].sender != 5000) { c.violate("C15", "sender", show(got[i])); return; }
      std::string why;
      if (!fields_eq(e.f, got[i].p, &why)) { c.violate("C15", fmt("content of message 0x%X", e.type), why + " of the frame at byte " + std::to_string(e.at) + " in " + show(got[i])); return; }
    }
  }
};
}  // namespace
Harness *make_nov() { return new NovHarness; }
}  // namespace sim
