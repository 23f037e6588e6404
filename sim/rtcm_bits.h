// Independent reading of RTCM 3 frames: CRC-24Q, deframing, bit fields,
// observation messages.  Shares nothing with librtcm.
#pragma once
#include <cmath>
#include "sim.h"

namespace sim {

inline uint32_t crc24q(const uint8_t *p, size_t n) {
  uint32_t c = 0;
  for (size_t i = 0; i < n; i++) {
    c ^= (uint32_t)p[i] << 16;
    for (int k = 0; k < 8; k++) { c <<= 1; if (c & 0x1000000) c ^= 0x1864CFB; }
  }
  return c & 0xFFFFFF;
}
inline Bytes rtcm_frame(const Bytes &pay) {
  Bytes f = {0xD3, (uint8_t)((pay.size() >> 8) & 3), (uint8_t)(pay.size() & 0xFF)};
  f.insert(f.end(), pay.begin(), pay.end());
  uint32_t c = crc24q(f.data(), f.size());
  f.push_back((uint8_t)(c >> 16)); f.push_back((uint8_t)(c >> 8)); f.push_back((uint8_t)c);
  return f;
}
struct RFrame { size_t at, end; Bytes pay; };
// Greedy: the first position at which a whole frame with matching CRC starts.
// pending: a preamble near the end announces a frame longer than what is left.
inline std::vector<RFrame> rtcm_deframe(const Bytes &s) {
  std::vector<RFrame> r;
  for (size_t i = 0; i + 6 < s.size();) {
    if (s[i] != 0xD3) { i++; continue; }
    size_t len = ((size_t)(s[i + 1] & 3) << 8) | s[i + 2];
    if (len == 0 || i + len + 6 > s.size()) { i++; continue; }
    uint32_t c = ((uint32_t)s[i + 3 + len] << 16) | ((uint32_t)s[i + 4 + len] << 8) | s[i + 5 + len];
    if (crc24q(&s[i], len + 3) != c) { i++; continue; }
    RFrame f; f.at = i; f.end = i + len + 6;
    f.pay.assign(s.begin() + (long)i + 3, s.begin() + (long)(i + 3 + len));
    r.push_back(f);
    i = f.end;
  }
  return r;
}

struct BitR {
  const Bytes &b;
  size_t n = 0;
  bool ok = true;
  explicit BitR(const Bytes &bb, size_t at = 0) : b(bb), n(at) {}
  uint64_t u(int bits) {
    uint64_t v = 0;
    for (int i = 0; i < bits; i++, n++) {
      if (n / 8 >= b.size()) { ok = false; v <<= 1; continue; }
      v = (v << 1) | ((b[n / 8] >> (7 - n % 8)) & 1);
    }
    return v;
  }
  int64_t s(int bits) { uint64_t v = u(bits); if (bits < 64 && (v >> (bits - 1)) & 1) v |= ~0ull << bits; return (int64_t)v; }
  int64_t sm(int bits) { uint64_t sg = u(1); int64_t v = (int64_t)u(bits - 1); return sg ? -v : v; }
};

enum Cons { GPS = 0, GLO = 1, GAL = 2, BDS = 3, SBS = 4, QZS = 5 };
const double CLIGHT = 299792458.0;

// MSM number -> constellation, or -1
inline int msm_cons(int num) {
  int d = num / 10;
  switch (d) { case 107: return GPS; case 108: return GLO; case 109: return GAL; case 110: return SBS; case 111: return QZS; case 112: return BDS; }
  return -1;
}
// code of (constellation, signal id 1..32); -1 not supported
inline int msm_code(int cons, int sig) {
  switch (cons) {
    case GPS: switch (sig) { case 2: return 0; case 3: case 4: return 5; case 9: case 10: return 6; case 15: return 1; case 16: return 7; case 17: return 8; case 22: return 9; case 23: return 10; case 24: return 11; case 30: return 56; case 31: return 57; case 32: return 58; } break;
    case GLO: switch (sig) { case 2: return 3; case 8: return 4; } break;
    case GAL: switch (sig) { case 2: return 15; case 4: return 14; case 5: return 16; case 8: return 18; case 10: return 17; case 11: return 19; case 14: return 20; case 15: return 21; case 16: return 22; case 18: return 23; case 19: return 24; case 20: return 25; case 22: return 26; case 23: return 27; case 24: return 28; } break;
    case BDS: switch (sig) { case 2: return 12; case 14: return 13; case 22: return 47; case 23: return 48; case 24: return 49; } break;
  }
  return -1;
}
inline int cons_nsats(int cons) { switch (cons) { case GPS: return 32; case GLO: return 28; case GAL: return 36; case BDS: return 64; } return 0; }
inline double code_freq(int code, int fcn_rtcm) {
  const double L1 = 1575.42e6, L2 = 1227.60e6, L5 = 1176.45e6;
  switch (code) {
    case 0: case 5: case 2: case 56: case 57: case 58: return L1;
    case 1: case 6: case 7: case 8: return L2;
    case 9: case 10: case 11: return L5;
    case 3: return fcn_rtcm < 0 ? 0 : 1602.0e6 + (fcn_rtcm - 7) * 0.5625e6;
    case 4: return fcn_rtcm < 0 ? 0 : 1246.0e6 + (fcn_rtcm - 7) * 0.4375e6;
    case 14: case 15: case 16: return L1;
    case 17: case 18: case 19: return 1278.75e6;
    case 20: case 21: case 22: return 1207.14e6;
    case 23: case 24: case 25: return 1191.795e6;
    case 26: case 27: case 28: return L5;
    case 12: return 1561.098e6;
    case 13: return 1207.14e6;
    case 47: case 48: case 49: return L5;
  }
  return 0;
}
inline int code_cons(int code) {
  if (code == 3 || code == 4) return GLO;
  if (code == 2) return SBS;
  if (code >= 14 && code <= 28) return GAL;
  if (code == 12 || code == 13 || (code >= 44 && code <= 55)) return BDS;
  return GPS;
}

// DF407 and DF402, milliseconds
inline int64_t df407_ms(int v) {
  if (v < 64) return v;
  if (v > 703) return 67108864;
  int k = v / 32 - 1;  // 64..95 -> 1
  // multiplier 2^k, minimum indicator 32*(k+1)
  int64_t m = 1ll << k;
  // continuous at the boundaries: the value at v=64 is 64 with slope 2 from there
  int64_t base = 64ll << (k - 1);
  return base + m * (v - (64 + 32 * (k - 1)));
}
inline int64_t df402_ms(int v) { return v == 0 ? 0 : 32ll << (v - 1); }
inline int sbp_lock(int64_t ms) { int n = 0; while (n < 15 && ms >= (32ll << n)) n++; return n; }

struct MCell {
  int sat, sig, code;  // sat 1..64, sig 1..32
  bool pr, cp, dop, hca;
  double pr_ms, cp_ms, rate;
  double cnr;          // dB-Hz, 0: none
  int64_t lock_ms;
  int info;            // MSM5/7 satellite info, -1 none
};
struct Msm {
  int num, cons, type, stn;
  uint32_t tow = 0;    // raw epoch field (GLONASS: time of day), BeiDou wrap undone
  bool mult = false, usable = false;
  std::vector<MCell> cells;
};
// false: not decodable
inline bool decode_msm(const Bytes &pay, Msm &m) {
  BitR r(pay);
  m.num = (int)r.u(12);
  m.cons = msm_cons(m.num);
  m.type = m.num % 10;
  if (m.cons < 0 || m.type < 4 || m.type > 7) return false;
  m.stn = (int)r.u(12);
  if (m.cons == GLO) { r.u(3); m.tow = (uint32_t)r.u(27); if (m.tow > 86399999u) return false; }
  else {
    uint32_t t = (uint32_t)r.u(30);
    if (m.cons == BDS && t >= (1u << 30) - 14000) t = 604800000u - ((1u << 30) - t);
    if (t > 604799999u) return false;
    m.tow = t;
  }
  m.mult = r.u(1);
  r.u(3 + 7 + 2 + 2 + 1 + 3);
  std::vector<int> sats, sigs;
  for (int i = 1; i <= 64; i++) if (r.u(1)) sats.push_back(i);
  for (int i = 1; i <= 32; i++) if (r.u(1)) sigs.push_back(i);
  size_t nc = sats.size() * sigs.size();
  if (nc > 64) return false;
  std::vector<int> mask(nc);
  for (auto &x : mask) x = (int)r.u(1);
  size_t ns = sats.size();
  bool full = m.type == 5 || m.type == 7, ext = m.type >= 6;
  std::vector<int> ri(ns), info(ns, -1), rate(ns, -8192);
  std::vector<int> rm(ns);
  for (auto &x : ri) x = (int)r.u(8);
  if (full) for (auto &x : info) x = (int)r.u(4);
  for (auto &x : rm) x = (int)r.u(10);
  if (full) for (auto &x : rate) x = (int)r.s(14);
  for (size_t s = 0; s < ns; s++)
    for (size_t g = 0; g < sigs.size(); g++)
      if (mask[s * sigs.size() + g]) {
        MCell c{};
        c.sat = sats[s]; c.sig = sigs[g]; c.code = msm_code(m.cons, c.sig); c.info = info[s];
        c.pr = c.cp = ri[s] != 255;
        c.dop = full && rate[s] != -8192;
        c.pr_ms = c.cp_ms = ri[s] + rm[s] / 1024.0;
        c.rate = rate[s];
        m.cells.push_back(c);
      }
  for (auto &c : m.cells) { int64_t v = r.s(ext ? 20 : 15); if (v == (ext ? -524288 : -16384)) c.pr = false; c.pr_ms += ldexp((double)v, ext ? -29 : -24); }
  for (auto &c : m.cells) { int64_t v = r.s(ext ? 24 : 22); if (v == (ext ? -8388608 : -2097152)) c.cp = false; c.cp_ms += ldexp((double)v, ext ? -31 : -29); }
  for (auto &c : m.cells) { int v = (int)r.u(ext ? 10 : 4); c.lock_ms = ext ? df407_ms(v) : df402_ms(v); }
  for (auto &c : m.cells) c.hca = r.u(1);
  for (auto &c : m.cells) { int v = (int)r.u(ext ? 10 : 6); c.cnr = ext ? v / 16.0 : v; }
  if (full) for (auto &c : m.cells) { int64_t v = r.s(15); if (v == -16384) c.dop = false; c.rate += v * 1e-4; }
  m.usable = r.ok;
  return r.ok;
}

struct LFreq { bool pr = false, cp = false; int code = 0; double P = 0, L = 0; int lock_s = 0; double cnr = 0; };
struct LSat { int sat = 0, fcn = -1; LFreq f[2]; };
struct Legacy { int num = 0, stn = 0; uint32_t t = 0; bool sync = false, usable = false; std::vector<LSat> sats; };
inline int df013_s(int v) {
  if (v < 24) return v;
  if (v < 48) return 2 * v - 24;
  if (v < 72) return 4 * v - 120;
  if (v < 96) return 8 * v - 408;
  if (v < 120) return 16 * v - 1176;
  if (v < 127) return 32 * v - 3096;
  return 937;
}
inline bool decode_legacy(const Bytes &pay, Legacy &m) {
  BitR r(pay);
  m.num = (int)r.u(12);
  bool glo = m.num == 1010 || m.num == 1012, l2 = m.num == 1004 || m.num == 1012;
  if (!glo && m.num != 1002 && m.num != 1004) return false;
  m.stn = (int)r.u(12);
  m.t = (uint32_t)r.u(glo ? 27 : 30);
  if (m.t > (glo ? 86399999u : 604799999u)) return false;
  m.sync = r.u(1);
  int n = (int)r.u(5);
  r.u(1 + 3);
  for (int i = 0; i < n; i++) {
    LSat s;
    s.sat = (int)r.u(6);
    s.f[0].code = (int)r.u(1);
    if (glo) s.fcn = (int)r.u(5);
    int64_t pr = (int64_t)r.u(glo ? 25 : 24), ph = r.s(20);
    int lk = (int)r.u(7), amb = (int)r.u(glo ? 7 : 8), cn = (int)r.u(8);
    double f1 = glo ? 1602e6 + (s.fcn - 7) * 562500.0 : 1575.42e6, f2 = glo ? 1246e6 + (s.fcn - 7) * 437500.0 : 1227.60e6;
    LFreq &a = s.f[0];
    a.P = 0.02 * (double)pr + amb * (glo ? 599584.916 : 299792.458);
    a.pr = true;
    a.cp = ph != -524288 && (!glo || s.fcn <= 20);
    a.L = (a.P + 0.0005 * (double)ph) / (CLIGHT / f1);
    a.lock_s = df013_s(lk); a.cnr = cn * 0.25;
    if (l2) {
      LFreq &b = s.f[1];
      b.code = (int)r.u(2);
      int64_t d = r.s(14), p2 = r.s(20);
      lk = (int)r.u(7); cn = (int)r.u(8);
      b.pr = d != -8192; b.P = a.P + 0.02 * (double)d;
      b.cp = p2 != -524288 && (!glo || s.fcn <= 20);
      b.L = (a.P + 0.0005 * (double)p2) / (CLIGHT / f2);
      b.lock_s = df013_s(lk); b.cnr = cn * 0.25;
    }
    m.sats.push_back(s);
  }
  m.usable = r.ok;
  return r.ok;
}

}  // namespace sim
