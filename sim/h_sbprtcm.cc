// SBP to RTCM: whole frames of one sequence each with the values sent (C16),
// there and back over a faulty link (C17), and the buffered interface (C18).
#include <memory>
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include "harness.h"
#include "rtcm_model.h"
#include "stream.h"
#include "ubx_bits.h"
extern "C" {
#include <libsbp/sbp.h>
#include <gnss-converters-extra/sbp_conv.h>
#include <gnss-converters-extra/sbp_rtcm3.h>
int sbp2rtcm_main(int argc, char **argv, const char *opts, int (*readfn)(uint8_t *, uint32_t, void *), int (*writefn)(uint8_t *, uint16_t, void *), void *context);
int rtcm3tosbp_main(int argc, char **argv, const char *opts, int (*readfn)(uint8_t *, size_t, void *), s32 (*writefn)(u8 *, u32, void *), void *context);
extern int64_t sim_clock;
extern int sim_malloc_fail;
}

namespace sim {
namespace {
const int64_t WEEKMS = 604800000;
enum { WRAPPED_OSR = 0x640 };
const int WRAP[] = {0x640, 0x5DD, 0x5E1, 0x5E6, 0x5FA, 0x5F5, 0x5FB};
bool is_wrap(int t) { for (int x : WRAP) if (x == t) return true; return false; }

uint16_t crc16(const uint8_t *p, size_t n) {
  uint16_t c = 0;
  for (size_t i = 0; i < n; i++) { c ^= (uint16_t)(p[i] << 8); for (int j = 0; j < 8; j++) c = (uint16_t)(c & 0x8000 ? c << 1 ^ 0x1021 : c << 1); }
  return c;
}
// The SBP messages of a byte stream: a preamble consumes the frame it announces.
struct In { int type, sender; Bytes p; size_t at, end; };
std::vector<In> deframe_sbp(const Bytes &s) {
  std::vector<In> v;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] != 0x55) { i++; continue; }
    if (i + 6 > s.size()) break;
    size_t n = s[i + 5], e = i + 6 + n + 2;
    if (e > s.size()) break;
    if (crc16(&s[i + 1], 5 + n) == (s[e - 2] | s[e - 1] << 8))
      v.push_back({(int)rd(s, i + 1, 2), (int)rd(s, i + 3, 2), Bytes(s.begin() + (long)i + 6, s.begin() + (long)(i + 6 + n)), i, e});
    i = e;
  }
  return v;
}

// ---------- signals ----------
int order_of(int cons) { static const int o[] = {0, 2, 5, 3, 1, 4}; return o[cons]; }  // as RTCM numbers go out
int cons_of(int code) {
  switch (code) {
    case 0: case 1: case 5: case 6: case 7: case 8: case 9: case 10: case 11: case 56: case 57: case 58: return GPS;
    case 2: case 41: case 42: case 43: return SBS;
    case 3: case 4: case 29: case 30: return GLO;
  }
  if (code == 12 || code == 13 || (code >= 44 && code <= 55)) return BDS;
  if (code >= 14 && code <= 28) return GAL;
  if (code >= 31 && code <= 40) return QZS;
  return -1;
}
int first_prn(int cons) { return cons == SBS ? 120 : cons == QZS ? 193 : 1; }
int nsats(int cons) { switch (cons) { case GPS: return 32; case GLO: return 28; case GAL: return 36; case BDS: return 64; case SBS: return 39; default: return 10; } }
int full_code(int cons, int sig) {
  if (cons == GLO) { switch (sig) { case 2: return 3; case 3: return 29; case 8: return 4; case 9: return 30; } return -1; }
  if (cons == SBS) { switch (sig) { case 2: return 2; case 22: return 41; case 23: return 42; case 24: return 43; } return -1; }
  if (cons == QZS) { switch (sig) { case 2: return 31; case 15: return 35; case 16: return 36; case 17: return 37; case 22: return 38; case 23: return 39; case 24: return 40; case 30: return 32; case 31: return 33; case 32: return 34; } return -1; }
  if (cons == BDS) { switch (sig) { case 2: return 12; case 8: return 53; case 9: return 54; case 10: return 55; case 14: return 13; case 22: return 47; case 23: return 48; case 24: return 49; case 25: return 50; case 30: return 44; case 31: return 45; case 32: return 46; } return -1; }
  return msm_code(cons, sig);
}
bool supported(int code) {
  int k = cons_of(code);
  if (k < 0) return false;
  for (int s = 1; s <= 32; s++) if (full_code(k, s) == code) return true;
  return false;
}
double freq_of(int code, int fcn) {  // fcn as in RTCM, -1 unknown
  switch (code) {
    case 29: return code_freq(3, fcn);
    case 30: return code_freq(4, fcn);
    case 31: case 32: case 33: case 34: return 1575.42e6;
    case 35: case 36: case 37: return 1227.60e6;
    case 38: case 39: case 40: case 41: case 42: case 43: return 1176.45e6;
    case 44: case 45: case 46: return 1575.42e6;
    case 50: return 1207.14e6;
    case 53: case 54: case 55: return 1268.52e6;
  }
  return code_freq(code, fcn);
}
struct Ob { uint32_t P; int32_t Li; int Lf, Di, Df, cn0, lock, flags, sat, code; };
Ob get_ob(const Bytes &p, size_t o) {
  return {(uint32_t)rd(p, o, 4), (int32_t)rds(p, o + 4, 4), p[o + 8], (int)rds(p, o + 9, 2), p[o + 11], p[o + 12], p[o + 13], p[o + 14], p[o + 15], p[o + 16]};
}
void put_ob(Bytes &b, const Ob &o) {
  le(b, o.P, 4); le(b, (uint32_t)o.Li, 4); b.push_back((uint8_t)o.Lf); le(b, (uint16_t)o.Di, 2);
  for (int x : {o.Df, o.cn0, o.lock, o.flags, o.sat, o.code}) b.push_back((uint8_t)x);
}
enum { F_CODE = 1, F_PHASE = 2, F_HALF = 4, F_DOP = 8, F_RAIM = 0x80 };
// valid for the SBP side (codes 59 to 63 are auxiliary antennas, which no RTCM message carries)
bool valid_sid(const Ob &o) {
  static const int aux[] = {GPS, SBS, GAL, QZS, BDS};
  int k = o.code >= 59 && o.code <= 63 ? aux[o.code - 59] : cons_of(o.code);
  return k >= 0 && o.sat >= first_prn(k) && o.sat < first_prn(k) + nsats(k);
}
bool usable_sat(const Ob &o) { int k = cons_of(o.code); return k >= 0 && o.sat >= first_prn(k) && o.sat < first_prn(k) + nsats(k); }

// ---------- configuration ----------
struct Cfg {
  int mode = 0;             // 0 tool, 1 callbacks, 2 buffered interface
  int msm = 5;              // 0 legacy
  bool leap_known = true; int leap = 18;
  bool ant = false; std::string antd, rcvd; int anth = 0;
  int64_t clock = 1700000000;
  int fcn[29];              // RTCM, -1 unknown
  Cfg() { for (int &x : fcn) x = -1; }
};
int clock_leap(int64_t t) { return t >= 1483228800 ? 18 : t >= 1435708800 ? 17 : t >= 1341100800 ? 16 : 15; }
const int64_t CLOCKS[] = {1230940800, 1341000000, 1341200000, 1400000000, 1435600000, 1435800000, 1483100000, 1483330000, 1600000000, 1700000000, 1900000000};

// ---------- expected frames ----------
struct Exp { int num; std::function<std::string(const Bytes &)> check; };

struct Model {
  Cfg k;
  int sender = 0;
  bool have = false;
  int64_t wn = 0, tow = 0; int nobs = 0;
  std::vector<Ob> buf;
  int n_flush_early = 0, n_dropped = 0, n_gap = 0, n_past = 0, n_full = 0, n_cells64 = 0, n_dup = 0, n_seq = 0;

  int64_t glo_tow() const { int64_t t = (tow + 10800000 - (int64_t)k.leap * 1000) % WEEKMS; return t < 0 ? t + WEEKMS : t; }

  static std::string cell_eq(const Ob &o, const MCell &m, int type, double rough, double rrate, int fcn, bool range_unjudged, bool rate_unjudged) {
    double pm = o.P * 0.02 * 1000 / CLIGHT, d = fabs(pm - rough), f = freq_of(o.code, fcn);
    if (!range_unjudged) {
      if (d < ldexp(1, -10) - 1e-7 && !m.pr) return "pseudorange missing";
      if (d > ldexp(1, -10) + 1e-7 && m.pr) return "pseudorange present that does not fit its field";
    }
    if (m.pr && fabs(m.pr_ms - pm) > ldexp(1, -25) * 1.001) return fmt("pseudorange %.9f ms, sent %.9f ms", m.pr_ms, pm);
    if (f > 0 && (o.flags & F_PHASE)) {
      double cm = (o.Li + o.Lf / 256.0) * 1000 / f;
      double e = fabs(cm - rough);
      if (!range_unjudged && e < ldexp(1, -8) - 1e-7 && !m.cp) return "carrier phase missing";
      if (e > ldexp(1, -8) + 1e-7 && m.cp) return "carrier phase present that does not fit its field";
      if (m.cp && fabs(m.cp_ms - cm) > ldexp(1, -30) * 1.01) return fmt("carrier phase %.12f ms, sent %.12f ms", m.cp_ms, cm);
      if (m.cp && m.hca != !(o.flags & F_HALF)) return "half cycle ambiguity indicator";
    } else if (m.cp) return "carrier phase that was not sent (or whose frequency is not known)";
    if (type == 5) {
      if (f > 0 && (o.flags & F_DOP)) {
        double rr = -(o.Di + o.Df / 256.0) * CLIGHT / f;
        double e = fabs(rr - rrate);
        if (!rate_unjudged) {
          if (e < 1.6383 && !m.dop) return "range rate missing";
          if (e > 1.6385 && m.dop) return "range rate present that does not fit its field";
          if (m.dop && fabs(m.rate - rr) > 0.5001e-4) return fmt("range rate %.5f m/s, sent %.5f", m.rate, rr);
        }
      } else if (m.dop) return "range rate that was not sent (or whose frequency is not known)";
    }
    if (m.lock_ms != df402_ms(o.lock & 15)) return fmt("lock time %lld ms for indicator %d", (long long)m.lock_ms, o.lock);
    double cn = std::min(o.cn0 * 0.25, 63.0);
    if (fabs(m.cnr - cn) > 0.5) return fmt("C/N0 %.2f, sent %.2f", m.cnr, cn);
    return "";
  }

  void flush_msm(std::vector<Exp> &out) {
    std::vector<Ob> by[6];
    for (auto &o : buf) {
      if (!usable_sat(o) || !supported(o.code)) continue;
      int c = cons_of(o.code);
      if (c == GLO && !k.leap_known) continue;
      by[c].push_back(o);
    }
    std::vector<int> cs;
    for (int i = 0; i < 6; i++) for (int c = 0; c < 6; c++) if (order_of(c) == i && !by[c].empty()) cs.push_back(c);
    for (size_t q = 0; q < cs.size(); q++) {
      int c = cs[q];
      static const int base[] = {107, 108, 109, 112, 110, 111};
      bool mult = q + 1 < cs.size();
      std::set<int> sats, codes;
      std::map<std::pair<int, int>, std::vector<Ob>> m;
      for (auto &o : by[c]) { sats.insert(o.sat); codes.insert(o.code); m[{o.sat, o.code}].push_back(o); if (m[{o.sat, o.code}].size() > 1) n_dup++; }
      bool over = sats.size() * codes.size() > 64;
      if (over) n_cells64++;
      int num = base[c] * 10 + k.msm, stn = sender & 0xFFF, type = k.msm;
      int64_t t = c == GLO ? glo_tow() : c == BDS ? (tow + WEEKMS - 14000) % WEEKMS : tow;
      std::array<int, 29> fcn; for (int i = 0; i < 29; i++) fcn[(size_t)i] = k.fcn[i];
      auto obs = by[c];
      out.push_back({num, [=](const Bytes &pay) -> std::string {
        Msm d;
        if (!decode_msm(pay, d)) return "not decodable";
        BitR r(pay, 24);
        int64_t raw = (int64_t)r.u(30), want = c == GLO ? (t / 86400000) << 27 | (t % 86400000) : t;
        if (raw != want) return fmt("epoch field %lld, expected %lld", (long long)raw, (long long)want);
        if (d.stn != stn) return fmt("station %d, expected %d", d.stn, stn);
        if (d.mult != mult) return fmt("multiple message bit %d", d.mult);
        // satellite data
        BitR h(pay, 73);
        std::vector<int> sl; for (int i = 1; i <= 64; i++) if (h.u(1)) sl.push_back(i);
        int ng = 0; for (int i = 1; i <= 32; i++) ng += (int)h.u(1);
        h.u((int)sl.size() * ng > 64 ? 64 : (int)sl.size() * ng);
        std::map<int, int> ri, rm, info, rate;
        for (int s : sl) ri[s] = (int)h.u(8);
        if (type == 5) for (int s : sl) info[s] = (int)h.u(4);
        for (int s : sl) rm[s] = (int)h.u(10);
        if (type == 5) for (int s : sl) rate[s] = (int)h.s(14);
        std::set<std::pair<int, int>> seen;
        for (auto &x : d.cells) {
          int sat = x.sat - 1 + first_prn(c), code = full_code(c, x.sig);
          auto it = m.find({sat, code});
          if (it == m.end()) return fmt("cell of satellite %d signal %d: no such observation", sat, x.sig);
          seen.insert({sat, code});
          int fc = c == GLO ? fcn[(size_t)sat] : -1;
          double rough = ri[x.sat] + rm[x.sat] / 1024.0, rrate = type == 5 ? rate[x.sat] : 0;
          bool wide = false, beyond = true, fast = false, near = false, rnear = false, anyd = false;
          for (auto &o : obs) if (o.sat == sat) {
            double pm = o.P * 0.02 * 1000 / CLIGHT;
            if (pm > 254.999) wide = true;
            if (pm < 255.001) beyond = false;
            if (fabs(pm - rough) <= ldexp(1, -11) * 1.0001) near = true;
            double f = freq_of(o.code, fc);
            if (f > 0 && (o.flags & F_DOP)) {
              double rr = -(o.Di + o.Df / 256.0) * CLIGHT / f;
              if (m.at({o.sat, o.code}).size() == 1 && !over) anyd = true;
              if (fabs(rr) > 8190) fast = true;
              if (fabs(rr) > 8192.6 && x.sat - 1 + first_prn(c) == o.sat && x.dop && o.code == code && m.at({o.sat, o.code}).size() == 1) return fmt("satellite %d code %d: a range rate beyond its field is present", sat, code);
              if (fabs(rr - rrate) <= 0.50001) rnear = true;
            }
          }
          if (beyond && (x.pr || x.cp)) return fmt("satellite %d: a range beyond its field is present", sat);
          if (!wide && !near) return fmt("satellite %d: rough range %.6f ms is that of none of its observations", sat, rough);
          if (type == 5 && anyd && !fast && !rnear) return fmt("satellite %d: rough range rate %.0f m/s is that of none of its observations", sat, rrate);
          if (type == 5 && c == GLO && info[x.sat] != (fc < 0 ? 15 : fc)) return fmt("satellite %d: frequency channel %d, expected %d", sat, info[x.sat], fc);
          std::string why;
          for (auto &o : it->second) { why = cell_eq(o, x, type, rough, rrate, fc, wide, fast); if (why.empty()) break; }
          if (!why.empty()) return fmt("satellite %d code %d: ", sat, code) + why;
        }
        if (seen.size() != d.cells.size()) return "a cell twice";
        if (!over && seen.size() != m.size()) return fmt("%zu of %zu observations", seen.size(), m.size());
        if (seen.empty()) return "no observation";
        return "";
      }});
    }
  }
  static std::string leg_eq(const Ob &o, const LFreq &l, double f, double l1P, bool first) {
    double P = o.P * 0.02;
    if (P < 76.0e6) {
      if (first) { if (fabs(l.P - P) > 0.0101) return fmt("pseudorange %.3f, sent %.3f", l.P, P); }
      else {
        bool fits = fabs(P - l1P) <= 163.81, no = fabs(P - l1P) > 163.83;
        if (fits && !l.pr) return "pseudorange missing";
        if (no && l.pr) return "pseudorange present that does not fit its field";
        if (l.pr && fabs(l.P - P) > 0.0201) return fmt("pseudorange %.3f, sent %.3f", l.P, P);
      }
    }
    bool ph = (o.flags & F_PHASE) && (o.flags & F_HALF);
    if (ph != l.cp) return ph ? "carrier phase missing" : "carrier phase that was not sent";
    if (ph && P < 76.0e6 && l1P < 76.0e6) {
      double d = remainder(l.L - (o.Li + o.Lf / 256.0), 1500.0);
      if (fabs(d) > 0.000251 * f / CLIGHT + 1e-6) return fmt("carrier phase %.5f cycles off", d);
    }
    double t = df402_ms(o.lock & 15) / 1000.0;
    int next = 1000000000;
    for (int v = 0; v < 127; v++) if (df013_s(v) == l.lock_s) next = df013_s(v + 1);
    if (l.lock_s > t || t >= next) return fmt("lock time %d s for %.3f s", l.lock_s, t);
    if (fabs(l.cnr - o.cn0 * 0.25) > 0.01) return fmt("C/N0 %.2f, sent %.2f", l.cnr, o.cn0 * 0.25);
    return "";
  }
  std::shared_ptr<int> glop = std::make_shared<int>(0);  // P code labelled C/A
  void flush_legacy(std::vector<Exp> &out) {
    auto gp = glop;
    bool emit[2] = {false, false};
    struct Ent { Ob l1; std::vector<Ob> l2; };
    std::vector<Ent> e[2];
    for (auto &o : buf) {
      int g = o.code == 0 || o.code == 5 || o.code == 1 || o.code == 6 ? 0 : o.code == 3 || o.code == 29 || o.code == 4 || o.code == 30 ? 1 : -1;
      if (g < 0 || !usable_sat(o)) continue;
      if (g == 1 && (!k.leap_known || k.fcn[o.sat] < 0)) continue;
      bool l1 = o.code == 0 || o.code == 5 || o.code == 3 || o.code == 29;
      if (l1) { e[g].push_back({o, {}}); emit[g] = true; }
      else for (auto &x : e[g]) if (x.l1.sat == o.sat) { x.l2.push_back(o); break; }
    }
    for (int g = 0; g < 2; g++) if (emit[g]) {
      int stn = sender & 0xFFF;
      int64_t t = g ? glo_tow() % 86400000 : tow;
      bool sync = g == 0 && emit[1];
      auto ents = e[g];
      std::array<int, 29> fcn; for (int i = 0; i < 29; i++) fcn[(size_t)i] = k.fcn[i];
      out.push_back({g ? 1012 : 1004, [=](const Bytes &pay) -> std::string {
        Legacy d;
        if (!decode_legacy(pay, d)) return "not decodable";
        size_t bits = (g ? 61 : 64) + d.sats.size() * (g ? 130 : 125);
        if (pay.size() != (bits + 7) / 8) return fmt("%zu bytes for %zu satellites", pay.size(), d.sats.size());
        if (d.t != (uint32_t)t) return fmt("epoch field %u, expected %lld", d.t, (long long)t);
        if (d.stn != stn) return fmt("station %d, expected %d", d.stn, stn);
        if (d.sync != sync) return fmt("synchronous flag %d", d.sync);
        std::map<int, int> cnt;
        for (auto &x : ents) cnt[x.l1.sat]++;
        std::set<int> seen;
        for (auto &s : d.sats) {
          const Ent *x = nullptr;
          for (auto &q : ents) if (q.l1.sat == s.sat) { x = &q; break; }
          if (!x) return fmt("satellite %d: no such observation", s.sat);
          seen.insert(s.sat);
          if (cnt[s.sat] > 1) continue;
          if (!(x->l1.flags & F_PHASE) || !(x->l1.flags & F_HALF)) return fmt("satellite %d: without valid phase", s.sat);
          if (x->l1.code == 29 && !s.f[0].code) (*gp)++;
          else if (s.f[0].code != (x->l1.code == 5 || x->l1.code == 29)) return fmt("satellite %d: L1 code indicator %d", s.sat, s.f[0].code);
          if (g && s.fcn != fcn[(size_t)s.sat]) return fmt("satellite %d: frequency channel %d", s.sat, s.fcn);
          double f1 = g ? code_freq(3, s.fcn) : 1575.42e6, f2 = g ? code_freq(4, s.fcn) : 1227.60e6;
          std::string w = leg_eq(x->l1, s.f[0], f1, x->l1.P * 0.02, true);
          if (!w.empty()) return fmt("satellite %d L1: ", s.sat) + w;
          if (x->l2.empty()) { if (s.f[1].pr || s.f[1].cp) return fmt("satellite %d: L2 that was not sent", s.sat); continue; }
          for (auto &o : x->l2) {
            w = leg_eq(o, s.f[1], f2, x->l1.P * 0.02, false);
            if (w.empty() && o.code == 30 && !s.f[1].code) (*gp)++;
            else if (w.empty() && s.f[1].code != (o.code == 6 || o.code == 30)) w = fmt("code indicator %d", s.f[1].code);
            if (w.empty()) break;
          }
          if (!w.empty()) return fmt("satellite %d L2: ", s.sat) + w;
        }
        size_t want = 0;
        for (auto &x : ents) if (cnt[x.l1.sat] == 1 && (x.l1.flags & F_PHASE) && (x.l1.flags & F_HALF)) want += !seen.count(x.l1.sat);
        if (want && ents.size() <= 31) return fmt("%zu satellites missing", want);
        return "";
      }});
    }
  }
  void flush(std::vector<Exp> &out) {
    if (!buf.empty()) { n_seq++; if (k.msm) flush_msm(out); else flush_legacy(out); }
    buf.clear();
  }
  void obs(const In &m, std::vector<Exp> &out) {
    if (m.p.size() < 11) return;
    int64_t t = (int64_t)rd(m.p, 0, 4), w = (int64_t)rd(m.p, 8, 2);
    int n = m.p[10];
    if (t >= WEEKMS) return;
    if (m.sender != sender) { if (!buf.empty()) n_flush_early++; flush(out); sender = m.sender; }
    int cnt = (n & 15) + 1, size = n >> 4;
    if (!buf.empty()) {
      int64_t dt = (w - wn) * WEEKMS + t - tow;
      if (dt < 0) { n_past++; return; }
      if (dt > 0) { n_flush_early++; flush(out); }
      else if (size != nobs >> 4 || cnt <= (nobs & 15) + 1) { n_dropped++; flush(out); return; }
      else if (cnt != (nobs & 15) + 2) n_gap++;
    }
    for (size_t o = 11; o + 17 <= m.p.size(); o += 17) {
      Ob x = get_ob(m.p, o);
      if (!(x.flags & F_CODE) || (x.flags & F_RAIM)) continue;
      if (!valid_sid(x) || (cons_of(x.code) == GLO && !k.leap_known)) continue;
      if (buf.size() >= 210) { n_full++; break; }
      buf.push_back(x);
    }
    wn = w; tow = t; nobs = n;
    if (cnt == size) flush(out);
  }
  static std::string same(const Bytes &a, const Bytes &b) { return a == b ? "" : "payload " + hex(a, 200) + ", expected " + hex(b, 200); }
  void exact(std::vector<Exp> &out, int num, const Bytes &want) { out.push_back({num, [want](const Bytes &pay) { return same(pay, want); }}); }
  // raw ephemerides the plan made: SBP payload -> RTCM payload and mask of carried bits
  std::map<Bytes, std::pair<Bytes, Bytes>> ephs;

  std::vector<Exp> step(const In &m) {
    std::vector<Exp> out;
    size_t n = m.p.size();
    int stn = m.sender & 0xFFF;
    if (m.type == M_OBS) obs(m, out);
    else if (m.type == M_POS && n >= 24) {
      double x[3] = {rdd(m.p, 0), rdd(m.p, 8), rdd(m.p, 16)};
      int anth = k.ant ? k.anth : 0;
      out.push_back({1006, [=](const Bytes &pay) -> std::string {
        BitR r(pay); r.u(12);
        if ((int)r.u(12) != stn) return "station";
        if (r.u(6) != 0) return "ITRF year";
        r.u(4);
        int64_t v[3]; v[0] = r.s(38); r.u(2); v[1] = r.s(38); r.u(2); v[2] = r.s(38);
        for (int i = 0; i < 3; i++) if (fabs(x[i]) < 13743895.0 && fabs((double)v[i] - x[i] * 1e4) > 0.51) return fmt("coordinate %lld, sent %.5f m", (long long)v[i], x[i]);
        int h = (int)r.u(16);
        if (h != anth) return fmt("antenna height %d", h);
        if (!r.ok || pay.size() != 21) return "length";
        return "";
      }});
      if (k.ant) {
        BitW a; a.u(1008, 12); a.u((uint64_t)stn, 12); a.u(k.antd.size(), 8); for (char ch : k.antd) a.u((uint8_t)ch, 8); a.u(0, 16);
        exact(out, 1008, a.b);
        BitW b; b.u(1033, 12); b.u((uint64_t)stn, 12); b.u(k.antd.size(), 8); for (char ch : k.antd) b.u((uint8_t)ch, 8); b.u(0, 16);
        b.u(k.rcvd.size(), 8); for (char ch : k.rcvd) b.u((uint8_t)ch, 8); b.u(0, 16);
        exact(out, 1033, b.b);
      }
    } else if (m.type == M_GLOB && n >= 9 && k.mode != 3) {
      BitW b; b.u(1230, 12); b.u((uint64_t)stn, 12); b.u(0, 4); b.u(m.p[0] & 15, 4);
      for (size_t i = 0; i < 4; i++) if (m.p[0] & (8 >> i)) b.u(rd(m.p, 1 + 2 * i, 2), 16);
      exact(out, 1230, b.b);
    } else if (m.type == M_LOG && n >= 2) {
      BitW b; b.u(1029, 12); b.u((uint64_t)stn, 12); b.u(0, 16); b.u(0, 17); b.u(0, 7); b.u(n - 1, 8);
      for (size_t i = 1; i < n; i++) b.u(m.p[i], 8);
      exact(out, 1029, b.b);
    } else if (is_wrap(m.type)) {
      BitW b; b.u(4062, 12); b.u(0, 4); b.u((uint64_t)m.type, 16); b.u((uint64_t)m.sender, 16); b.u(n, 8);
      for (uint8_t x : m.p) b.u(x, 8);
      exact(out, 4062, b.b);
    } else if (m.type == M_EGPS || m.type == M_EGLO || m.type == M_EBDS || m.type == M_EGAL) eph(m, out);
    return out;
  }
  void eph(const In &m, std::vector<Exp> &out) {
    size_t need = m.type == M_EGPS ? 139 : m.type == M_EGLO ? 92 : m.type == M_EBDS ? 147 : 153;
    if (m.p.size() < need) return;
    int sat = m.p[0], code = m.p[1];
    int c = m.type == M_EGPS ? GPS : m.type == M_EGLO ? GLO : m.type == M_EBDS ? BDS : GAL;
    int num = c == GPS ? 1019 : c == GLO ? 1020 : c == BDS ? 1042 : m.p[152] == 0 ? 1046 : 1045;
    static const int aux[] = {GPS, SBS, GAL, QZS, BDS};  // auxiliary antennas
    bool ok = (code >= 59 && code <= 63 ? aux[code - 59] : cons_of(code)) == c && sat >= 1 && sat <= nsats(c) && !(c == GAL && m.p[152] > 1) && !(c == BDS && code != 12 && code != 13);
    if (!ok) return;
    size_t len = num == 1019 ? 61 : num == 1020 ? 45 : num == 1042 ? 64 : num == 1045 ? 62 : 63;
    auto it = ephs.find(Bytes(m.p.begin(), m.p.begin() + (long)need));
    Bytes want, mask;
    if (it != ephs.end() && !(c == GLO && (!k.leap_known || k.leap != 18))) { want = it->second.first; mask = it->second.second; }
    out.push_back({num, [=](const Bytes &pay) -> std::string {
      if (pay.size() != len) return fmt("length %zu, expected %zu", pay.size(), len);
      BitR r(pay); r.u(12);
      int s = (int)r.u(6);
      if (s != (sat & 63)) return fmt("satellite %d, expected %d", s, sat);
      for (size_t i = 0; i < want.size() && i < pay.size(); i++)
        if ((pay[i] ^ want[i]) & mask[i]) return fmt("at bit %zu: payload ", i * 8) + hex(pay, 200) + ", expected " + hex(want, 200);
      return "";
    }});
  }
};
// A message of no fixed meaning for ephemerides with fields out of range is only
// judged by number, length and satellite.

// ---------- ephemeris generation ----------
struct BitM : BitW { BitW m; void put(uint64_t v, int bits, bool carried = true) { u(v & (bits == 64 ? ~0ull : (1ull << bits) - 1), bits); m.u(carried ? ~0ull : 0, bits); } };
int glo_tod_s(const GT &t, int leap) { int64_t x = ((int64_t)floor(t.tow) + 10800 - leap) % 86400; return (int)(x < 0 ? x + 86400 : x); }
BitM raw_eph(int num, GT t, int sat, uint64_t seed) {
  Rng r(seed);
  BitM w;
  auto rnd = [&](int bits) { w.put(r.next(), bits); };
  auto sm = [&](int bits) { int64_t lim = (1ll << (bits - 1)) - 1, v = r.range(-lim, lim); w.put(v < 0 ? 1 : 0, 1); w.put((uint64_t)(v < 0 ? -v : v), bits - 1); };
  w.put((uint64_t)num, 12);
  if (num == 1020) {
    w.put((uint64_t)sat, 6); w.put(r.below(14), 5); w.put(0, 2, false);
    w.put(r.below(3), 2); w.put(0, 12, false);
    int bad = r.chance(0.2);
    w.put((uint64_t)bad, 1); w.put(0, 1, false);
    w.put((uint64_t)glo_tod_s(t, 18) / 900, 7);
    for (int i = 0; i < 3; i++) { sm(24); sm(27); sm(5); }
    w.put(0, 1, false); sm(11); w.put(0, 2, false); w.put((uint64_t)bad, 1, false); sm(22); sm(5); w.put(0, 5, false); w.put(0, 1, false); rnd(4); w.put(0, 11, false); w.put(0, 2, false);
    w.put(0, 1, false); w.put(0, 11, false); w.put(0, 32, false); w.put(0, 5, false); w.put(0, 22, false); w.put(0, 1, false); w.put(0, 7, false);
    return w;
  }
  int hb = num == 1042 ? 1 : num == 1045 ? 3 : 6;
  uint64_t health = r.chance(0.7) ? 0 : r.below(1ull << hb);
  int res = num == 1019 ? 16 : num == 1042 ? 8 : 60;
  int wn = t.wn;
  int64_t tow = (int64_t)t.tow;
  if (num == 1042) { tow -= 14; if (tow < 0) { tow += 604800; wn--; } }
  uint64_t top = 604800 / (uint64_t)res;
  // toe 0 half a week away would change its week while the run goes on
  bool zero = r.chance(0.05) && std::abs(tow - 302400) > 40000;
  if (zero && tow > 302400) wn++;
  uint64_t toe = zero ? 0 : (uint64_t)tow / (uint64_t)res, toc = r.chance(0.7) ? toe : (toe + r.below(top / 100)) % top;
  if (toc < toe) toc = toe;
  int iodc = (int)r.below(num == 1019 ? 1024 : num == 1042 ? 32 : 1024), iode = r.chance(0.9) ? iodc & 0xFF : (int)r.below(256);
  int cw = num == 1042 ? 18 : 16;
  if (num == 1019) { w.put((uint64_t)sat, 6); w.put((uint64_t)wn % 1024, 10); w.put(r.below(15), 4); w.put(1, 2, false); rnd(14); w.put((uint64_t)iode, 8); w.put(toc, 16); rnd(8); rnd(16); rnd(22); w.put((uint64_t)iodc, 10); }
  else if (num == 1042) { w.put((uint64_t)sat, 6); w.put((uint64_t)(wn - 1356), 13, toe != 0); w.put(r.below(15), 4); rnd(14); rnd(5); w.put(toc, 17, toc != 0); rnd(11); rnd(22); rnd(24); rnd(5); }
  else { w.put((uint64_t)sat, 6); w.put((uint64_t)(wn - 1024), 12); w.put((uint64_t)iodc, 10); w.put(r.below(126), 8); rnd(14); w.put(toc, 14); rnd(6); rnd(21); rnd(31); }
  rnd(cw); rnd(16); rnd(32); rnd(cw); rnd(32); rnd(cw); rnd(32);
  // the time of ephemeris stands where 1019 and 1042 have it
  // the start of a BeiDou week may also be written as the end of the previous one (test_strs_19 pins it)
  w.put(toe, num >= 1045 ? 14 : num == 1042 ? 17 : 16, num != 1042 || toe != 0);
  rnd(cw); rnd(32); rnd(cw); rnd(32); rnd(cw); rnd(32); rnd(24);
  if (num == 1019) { rnd(8); w.put(health, 6); w.put(0, 1, false); w.put(r.chance(0.3), 1); }
  else if (num == 1042) { rnd(10); rnd(10); w.put(health, 1); }
  else if (num == 1045) { rnd(10); w.put(health, 3); w.put(0, 7, false); }
  else { rnd(10); rnd(10); w.put(health, 6); w.put(0, 2, false); }
  return w;
}
// The SBP message that carries it (by the reference model of the other direction).
Bytes enc_flds(const std::vector<Fld> &f) {
  Bytes b;
  for (auto &x : f) {
    if (x.t == 'f') lef(b, (float)x.v);
    else if (x.t == 'd') { double d = x.v; uint64_t u; memcpy(&u, &d, 8); le(b, u, 8); }
    else le(b, (uint64_t)x.i, x.n);
  }
  return b;
}
bool eph_to_sbp(const Bytes &raw, GT t, int *type, Bytes *p) {
  RtcmModel m; RtcmOpt o; o.t0ref = t; o.useobs = true;
  m.init(o);
  m.frame(raw);
  if (m.unknown || m.out.empty()) return false;
  *type = m.out.back().type; *p = enc_flds(m.out.back().f);
  return true;
}

// ---------- the plan ----------
std::vector<Ob> obs_list(uint64_t seed, int n, int style, const Cfg &k) {
  Rng r(seed);
  std::vector<Ob> v;
  static const std::vector<int> codes[6] = {{0, 1, 5, 6, 7, 8, 9, 10, 11, 56, 57, 58}, {3, 4, 29, 30}, {14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28}, {12, 13, 47, 48, 49, 44, 45, 46, 50, 53, 54, 55}, {2, 41, 42, 43}, {31, 32, 33, 34, 35, 36, 37, 38, 39, 40}};
  static const std::vector<int> common[6] = {{0, 7, 11}, {3, 4}, {16, 22}, {12, 13, 49}, {2}, {31, 36}};
  std::vector<int> cons;
  for (int c = 0; c < 6; c++) if (r.chance(c < 4 ? 0.7 : 0.25)) cons.push_back(c);
  if (cons.empty()) cons.push_back((int)r.below(4));
  if (style == 2 && std::find(cons.begin(), cons.end(), (int)GPS) == cons.end()) cons.push_back(GPS);  // round trip
  if (style == 0 && r.chance(0.06)) cons = {r.chance(0.8) ? (int)GPS : (int)GLO};
  if (style == 2) cons.erase(std::remove_if(cons.begin(), cons.end(), [](int c) { return c > 3; }), cons.end());
  std::set<std::pair<int, int>> used;
  bool rich = r.chance(0.25), arb = r.chance(0.15), clean = r.chance(0.5);
  std::map<int, std::set<int>> csat, ccode;
  std::map<std::pair<int, int>, std::pair<double, double>> ranges;
  int guard = 0;
  bool gpsfirst = style == 2;
  while ((int)v.size() < n && guard++ < 4000) {
    int c = gpsfirst ? GPS : cons[r.below(cons.size())];
    gpsfirst = false;
    int sat = first_prn(c) + (int)r.below((uint64_t)nsats(c));
    if (style == 2 && c == BDS && sat == 64) continue;
    double base = c == SBS || (c == BDS && sat <= 5) ? r.unit() * 4e6 + 35e6 : r.unit() * 6e6 + 19e6, rate = (r.unit() - 0.5) * 1600;
    if (!ranges.count({c, sat}) || (style != 2 && r.chance(0.3))) ranges[{c, sat}] = {base, rate};
    base = ranges[{c, sat}].first; rate = ranges[{c, sat}].second;
    int ns = 1 + (int)r.below(3);
    for (int i = 0; i < ns && (int)v.size() < n; i++) {
      int code = rich ? codes[c][r.below(codes[c].size())] : common[c][(size_t)i % common[c].size()];
      if (style == 2 && ((c == GLO && code > 4) || (c == BDS && code >= 44 && code != 47 && code != 48 && code != 49))) continue;
      if (used.count({sat, code})) continue;
      if (style == 2) {
        auto ss = csat[c]; auto cc = ccode[c]; ss.insert(sat); cc.insert(code);
        if (ss.size() * cc.size() > 64) continue;
        csat[c] = ss; ccode[c] = cc;
      }
      used.insert({sat, code});
      Ob o{};
      int fc = c == GLO ? k.fcn[sat] : -1;
      double f = freq_of(code, fc); if (f <= 0) f = c == GLO ? 1602e6 : 1575.42e6;
      double P = base + (r.unit() - 0.5) * 100;
      if (style != 2 && r.chance(0.02)) P += (r.unit() - 0.5) * 1000;
      o.P = (uint32_t)(P * 50);
      double L = base / (CLIGHT / f) + (r.unit() - 0.5) * 400;
      if (arb) L = (r.unit() - 0.5) * 2e8;
      else if (r.chance(0.02)) L += (r.unit() - 0.5) * 1e4;
      o.Li = (int32_t)floor(L); o.Lf = (int)((L - floor(L)) * 256);
      double D = -(rate + (r.unit() - 0.5) * (r.chance(0.05) ? 6 : 1)) / (CLIGHT / f);
      o.Di = (int)floor(D); o.Df = (int)((D - floor(D)) * 256);
      o.cn0 = r.chance(0.03) ? (int)r.below(256) : 80 + (int)r.below(140);
      o.lock = (int)r.below(16);
      o.flags = 15;
      if (r.chance(0.1)) o.flags &= ~F_PHASE;
      if (r.chance(0.1)) o.flags &= ~F_HALF;
      if (r.chance(0.1)) o.flags &= ~F_DOP;
      if (r.chance(0.06)) o.flags &= ~F_CODE;
      if (!clean && r.chance(0.06)) o.flags |= F_RAIM;
      o.sat = sat; o.code = code;
      v.push_back(o);
      if (style == 1 && r.chance(0.3)) {
        Ob &q = v.back();
        switch (r.below(9)) {
          case 0: q.sat = (int)r.below(256); break;
          case 1: q.code = (int)r.below(r.chance(0.3) ? 256 : 66); break;
          case 2: q.P = (uint32_t)r.next(); break;
          case 3: q.Li = (int32_t)r.next(); q.Lf = (int)r.below(256); break;
          case 4: q.Di = (int)r.range(-32768, 32767); break;
          case 5: q.lock = (int)r.below(256); q.cn0 = (int)r.below(256); break;
          case 6: q.flags = (int)r.below(256); break;
          case 8: {  // phase range minus pseudorange at the end of its field, some roll-overs away
            double l1P = q.P;
            for (auto &x : v) if (x.sat == q.sat) { l1P = x.P; break; }
            double lam = CLIGHT / f, x = (l1P * 0.02 + (r.chance(0.5) ? 262.144 : -262.144)) / lam + 1500.0 * (double)r.range(-4, 4) + (double)r.range(-2, 2) / 256;
            q.Li = (int32_t)floor(x); q.Lf = (int)((x - floor(x)) * 256); break;
          }
          case 7: if (v.size() > 1) { q.sat = v[v.size() - 2].sat; q.code = v[v.size() - 2].code; } break;
        }
      }
    }
  }
  if (r.chance(0.2)) for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}
Bytes obs_payload(int64_t tow, int wn, int total, int idx, const std::vector<Ob> &v, size_t from, size_t n) {
  Bytes b;
  le(b, (uint64_t)tow, 4); le(b, 0, 4); le(b, (uint64_t)wn, 2); b.push_back((uint8_t)(total << 4 | idx));
  for (size_t i = 0; i < n && from + i < v.size(); i++) put_ob(b, v[from + i]);
  return b;
}
struct Built {
  Cfg k; Link l; Delivery d; Bytes s;
  std::map<Bytes, std::pair<Bytes, Bytes>> ephs;
  std::vector<Op> rf, conv;
  double t0 = 1e300, t1 = -1e300;
};
void build(const Plan &p, Built &B, Ctx *c) {
  B.l.c = c; B.l.sync = {0x55};
  for (auto &op : p.ops) {
    const std::string &k = op.k;
    if (k == "cfg") {
      B.k.mode = (int)op.arg(0); B.k.msm = (int)op.arg(1); B.k.clock = op.arg(2); B.k.leap_known = op.arg(3); B.k.leap = (int)op.arg(4);
      B.k.ant = op.arg(5) & 1; B.k.anth = (int)op.arg(6);
      if (B.k.ant) {
        Rng r((uint64_t)op.arg(7));
        auto str = [&](std::string &s) { size_t n = r.chance(0.2) ? 31 : r.below(32); for (size_t i = 0; i < n; i++) s.push_back((char)(33 + r.below(94))); };
        if (op.arg(5) & 2) { str(B.k.antd); str(B.k.rcvd); }
      }
      continue;
    }
    if (k == "fcn") { int s = (int)op.arg(0); if (s >= 1 && s <= 28) B.k.fcn[s] = (int)op.arg(1) >= 1 && op.arg(1) <= 14 ? (int)op.arg(1) - 1 : -1; continue; }
    if (k == "rf") { B.rf.push_back(op); continue; }
    if (k == "wl" || k == "nofail" || k == "other") { B.conv.push_back(op); continue; }
    if (B.d.take(op) || B.l.take(op)) continue;
    Rng r((uint64_t)op.arg(op.a.empty() ? 0 : op.a.size() - 1));
    int type = 0, sender = (int)op.arg(0) & 0xFFFF;
    Bytes pay;
    if (k == "pk") {  // sender wn tow total idx n style delta seed
      int64_t tow = op.arg(2); int total = (int)op.arg(3) & 15, idx = (int)op.arg(4) & 15;
      auto v = obs_list((uint64_t)op.arg(8), 14 * std::max(total, 1), (int)op.arg(6), B.k);
      size_t n = (size_t)std::min<int64_t>(std::max<int64_t>(op.arg(5), 0), 14);
      pay = obs_payload(tow, (int)op.arg(1), total, idx, v, 14 * (size_t)idx, n);
      int64_t want = (int64_t)pay.size() + op.arg(7);
      if (want < 0) want = 0;
      if (want > 255) want = 255;
      while ((int64_t)pay.size() < want) pay.push_back((uint8_t)r.below(256));
      pay.resize((size_t)want);
      type = M_OBS;
      if (tow < WEEKMS) { double s = (double)op.arg(1) * 604800 + (double)tow / 1000; if (fabs(s) < 4e9) { B.t0 = std::min(B.t0, s); B.t1 = std::max(B.t1, s); } }
    } else if (k == "pos") {
      type = M_POS;
      for (int i = 0; i < 3; i++) {
        double d = r.chance(0.9) ? (r.unit() - 0.5) * 2 * 6.4e6 : (r.unit() - 0.5) * 2 * 13.7e6;
        if (op.arg(1) && r.chance(0.2)) d = (r.unit() - 0.5) * 1e9;
        uint64_t u; memcpy(&u, &d, 8); le(pay, u, 8);
      }
    } else if (k == "glob") {
      type = M_GLOB;
      pay.push_back((uint8_t)(r.chance(0.8) ? r.below(16) : r.below(256)));
      for (int i = 0; i < 8; i++) pay.push_back((uint8_t)r.below(256));
    } else if (k == "log") {
      type = M_LOG; pay.push_back((uint8_t)r.below(8));
      for (int64_t i = 0; i < std::min<int64_t>(op.arg(1), 254); i++) pay.push_back((uint8_t)(r.chance(0.9) ? 32 + r.below(95) : r.below(256)));
    } else if (k == "wrap") {
      type = WRAP[(size_t)op.arg(1) % 7];
      for (int64_t i = 0; i < std::min<int64_t>(op.arg(2), 255); i++) pay.push_back((uint8_t)r.below(256));
    } else if (k == "eph") {  // sender num wn tow sat seed
      GT t; t.wn = 1940 + (int)(((op.arg(2) - 1940) % 950 + 950) % 950); t.tow = (double)op.arg(3);  // weeks the other direction resolves to themselves
      BitM raw = raw_eph((int)op.arg(1), t, (int)op.arg(4), (uint64_t)op.arg(5));
      if (!eph_to_sbp(raw.b, t, &type, &pay)) continue;
      B.ephs[pay] = {raw.b, raw.m.b};
    } else if (k == "rawm") {  // sender type len seed: any payload
      type = (int)op.arg(1);
      bool sane = r.chance(0.7);
      for (int64_t i = 0; i < std::min<int64_t>(op.arg(2), 255); i++) pay.push_back((uint8_t)(r.chance(0.2) ? 0 : r.below(256)));
      if (sane && pay.size() > 2) {
        static const int cd[] = {0, 3, 12, 14, 255, 1, 13, 44, 4};
        pay[0] = (uint8_t)r.below(40);
        pay[1] = (uint8_t)(r.chance(0.7) ? (type == M_EGPS ? 0 : type == M_EGLO ? 3 : type == M_EBDS ? 12 : 14) : cd[r.below(9)]);
        if (type == M_EGAL && pay.size() > 152) pay[152] = (uint8_t)r.below(3);
      }
      if (c) c->fault("message of arbitrary content or length");
    } else continue;
    B.l.push(frame_sbp((uint16_t)type, (uint16_t)sender, pay));
  }
  B.s = B.l.finish();
}

// ---------- running ----------
jmp_buf over;
int trd(uint8_t *b, uint32_t n, void *c) {
  int64_t k = ((IO *)c)->read(b, n);
  if (k < 0) longjmp(over, 2);
  if (n > 0 && k == 0) longjmp(over, 1);
  return (int)k;
}
int twr(uint8_t *b, uint16_t n, void *c) {
  int64_t k = ((IO *)c)->write(b, n);
  if (k < n) longjmp(over, 2);
  return (int)k;
}
int prd(uint8_t *b, uint32_t n, void *c) { return (int)((IO *)c)->read(b, n); }
int pwr(uint8_t *b, uint16_t n, void *c) { return (int)((IO *)c)->write(b, n); }
Entry tool_entry(const Cfg &k) {
  return [k](IO &io) {
    quiet_stderr();
    sim_clock = k.clock;
    std::string n = "sbp2rtcm";
    char *v[] = {&n[0], nullptr};
    int j = setjmp(over);
    if (j) return j - 1;
    return sbp2rtcm_main(1, v, "", trd, twr, &io);
  };
}
s32 awr(u8 *b, u16 n, void *c) { return (s32)((IO *)c)->write(b, n); }
void call(struct rtcm3_out_state *st, const In &m) {
  uint8_t *x = (uint8_t *)malloc(m.p.size() ? m.p.size() : 1);
  if (!m.p.empty()) memcpy(x, m.p.data(), m.p.size());
  u16 s = (u16)m.sender; u8 n = (u8)m.p.size();
  switch (m.type) {
    case M_OBS: sbp2rtcm_sbp_obs_cb(s, n, x, st); break;
    case M_POS: sbp2rtcm_base_pos_ecef_cb(s, n, x, st); break;
    case M_GLOB: sbp2rtcm_glo_biases_cb(s, n, x, st); break;
    case M_LOG: sbp2rtcm_sbp_log_cb(s, n, x, st); break;
    case M_EGPS: sbp2rtcm_sbp_gps_eph_cb(s, n, x, st); break;
    case M_EGLO: sbp2rtcm_sbp_glo_eph_cb(s, n, x, st); break;
    case M_EBDS: sbp2rtcm_sbp_bds_eph_cb(s, n, x, st); break;
    case M_EGAL: sbp2rtcm_sbp_gal_eph_cb(s, n, x, st); break;
    case 0x640: sbp2rtcm_sbp_osr_cb(s, n, x, st); break;
    case 0x5DD: sbp2rtcm_sbp_ssr_orbit_clock_cb(s, n, x, st); break;
    case 0x5E1: sbp2rtcm_sbp_ssr_code_biases_cb(s, n, x, st); break;
    case 0x5E6: sbp2rtcm_sbp_ssr_phase_biases_cb(s, n, x, st); break;
    case 0x5FA: sbp2rtcm_sbp_ssr_gridded_correction_cb(s, n, x, st); break;
    case 0x5F5: sbp2rtcm_sbp_ssr_grid_definition_cb(s, n, x, st); break;
    case 0x5FB: sbp2rtcm_sbp_ssr_stec_correction_cb(s, n, x, st); break;
  }
  free(x);
}
void setup(struct rtcm3_out_state *st, const Cfg &k, IO *io) {
  sbp2rtcm_init(st, awr, io);
  if (k.leap_known) sbp2rtcm_set_leap_second((s8)k.leap, st);
  if (k.msm != 5) sbp2rtcm_set_rtcm_out_mode(k.msm == 4 ? MSM4 : MSM_UNKNOWN, st);
  for (int i = 1; i <= 28; i++) if (k.fcn[i] >= 0) { sbp_gnss_signal_t sid; sid.sat = (u8)i; sid.code = 3; sbp2rtcm_set_glo_fcn(sid, (u8)(k.fcn[i] + 1), st); }
  if (k.ant) { sbp2rtcm_set_ant_height(k.anth / 10000.0, st); if (!k.antd.empty() || !k.rcvd.empty()) sbp2rtcm_set_rcv_ant_descriptors(k.antd.c_str(), k.rcvd.c_str(), st); }
}
Entry api_entry(const Cfg &k, const std::vector<In> &in) {
  return [k, in](IO &io) {
    quiet_stderr();
    struct rtcm3_out_state *st = (struct rtcm3_out_state *)io.state(0, sizeof *st);
    setup(st, k, &io);
    uint64_t ev[2] = {0, 0};
    io.rec('R', ev, 16);
    for (auto &m : in) { call(st, m); ev[0] = m.end; ev[1] = io.outlen; io.rec('R', ev, 16); }
    return 0;
  };
}
// as a program whose reads and writes return what happened and do not exit
Entry plain_entry(const Cfg &k) {
  return [k](IO &io) {
    quiet_stderr();
    sim_clock = k.clock;
    std::string n = "sbp2rtcm";
    char *v[] = {&n[0], nullptr};
    return sbp2rtcm_main(1, v, "", prd, pwr, &io);
  };
}
// the callbacks, fed from the stream read frame by frame
Entry stream_entry(const Cfg &k) {
  return [k](IO &io) {
    quiet_stderr();
    struct rtcm3_out_state *st = (struct rtcm3_out_state *)io.state(0, sizeof *st);
    setup(st, k, &io);
    auto in = deframe_sbp(io.p.in);
    for (auto &m : in) { io.pause(); call(st, m); }
    return 0;
  };
}
std::vector<size_t> out_at(const ToolRun &r, const std::vector<In> &in) {
  std::vector<size_t> v;
  size_t j = 0;
  for (auto &m : in) {
    while (j < r.reads.size() && r.reads[j].delivered < m.end) j++;
    v.push_back(j < r.reads.size() ? r.reads[j].out : r.out.size());
  }
  return v;
}
std::string rtcm_diff(const Bytes &a, const Bytes &b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  auto fb = rtcm_deframe(b);
  std::string w;
  for (auto &f : fb) if (f.at <= i && i < f.end) w = fmt(" in frame %d", f.pay.size() > 1 ? f.pay[0] << 4 | f.pay[1] >> 4 : 0);
  return fmt("%zu bytes instead of %zu, first difference at byte %zu", a.size(), b.size(), i) + w;
}

struct SbpRtcmHarness : Harness {
  const char *name() override { return "sbprtcm"; }
  std::vector<std::string> properties() override { return {"C16", "C17", "C18"}; }
  std::string rule(const std::string &F) override {
    if (F == "C18") return "seeded SBP traffic through the buffered interface with output buffers and drain calls of any size, several converters in turn and failing allocations; a history counts as distinct by the hash of its sequence of message kinds, faults and buffer sizes";
    if (F == "C17") return "a seeded reference station sends SBP observations, ephemerides, position, biases and text through sbp2rtcm, a link that loses, duplicates, delays, corrupts and splices RTCM frames and then recovers, and rtcm3tosbp; a history counts as distinct by the hash of its sequence of message kinds and link faults";
    return "seeded senders emit observation sequences and other SBP messages over a link that loses, duplicates, delays, corrupts, truncates and splices them, in every output mode, delivered in arbitrary reads with read errors; a history counts as distinct by the hash of its sequence of message kinds, faults and delivery";
  }
  std::vector<std::string> real_components() override { return {"sbp2rtcm", "gnss_converters_extra sbp_rtcm3, sbp_rtcm3_ephemeris, sbp_conv", "librtcm encoder", "rtcm3tosbp with gnss_converters rtcm3_sbp and librtcm decoder (C17)"}; }
  std::vector<std::string> stub_components() override { return {"libsbp, libswiftnav (stand-ins)", "input stream and output sink (simulated)", "system clock (simulated)", "memory allocator (failures injected)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override { return (o.k == "pk" && (i == 5 || i == 7)) || (o.k == "log" && i == 1) || (o.k == "wrap" && i == 2) || (o.k == "garb" && i == 0) || (o.k == "rawm" && i == 2); }

  Plan gen(uint64_t seed, const std::string &F) override {
    Rng r(seed);
    Plan p; p.focus = F; p.seed = seed;
    bool trip = F == "C17", conv = F == "C18";
    int mode = conv ? 2 : r.chance(trip ? 0.2 : 0.35) ? 0 : 1;
    int msm = mode == 1 ? (trip ? (r.chance(0.75) ? 5 : 4) : r.chance(0.4) ? 5 : r.chance(0.5) ? 4 : 0) : 5;
    int64_t clock = CLOCKS[r.below(sizeof CLOCKS / sizeof *CLOCKS)];
    if (trip) clock = 1600000000;
    bool lk = mode != 1 || trip || r.chance(0.9);
    int leap = mode == 1 && !trip ? (r.chance(0.7) ? 18 : (int)r.range(-2, 25)) : clock_leap(clock);
    bool ant = mode == 1 && !trip && r.chance(0.3);
    FaultGen g(r, p, !trip && r.chance(0.6), conv ? 0.3 : trip ? 0.0 : 0.75);
    p.ops.push_back(Op("cfg", {mode, msm, clock, lk, leap, ant ? 1 + 2 * (int64_t)r.chance(0.7) : 0, r.chance(0.1) ? 65535 : (int64_t)r.below(65536), g.sd()}));
    if (mode == 1 && r.chance(0.9)) for (int s = 1; s <= 28; s++) if (trip || r.chance(0.85)) p.ops.push_back(Op("fcn", {s, r.chance(0.95) ? r.range(1, 14) : trip ? 8 : r.range(0, 20)}));
    g.chunk();
    if (!trip && r.chance(0.5)) p.ops.push_back(Op("rerr", {(int64_t)r.below(1000)}));
    int wn = (int)r.range(trip ? 1945 : 1300, 2500);
    if (wn < 1935 && !trip && r.chance(0.5)) wn = 2200;
    int64_t tow = r.chance(0.25) ? WEEKMS - 1000 * r.range(1, 10) : r.chance(0.2) ? 1000 * r.range(0, 20) : r.range(0, WEEKMS - 1);
    int64_t step = r.chance(0.6) ? 1000 : r.chance(0.5) ? 100 : r.range(1, 20000);
    if (r.chance(0.12)) tow = ((r.chance(0.5) ? 7 : r.range(0, 6)) * 86400000 - 10800000 + leap * 1000 - step * r.range(0, 3) + WEEKMS) % WEEKMS;  // around a GLONASS day or week
    else tow -= tow % (step == 1000 || step == 100 ? step : 1);
    if (trip && tow == 0) tow = step;
    std::vector<int> senders = {(int)r.below(65536)};
    if (!trip && r.chance(0.4)) senders.push_back((int)r.below(65536));
    if (!trip && r.chance(0.2)) senders.push_back((senders[0] & 0xFFF) | 0xA000);
    if (!trip && r.chance(0.06)) senders[r.below(senders.size())] = 0;
    int n = (int)r.range(2, conv ? 14 : 22);
    bool odd = !trip && r.chance(0.35);
    auto side = [&](bool mid) {
      int s = senders[r.below(senders.size())];
      int kind = (int)r.weighted({3, 3, 2, 3, 5, trip || mid ? 0 : 1, odd ? 3 : 0});
      GT t; t.wn = wn; t.tow = (double)(tow / 1000);
      switch (kind) {
        case 0: g.push(Op("pos", {s, odd, g.sd()})); break;
        case 1: g.push(Op("glob", {s, g.sd()})); break;
        case 2: g.push(Op("log", {s, (int64_t)r.below(r.chance(0.3) ? 255 : 40), g.sd()})); break;
        case 3: g.push(Op("wrap", {s, (int64_t)r.below(7), (int64_t)r.below(r.chance(0.3) ? 256 : 60), g.sd()})); break;
        case 4: {
          static const int en[] = {1019, 1020, 1042, 1045, 1046};
          int num = en[r.below(5)], lim = num == 1019 ? 32 : num == 1020 ? 24 : num == 1042 ? 63 : 36;
          int sat = num == 1042 ? 6 + (int)r.below(58) : 1 + (int)r.below((uint64_t)lim);
          int64_t et = tow / 1000 + r.range(-600, 600);
          int ew = wn;
          if (et < 0) { et += 604800; ew--; }
          if (et >= 604800) { et -= 604800; ew++; }
          if (num == 1020) { et = et - et % 900; }
          g.push(Op("eph", {s, num, ew, et, sat, g.sd()}));
          break;
        }
        case 5: g.push(Op("rawm", {s, (int64_t)(r.chance(0.5) ? 0x102 : 0x200 + r.below(64)), (int64_t)r.below(40), g.sd()})); break;
        default: {
          static const int ty[] = {M_OBS, M_POS, M_GLOB, M_LOG, M_EGPS, M_EGLO, M_EBDS, M_EGAL, 0x640, 0x5DD};
          static const int ln[] = {45, 24, 9, 20, 139, 92, 147, 153, 30, 50};
          int i = (int)r.below(10);
          int len = r.chance(0.5) ? ln[i] : r.chance(0.5) ? (int)r.below((uint64_t)ln[i] + 1) : (int)r.below(256);
          g.push(Op("rawm", {s, ty[i], len, g.sd()}));
        }
      }
    };
    for (int e = 0; e < n; e++) {
      int sidx = (int)r.below(senders.size()) ? 1 % (int)senders.size() : 0;
      int s = senders[(size_t)sidx];
      int total = r.chance(0.5) ? 1 : r.chance(0.7) ? 1 + (int)r.below(4) : 1 + (int)r.below(15);
      if (trip) total = 1 + (int)r.below(4);
      int64_t sd = g.sd();
      int style = trip ? 2 : odd ? 1 : 0;
      int other = r.chance(0.06) && senders.size() > 1 ? senders[1 - (size_t)(sidx & 1)] : -1;
      for (int i = 0; i < total; i++) {
        int cnt = i + 1 == total && !(total == 15 && r.chance(0.5)) ? 1 + (int)r.below(14) : 14;
        int64_t delta = odd && r.chance(0.05) ? r.range(-40, 30) : 0, tt = tow;
        int ss = s;
        if (other >= 0 && i == total / 2) ss = other;
        if (odd && r.chance(0.02)) tt = r.chance(0.5) ? WEEKMS + r.range(0, 1000000) : (int64_t)(r.next() & 0xFFFFFFFF);
        if (odd && r.chance(0.02)) { g.push(Op("pk", {ss, wn, tt, (int64_t)r.below(16), (int64_t)r.below(16), (int64_t)r.below(15), style, delta, sd})); continue; }
        g.push(Op("pk", {ss, wn, tt, total, i, cnt, style, delta, sd}));
        if (r.chance(0.06)) side(true);
      }
      int k = r.chance(0.4) ? 1 + (int)r.below(3) : 0;
      while (k--) side(false);
      tow += step;
      if (!trip && r.chance(0.04)) tow += r.range(0, 600000);
      if (!trip && r.chance(0.02)) tow -= r.range(0, 5000);
      if (tow < 0) tow = 0;
      while (tow >= WEEKMS) { tow -= WEEKMS; wn++; }
    }
    if (trip && r.chance(0.75)) {
      int m = (int)r.range(1, 12);
      int64_t hi = 200 + (int64_t)r.below(700);
      for (int i = 0; i < m; i++) p.ops.push_back(Op("rf", {(int64_t)r.below((uint64_t)hi), (int64_t)r.below(6), (int64_t)r.below(4), (int64_t)r.below(9000), (int64_t)r.below(1000)}));
    }
    if (conv) {
      p.ops.push_back(Op("wl", {(int64_t)r.below(4), (int64_t)r.below(5), g.sd()}));
      if (r.chance(0.3)) p.ops.push_back(Op("nofail", {(int64_t)r.below(3)}));
      if (r.chance(0.4)) p.ops.push_back(Op("other", {g.sd()}));
    }
    return p;
  }

  // every byte of out belongs to a frame; frames per message
  bool segments(Ctx &c, const char *prop, const Bytes &out, const std::vector<In> &in, const std::vector<size_t> &at, std::vector<std::vector<RFrame>> &fr) {
    size_t from = 0;
    for (size_t i = 0; i < in.size(); i++) {
      Bytes seg(out.begin() + (long)from, out.begin() + (long)at[i]);
      auto f = rtcm_deframe(seg);
      size_t covered = 0;
      for (auto &x : f) { if (x.at != covered) break; covered = x.end; }
      c.evals(1);
      if (covered != seg.size()) { c.violate(prop, "bytes written that are not a whole RTCM frame", fmt("message %zu (type 0x%x) at byte %zu of %s", i, in[i].type, covered, hex(seg, 120).c_str())); return false; }
      fr.push_back(f);
      from = at[i];
    }
    if (from != out.size()) { c.violate(prop, "bytes written after the last message", fmt("%zu bytes", out.size() - from)); return false; }
    return true;
  }

  void run_c16(Ctx &c, Built &B, const std::vector<In> &in) {
    Cfg k = B.k;
    if (k.mode == 0) { k.leap_known = true; k.leap = clock_leap(k.clock); k.msm = 5; for (int &x : k.fcn) x = -1; k.ant = false; }
    Entry en = k.mode == 0 ? tool_entry(k) : api_entry(k, in);
    ToolRun r = run_tool(c, B.d.io(B.s, RM_FULL), en);
    tool_crashes(c, r, k.mode == 0 ? "sbp2rtcm" : "conversion callbacks");
    c.log(r.out);
    if (r.bad()) return;
    std::vector<std::vector<RFrame>> fr;
    if (!segments(c, "C16", r.out, in, out_at(r, in), fr)) return;
    Model m; m.k = k; m.ephs = B.ephs;
    for (size_t i = 0; i < in.size(); i++) {
      auto ex = m.step(in[i]);
      auto what = [&](const RFrame &f) { return fmt("frame %d", f.pay[0] << 4 | f.pay[1] >> 4); };
      std::string desc = fmt("message %zu (type 0x%x sender 0x%04x, %s)", i, in[i].type, in[i].sender, k.mode == 0 ? "tool" : k.msm == 0 ? "legacy" : k.msm == 4 ? "MSM4" : "MSM5");
      for (size_t j = 0; j < std::max(ex.size(), fr[i].size()); j++) {
        c.evals(1);
        if (j >= fr[i].size()) { c.violate("C16", in[i].type == M_OBS ? "observations not written" : "message not converted", desc + fmt(": no frame %d", ex[j].num)); return; }
        if (j >= ex.size()) { c.violate("C16", in[i].type == M_OBS ? "observations written that no sequence explains" : "frame that no message explains", desc + ": " + what(fr[i][j])); return; }
        const Bytes &pay = fr[i][j].pay;
        int num = pay[0] << 4 | pay[1] >> 4;
        if (num != ex[j].num) { c.violate("C16", "another frame than due", desc + fmt(": frame %d, expected %d", num, ex[j].num)); return; }
        std::string w = ex[j].check(pay);
        if (!w.empty()) { c.violate("C16", fmt("content of frame %d", num), desc + ": " + w); return; }
        if (*m.glop) { *m.glop = 0; c.violate("C16", "GLONASS P code labelled C/A in a legacy message", desc); }
        c.probe(num >= 1070 && num < 1140 ? "MSM frames" : num == 1004 || num == 1012 ? "legacy frames" : num == 4062 ? "wrapped frames" : num == 1019 || num == 1020 || (num >= 1042 && num <= 1046) ? "ephemeris frames" : "other frames");
      }
    }
    c.probe("sequence ended by a newer or another sender's packet", (uint64_t)m.n_flush_early); c.probe("packet out of sequence", (uint64_t)m.n_dropped); c.probe("packet missing in sequence", (uint64_t)m.n_gap);
    c.probe("packet of the past", (uint64_t)m.n_past); c.probe("buffer full", (uint64_t)m.n_full); c.probe("more than 64 cells", (uint64_t)m.n_cells64); c.probe("observation twice", (uint64_t)m.n_dup); c.probe("sequences", (uint64_t)m.n_seq);
    if (k.mode == 0) {
      std::vector<Span> sp;
      for (auto &x : in) sp.push_back({x.at, x.end});
      if (!check_delivery(c, "C16", B.s, sp, B.l.dirty, B.d, en, nullptr, rtcm_diff)) return;
      if (B.l.dirty) check_containment(c, "C16", B.s, sp, B.d, en, nullptr, rtcm_diff);
    }
  }

  // ---- C17 ----
  struct Ep { int wn; int64_t tow; int sender; std::map<std::pair<int, int>, Ob> obs; size_t msg; int parts = 0, total = 0; };
  static std::string trip_eq(const Ob &a, const Ob &g, int type, int fcn) {
    if (llabs((int64_t)a.P - (int64_t)g.P) > 1) return fmt("pseudorange %u, sent %u", g.P, a.P);
    if (!(g.flags & F_CODE) || (g.flags & F_RAIM)) return fmt("flags %d", g.flags);
    double f = freq_of(a.code, fcn);
    bool ph = (a.flags & F_PHASE) && f > 0;
    int c = cons_of(a.code);
    bool nofcn = c == GLO && type == 4;
    if (!nofcn) {
      // a phase more than 1/256 ms from the rough range is left out of MSM
      double L = a.Li + a.Lf / 256.0, off = fabs(L * 1000 / (f > 0 ? f : 1e9) - a.P * 0.02 * 1000 / CLIGHT);
      if (ph && off < ldexp(1, -8) - ldexp(1, -10) && !(g.flags & F_PHASE)) return "phase lost";
      if (!ph && (g.flags & F_PHASE)) return "phase that was not sent";
      if (g.flags & F_PHASE) {
        if (fabs(L - (g.Li + g.Lf / 256.0)) > 0.00029 / (CLIGHT / f) + 1.0 / 256 + 1e-6) return fmt("phase %.5f, sent %.5f", g.Li + g.Lf / 256.0, L);
        if ((g.flags & F_HALF) != (a.flags & F_HALF)) return "half cycle flag";
      }
    }
    if (type == 5) {
      bool dp = (a.flags & F_DOP) && f > 0;
      if (!dp && (g.flags & F_DOP)) return "Doppler that was not sent";
      if (g.flags & F_DOP) {
        double D = a.Di + a.Df / 256.0, G = g.Di + g.Df / 256.0;
        if (fabs(D - G) > 0.000051 / (CLIGHT / f) + 1.0 / 256 + 1e-6) return fmt("Doppler %.5f, sent %.5f", G, D);
      }
    } else if (g.flags & F_DOP) return "Doppler in MSM4";
    if (abs(std::min(a.cn0, 252) - g.cn0) > 2) return fmt("C/N0 %d, sent %d", g.cn0, a.cn0);
    if (g.lock != a.lock) return fmt("lock %d, sent %d", g.lock, a.lock);
    return "";
  }
  void run_c17(Ctx &c, Built &B, const std::vector<In> &in, const Plan &p) {
    Cfg k = B.k;
    if (k.mode == 0) { k.leap_known = true; k.leap = clock_leap(k.clock); k.msm = 5; for (int &x : k.fcn) x = -1; k.ant = false; }
    Entry en = k.mode == 0 ? tool_entry(k) : api_entry(k, in);
    ToolRun r = run_tool(c, B.d.io(B.s, RM_FULL), en);
    tool_crashes(c, r, "sbp2rtcm");
    if (r.bad()) return;
    std::vector<std::vector<RFrame>> fr;
    if (!segments(c, "C16", r.out, in, out_at(r, in), fr)) return;
    // what was sent
    std::vector<Ep> ep; std::vector<int> epof(in.size(), -1);
    GT start; bool have = false;
    for (size_t i = 0; i < in.size(); i++) if (in[i].type == M_OBS) {
      const Bytes &q = in[i].p;
      Ep e; e.wn = (int)rd(q, 8, 2); e.tow = (int64_t)rd(q, 0, 4); e.sender = in[i].sender; e.msg = i;
      if (!have) { start.wn = e.wn; start.tow = (double)e.tow / 1000; have = true; }
      if (ep.empty() || ep.back().wn != e.wn || ep.back().tow != e.tow) ep.push_back(e);
      Ep &b = ep.back();
      int tot = q[10] >> 4, idx = q[10] & 15;
      if (b.parts < 0 || idx != b.parts || (b.parts && (tot != b.total || in[i].sender != b.sender))) b.parts = -1; else { b.parts++; b.total = tot; }
      b.msg = i;
      for (size_t o = 11; o + 17 <= q.size(); o += 17) { Ob x = get_ob(q, o); if ((x.flags & F_CODE) && !(x.flags & F_RAIM)) ep.back().obs[{x.sat, x.code}] = x; }
    }
    if (!have) { c.abandon("no epoch"); return; }
    // the link between
    Link l; l.c = &c; l.sync = {0xD3};
    std::vector<std::pair<size_t, Bytes>> frames;  // message index, frame
    for (size_t i = 0; i < in.size(); i++) for (auto &f : fr[i]) frames.push_back({i, rtcm_frame(f.pay)});
    std::map<size_t, std::vector<const Op *>> at;
    for (auto &op : B.rf) if (!frames.empty()) at[(size_t)op.arg(0) * frames.size() / 1000].push_back(&op);
    size_t last_msg = 0; bool faulty = false;
    for (size_t i = 0; i < frames.size(); i++) {
      l.push(frames[i].second);
      for (auto *op : at[i]) {
        static const char *nm[] = {"lose", "dup", "delay", "flip", "trunc", "splice"};
        int kd = (int)op->arg(1) % 6;
        std::vector<int64_t> a;
        if (kd == 1 || kd == 2) a = {op->arg(2)};
        else if (kd == 3) a = {op->arg(3)};
        else if (kd == 4) a = {op->arg(4)};
        else if (kd == 5) a = {op->arg(4), op->arg(3) % 1000};
        l.take(Op(nm[kd], a));
        faulty = true;
      }
    }
    Bytes link = l.finish();
    if (const char *dn = getenv("SIM_DUMP")) {  // for reading a replay
      FILE *ff = fopen(dn, "w");
      for (auto &f : frames) { for (uint8_t z : f.second) fprintf(ff, "%02x", z); fprintf(ff, " %zu\n", f.first); }
      fprintf(ff, "link ");
      for (uint8_t z : link) fprintf(ff, "%02x", z);
      fclose(ff);
    }
    if (faulty) {
      // back in step: the frames from which on nothing is lost, repeated or out of order
      link.insert(link.end(), 1100, 0);
      auto df = rtcm_deframe(link);
      size_t a = frames.size(), b = df.size();
      while (a && b && rtcm_frame(df[b - 1].pay) == frames[a - 1].second) { a--; b--; }
      last_msg = a ? frames[a - 1].first : 0;
    }
    std::vector<std::string> av = {"rtcm3tosbp", "-w", fmt("%d:%.3f", start.wn, start.tow), "-o"};
    Entry back = [av](IO &io) {
      std::vector<std::string> a = av;
      std::vector<char *> v;
      for (auto &s : a) { v.push_back(&s[0]); mark_init(&s[0], s.size() + 1); }
      v.push_back(nullptr);
      quiet_stderr();
      return rtcm3tosbp_main((int)a.size(), v.data(), "", [](uint8_t *b, size_t n, void *x) { return (int)((IO *)x)->read(b, n); }, [](u8 *b, u32 n, void *x) { return (s32)((IO *)x)->write(b, n); }, &io);
    };
    ToolRun g = run_tool(c, B.d.io(link), back);
    tool_crashes(c, g, "rtcm3tosbp on the link");
    c.log(link); c.log(g.out);
    if (g.bad()) return;
    std::vector<Sbp> got;
    if (!parse_sbp(g.out, got)) { c.violate("C03", "output is not a sequence of SBP messages", ""); return; }
    // group what came back
    struct Re { int wn; int64_t tow; int sender; std::vector<Ob> obs; bool whole; };
    std::vector<Re> re; std::vector<const Sbp *> other;
    std::vector<std::pair<int, size_t>> order;  // kind, index
    for (auto &m : got) {
      if (m.type != M_OBS) {
        if (m.type == M_LOG && !(m.p.size() >= 7 && !memcmp(&m.p[1], "RTCM: ", 6))) continue;
        order.push_back({1, other.size()}); other.push_back(&m); continue;
      }
      int tot = m.p[10] >> 4, idx = m.p[10] & 15;
      if (idx == 0) { re.push_back({(int)rd(m.p, 8, 2), (int64_t)rd(m.p, 0, 4), m.sender, {}, false}); order.push_back({0, re.size() - 1}); }
      if (re.empty()) { c.violate("C17", "observation packet without a first one", show(m)); return; }
      for (size_t o = 11; o + 17 <= m.p.size(); o += 17) re.back().obs.push_back(get_ob(m.p, o));
      if (idx + 1 == tot) re.back().whole = true;
    }
    int type = k.msm;
    size_t next = 0;  // epochs come back in order
    std::map<size_t, int> back_n; std::set<size_t> complete;
    re.erase(std::remove_if(re.begin(), re.end(), [](const Re &e) { return e.wn == 0 && e.tow == 0 && e.obs.empty(); }), re.end());  // an end of epoch behind messages that gave nothing
    for (auto &e : re) {
      c.evals(1);
      size_t j = 0;
      for (j = 0; j < ep.size(); j++) if (ep[j].wn == e.wn && ep[j].tow == e.tow) break;
      if (j == ep.size()) { c.violate("C17", "observations come back in an epoch that was not sent", fmt("%d:%lld", e.wn, (long long)e.tow)); return; }
      if (j < next && !faulty) { c.violate("C17", "epochs come back out of order", ""); return; }
      next = j;
      back_n[j]++;
      if (e.sender != ((ep[j].sender & 0xFFF) | 0xF080)) { c.violate("C17", "sender", fmt("0x%04x, sent by 0x%04x", e.sender, ep[j].sender)); return; }
      std::set<std::pair<int, int>> seen;
      for (auto &o : e.obs) {
        c.evals(1);
        auto it = ep[j].obs.find({o.sat, o.code});
        if (it == ep[j].obs.end()) { c.violate("C17", "an observation comes back that was not sent in this epoch", fmt("satellite %d code %d at %d:%lld", o.sat, o.code, e.wn, (long long)e.tow)); return; }
        if (!seen.insert({o.sat, o.code}).second && !faulty) {  // a repeated frame repeats its observations
          c.violate("C17", "an observation comes back twice", fmt("satellite %d code %d at %d:%lld", o.sat, o.code, e.wn, (long long)e.tow)); return; }
        std::string w = trip_eq(it->second, o, type, cons_of(o.code) == GLO ? k.fcn[o.sat] : -1);
        if (!w.empty()) { c.violate("C17", "an observation comes back with another value", fmt("satellite %d code %d at %d:%lld: ", o.sat, o.code, e.wn, (long long)e.tow) + w); return; }
      }
      size_t due = 0;
      for (auto &x : ep[j].obs) due += usable_sat(x.second) && supported(x.second.code) && comes_back(x.second);
      if (seen.size() == due) complete.insert(j);
    }
    // completeness once the faults have stopped
    bool first = faulty, known = false;  // a time of week of 0 is not adopted from observations (C04)
    for (size_t j = 0; j < ep.size(); j++) {
      size_t begin = j ? ep[j - 1].msg + 1 : 0;
      if (faulty && begin <= last_msg + 1) continue;
      size_t due = 0;
      bool gps = false;  // GLONASS alone is refused more than 30 s from the time known
      for (auto &x : ep[j].obs) if (supported(x.second.code) && comes_back(x.second)) { due++; gps |= cons_of(x.second.code) == GPS; }
      if (!gps || ep[j].parts != ep[j].total) continue;  // (sequences sent whole)
      if (ep[j].tow == 0 && !known) continue;
      known = true;
      if (first) { first = false; continue; }
      c.evals(1);
      std::string lost;
      for (auto &x : ep[j].obs) if (supported(x.second.code) && comes_back(x.second)) {
        bool b = false;
        for (auto &e : re) if (e.wn == ep[j].wn && e.tow == ep[j].tow) for (auto &o : e.obs) b |= o.sat == x.second.sat && o.code == x.second.code;
        if (!b) lost += fmt(", not satellite %d code %d (%u %d %d %d)", x.second.sat, x.second.code, x.second.P, x.second.Li, x.second.Di, x.second.flags);
      }
      if (!complete.count(j) || back_n[j] != 1) { c.violate("C17", faulty ? "an epoch sent after the faults stopped does not come back complete" : "an epoch does not come back complete", fmt("%d:%lld comes back %d times, %zu observations due%s", ep[j].wn, (long long)ep[j].tow, back_n[j], due, lost.c_str())); return; }
      c.probe("epochs complete");
    }
    // other messages
    size_t bad_wraps = 0;
    auto bds0 = std::make_shared<bool>(false);
    std::vector<std::function<std::string(const Sbp &)>> chk; std::vector<size_t> wmsg;
    for (size_t i = 0; i < in.size(); i++) {
      const In &m = in[i];
      int snd = (m.sender & 0xFFF) | 0xF080;
      if (m.type == M_OBS || fr[i].empty()) continue;
      if (m.type == M_EGLO && k.mode == 0) continue;
      Bytes wr;
      if (is_wrap(m.type)) {
        // a payload that is no message of its type is not passed on
        sbp_msg_t sm; u8 w = 0; wr.resize(255);
        if (sbp_message_decode(m.p.data(), (u8)m.p.size(), nullptr, (sbp_msg_type_t)m.type, &sm) != SBP_OK || sbp_message_encode(wr.data(), 255, &w, (sbp_msg_type_t)m.type, &sm) != SBP_OK) { bad_wraps++; continue; }
        wr.resize(w);
      }
      chk.push_back([m, snd, wr, bds0](Sbp s) -> std::string {
        bool eph = m.type == M_EGPS || m.type == M_EGLO || m.type == M_EBDS || m.type == M_EGAL;
        if (s.type != m.type) return "type";
        int es = is_wrap(m.type) ? m.sender : eph ? 0xF080 : snd;
        if (s.sender != es) return fmt("sender 0x%04x, expected 0x%04x", s.sender, es);
        if (m.type == M_LOG) { Bytes w = {6, 'R', 'T', 'C', 'M', ':', ' '}; w.insert(w.end(), m.p.begin() + 1, m.p.end()); size_t n = std::min(w.size(), s.p.size()); if (n + 4 < w.size() && n < 248) return "text cut"; if (w.size() <= 200 && s.p.size() != w.size()) return "text length"; return memcmp(w.data(), s.p.data(), n) ? "text" : ""; }
        if (m.type == M_POS) { for (size_t o = 0; o < 24; o += 8) if (fabs(rdd(m.p, o)) < 13743895.0 && fabs(rdd(m.p, o) - rdd(s.p, o)) > 5.1e-5) return fmt("coordinate %.5f, sent %.5f", rdd(s.p, o), rdd(m.p, o)); return ""; }
        if (m.type == M_GLOB) { if (s.p.size() != 9 || s.p[0] != (m.p[0] & 15)) return "mask"; for (size_t i = 0; i < 4; i++) if (rd(s.p, 1 + 2 * i, 2) != ((m.p[0] & (8 >> i)) ? rd(m.p, 1 + 2 * i, 2) : 0)) return "bias"; return ""; }
        if (eph) {
          if (s.p.size() != m.p.size()) return "length";
          if (m.type == M_EBDS && rd(m.p, 2, 4) == 14 && rd(m.p, 138, 4) != 14 && rd(s.p, 6, 2) == rd(m.p, 6, 2) + 1) { *bds0 = true; s.p[6] = m.p[6]; s.p[7] = m.p[7]; }
          size_t o = 0;
          auto same = [&](size_t n) { bool q = !memcmp(&s.p[o], &m.p[o], n); o += n; return q; };
          auto fl = [&](int n) { for (int i = 0; i < n; i++, o += 4) { double a = rdf(m.p, o), b = rdf(s.p, o); if (fabs(a - b) > fabs(a) * 1e-6 + 1e-44) return false; } return true; };
          auto db = [&](int n) { for (int i = 0; i < n; i++, o += 8) { double a = rdd(m.p, o), b = rdd(s.p, o); if (fabs(a - b) > fabs(a) * 1e-12) return false; } return true; };
          bool ok = same(8) && fl(1) && same(6);
          if (!ok) return fmt("common part %s, sent %s", hex(Bytes(s.p.begin(), s.p.begin() + 18)).c_str(), hex(Bytes(m.p.begin(), m.p.begin() + 18)).c_str());
          if (m.type == M_EGLO) ok = fl(3) && db(6) && fl(3) && same(2);
          else {
            ok = fl((m.type == M_EGPS ? 1 : 2) + 6) && db(9);
            if (!ok) return fmt("orbit, before byte %zu", o);
            if (m.type == M_EGPS) ok = fl(3); else if (m.type == M_EBDS) ok = db(1) && fl(2); else ok = db(2) && fl(1);
            if (!ok) return fmt("clock, before byte %zu", o);
            ok = same(m.p.size() - o);
          }
          return ok ? "" : fmt("before byte %zu", o);
        }
        return s.p == wr ? "" : "payload";
      });
      wmsg.push_back(i);
    }
    if (!faulty) {
      std::vector<const Sbp *> o2;
      for (auto *s : other) if (!(s->type == M_EGLO && k.mode == 0)) o2.push_back(s);
      for (size_t i = 0; i < std::max(o2.size(), chk.size()); i++) {
        c.evals(1);
        if (i >= o2.size()) { c.violate("C17", "a message does not come back", fmt("type 0x%x, message %zu", in[wmsg[i]].type, wmsg[i])); return; }
        if (i >= chk.size()) { c.violate("C17", "a message comes back that was not sent", show(*o2[i])); return; }
        std::string w = chk[i](*o2[i]);
        if (!w.empty()) { c.violate("C17", "a message comes back changed", fmt("message %zu type 0x%x: ", wmsg[i], in[wmsg[i]].type) + w + " in " + show(*o2[i])); return; }
        c.probe("other messages back");
      }
    } else {
      std::vector<int> used(chk.size(), 0);
      for (auto *s : other) {
        if (s->type == M_EGLO && k.mode == 0) continue;
        c.evals(1);
        std::string w = "no such message was sent";
        bool ok = false;
        for (size_t i = 0; i < chk.size(); i++) if (in[wmsg[i]].type == s->type) { std::string x = chk[i](*s); if (x.empty()) { ok = true; used[i]++; } else w = x; }
        if (!ok) { c.violate("C17", "a message comes back that was not sent", w + ": " + show(*s)); return; }
      }
      for (size_t i = 0; i < chk.size(); i++) if (wmsg[i] > last_msg && !used[i]) {
        // back in step?  one epoch later for messages that need the time
        bool ep_between = false;
        for (size_t q = last_msg + 1; q < wmsg[i]; q++) for (auto &f : fr[q]) if (int n = f.pay[0] << 4 | f.pay[1] >> 4; n == 1074 || n == 1075) ep_between = true;
        if (ep_between) { c.violate("C17", "a message sent after the faults stopped does not come back", fmt("type 0x%x, message %zu", in[wmsg[i]].type, wmsg[i])); return; }
      }
    }
    if (*bds0) c.violate("C17", "BeiDou ephemeris of the week start comes back a week late", "");
    if (faulty) c.probe("trips with link faults");
    (void)p;
  }
  static bool comes_back(const Ob &o) {
    int c = cons_of(o.code);
    if (c != GPS && c != GLO && c != GAL && c != BDS) return false;
    if (c == BDS) return o.code == 12 || o.code == 13 || (o.code >= 47 && o.code <= 49);
    if (c == GLO) return o.code == 3 || o.code == 4;
    return true;
  }

  // ---- C18 ----
  void run_c18(Ctx &c, Built &B, const std::vector<In> &in, const Plan &p) {
    Cfg k = B.k;
    k.mode = 1; k.leap_known = true; k.leap = clock_leap(k.clock); k.msm = 5; k.ant = true; k.anth = 0; k.antd = "NULL                "; k.rcvd = "SWFT";
    for (int &x : k.fcn) x = -1;
    ToolRun ref = run_tool(c, B.d.io(B.s, RM_FULL), api_entry(k, in));
    tool_crashes(c, ref, "conversion callbacks");
    if (ref.bad()) return;
    int style = 0, drains = 1; uint64_t sd = 1; int fail = -1; bool two = false; uint64_t sd2 = 0;
    for (auto &op : B.conv) {
      if (op.k == "wl") { style = (int)op.arg(0); drains = (int)op.arg(1); sd = (uint64_t)op.arg(2); }
      if (op.k == "nofail") fail = (int)op.arg(0);
      if (op.k == "other") { two = true; sd2 = (uint64_t)op.arg(0); }
    }
    auto once = [&](bool both, bool failing) {
      return run_tool(c, B.d.io(B.s, RM_FULL), [&, both, failing](IO &io) {
        quiet_stderr();
        sim_clock = k.clock;
        Rng r(sd), r2(sd2);
        auto bad = [&](const std::string &s) { io.rec('V', s.data(), (uint32_t)s.size()); };
        auto mk = [&](bool f) { if (f) sim_malloc_fail = 1; sbp_conv_t x = sbp_conv_new(); sim_malloc_fail = 0; if (f && x) bad("creation succeeds though memory cannot be allocated"); if (!f && !x) bad("creation fails"); return x; };
        if (failing && fail == 0) mk(true);
        sbp_conv_t a = mk(false), b = both ? mk(false) : nullptr;
        if (failing && fail == 1) mk(true);
        size_t nb = 0;
        auto use = [&](sbp_conv_t x, const In *m, size_t wl, bool count) -> size_t {
          std::vector<uint8_t> w(wl + 16, 0xA5);
          uint8_t *in = nullptr; size_t n = 0;
          if (m) { n = m->p.size(); in = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(in, m->p.data(), n); }
          size_t got = sbp_conv(x, m ? (uint16_t)m->sender : 0, m ? (uint16_t)m->type : 0, in, n, w.data(), wl);
          free(in);
          if (got > wl) { bad(fmt("%zu bytes returned for a buffer of %zu", got, wl)); got = wl; }
          for (size_t i = wl; i < wl + 16; i++) if (w[i] != 0xA5) bad("written past the end of the buffer");
          for (size_t i = got; i < wl; i++) if (w[i] != 0xA5) { bad("bytes written beyond those reported"); break; }
          if (count) { io.write(w.data(), got); uint64_t ev[2] = {wl, got}; io.rec('C', ev, 16); }
          return got;
        };
        auto len = [&](Rng &q) -> size_t {
          switch (style) {
            case 0: return 4096;
            case 1: return q.below(200);
            case 2: if (q.chance(0.05)) { static const size_t wide[] = {255, 256, 8192, 16384, 32768, 65535, 65536, 65540, 131072}; return wide[q.below(9)]; } return q.chance(0.3) ? 0 : q.chance(0.5) ? 1 + q.below(8) : 1 + q.below(2000);
            default: return 1 + q.below(1023);
          }
        };
        for (size_t i = 0; i < in.size(); i++) {
          use(a, &in[i], len(r), true);
          uint64_t ev[2] = {in[i].end, io.outlen};
          io.rec('M', ev, 16);
          if (b) { size_t j = r2.below(in.size()); use(b, &in[j], r2.below(600), false); nb++; if (r2.chance(0.05)) { sbp_conv_delete(b); b = mk(false); } }
          size_t d = drains ? r.below((uint64_t)drains + 1) : 0;
          for (size_t j = 0; j < d; j++) use(a, nullptr, len(r), true);
          if (failing && fail == 2 && r.chance(0.1)) mk(true);
        }
        for (int i = 0; i < 100000; i++) { size_t g = use(a, nullptr, 1 + len(r), true); if (!g) break; }
        sbp_conv_delete(a);
        if (b) sbp_conv_delete(b);
        return 0;
      });
    };
    ToolRun x = once(two, true);
    tool_crashes(c, x, "buffered interface");
    c.log(x.out);
    if (x.bad()) return;
    // walk the record
    auto fr = rtcm_deframe(ref.out);
    auto at = out_at(ref, in);
    size_t pend = 0, mi = 0, cum = 0;
    bool exceeded = false;
    size_t i = 0; bool first_of_msg = true;
    std::vector<std::pair<size_t, size_t>> calls; std::vector<size_t> callmsg;
    const Bytes &D = x.so.data;
    std::vector<int> kinds;
    while (i + 5 <= D.size()) {
      char t = (char)D[i]; uint32_t n = (uint32_t)rd(D, i + 1, 4); i += 5;
      if (t == 'V') { c.violate("C18", std::string((const char *)&D[i], n), ""); return; }
      if (t == 'C') { uint64_t v[2]; memcpy(v, &D[i], 16); calls.push_back({(size_t)v[0], (size_t)v[1]}); callmsg.push_back((size_t)-1); }
      if (t == 'M' && !callmsg.empty()) callmsg.back() = mi++;
      i += n;
    }
    (void)first_of_msg;
    size_t prev = 0;
    for (size_t q = 0; q < calls.size(); q++) {
      if (callmsg[q] != (size_t)-1) { size_t e = at[callmsg[q]]; pend += e - prev; prev = e; if (pend > 8192) exceeded = true; }
      c.evals(1);
      size_t due = std::min(pend, calls[q].first);
      if (!exceeded && calls[q].second != due) { c.violate("C18", "a call returns fewer bytes than are waiting and fit", fmt("call %zu: %zu bytes into a buffer of %zu, %zu were waiting", q, calls[q].second, calls[q].first, pend)); return; }
      pend -= std::min(pend, calls[q].second);
      cum += calls[q].second;
    }
    c.evals(1);
    if (!exceeded) {
      if (x.out != ref.out) { c.violate("C18", "the bytes returned are not those of the streaming conversion", rtcm_diff(x.out, ref.out)); return; }
      c.probe("all bytes returned", x.out.size());
    } else {
      // whole frames in order
      size_t j = 0, o = 0;
      while (o < x.out.size()) {
        while (j < fr.size() && !(fr[j].end - fr[j].at <= x.out.size() - o && !memcmp(&x.out[o], &ref.out[fr[j].at], fr[j].end - fr[j].at))) j++;
        if (j == fr.size()) { c.violate("C18", "a frame is torn or repeated when the buffer is full", fmt("at byte %zu of %zu", o, x.out.size())); return; }
        o += fr[j].end - fr[j].at; j++;
      }
      c.probe("capacity exceeded");
    }
    if (two || fail >= 0) {
      ToolRun y = once(false, false);
      tool_crashes(c, y, "buffered interface alone");
      c.evals(1);
      if (!y.bad() && y.out != x.out) { c.violate("C18", two ? "another converter changes the bytes returned" : "a failed creation changes the bytes returned", rtcm_diff(x.out, y.out)); return; }
      if (fail >= 0) c.fault("memory allocation fails");
      if (two) c.probe("two converters in turn");
    }
    (void)p;
  }

  bool job(const Plan &p, Ctx *c, Job &j) override {
    Built B; build(p, B, c);
    j.tool = "sbp2rtcm"; j.framing = FR_SBP; j.out = OUT_RTCM; j.in = B.s; j.mode = B.d.mode; j.rmax = B.d.rmax; j.rseed = B.d.seed;
    if (B.t1 > B.t0 && B.t1 - B.t0 < 1e7) j.span = B.t1 - B.t0;
    j.argv = {"sbp2rtcm"}; j.clock = B.k.clock;
    j.main = p.seed & 1 ? plain_entry(B.k) : tool_entry(B.k); j.api = stream_entry(B.k);
    return true;
  }
  void run(Ctx &c) override {
    Built B; build(c.plan, B, &c);
    c.shape(ops_shape(c.plan));
    if (B.t1 > B.t0) c.simtime(std::min(B.t1 - B.t0, 700000.0));
    auto in = deframe_sbp(B.s);
    if (c.plan.focus == "C17") run_c17(c, B, in, c.plan);
    else if (c.plan.focus == "C18") run_c18(c, B, in, c.plan);
    else run_c16(c, B, in);
  }
};
}  // namespace
Harness *make_sbprtcm() { return new SbpRtcmHarness; }
}  // namespace sim
