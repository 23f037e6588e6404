// Reference model of the RTCM -> SBP conversion: frames in, expected items out.
// Written from the RTCM and SBP field definitions and the converter's stated
// behaviour, not from its code structure.
#pragma once
#include <algorithm>
#include "rtcm_bits.h"

namespace sim {

struct GT { int wn = -1; double tow = 0; bool ok() const { return wn >= 0 && tow >= 0 && tow < 604800.0 && std::isfinite(tow); } };
inline double gdiff(const GT &a, const GT &b) { return (a.wn - b.wn) * 604800.0 + a.tow - b.tow; }
inline GT gnorm(GT t) { while (t.tow < 0) { t.tow += 604800; t.wn--; } while (t.tow >= 604800) { t.tow -= 604800; t.wn++; } return t; }
inline int leap_at(const GT &t) { return (t.wn > 1930 || (t.wn == 1930 && t.tow >= 18)) ? 18 : 17; }

// u/s: integer of n bytes, exact; f: float, d: double with relative tolerance;
// h: height in m, 8 bytes; x: n bytes not compared; r: signed integer of n bytes, v rounded and saturated
struct Fld { char t; int n; double v; int64_t i; };
struct EObs { int sat, code; double P; bool L_ok, D_ok; double L, D; double cn0; int lock; bool half; };
struct Item {
  enum K { OBS, MSG } k = MSG;
  int type = 0, sender = 0;   // MSG
  std::vector<Fld> f;
  Bytes raw;                  // exact payload (type 0x401: text after the level)
  bool exact = false;
  int group = 0;              // frame index; SSR items of one group in any order
  // OBS
  int wn = 0; uint32_t tow = 0;
  std::vector<EObs> obs;
};
inline Fld FU(int n, uint64_t v) { return {'u', n, 0, (int64_t)v}; }
inline Fld FS(int n, int64_t v) { return {'s', n, 0, v}; }
inline Fld FF(double v) { return {'f', 4, v, 0}; }
inline Fld FR(int n, double v) { return {std::isnan(v) ? 'x' : 'r', n, v, 0}; }
inline Fld FX(int n) { return {'x', n, 0, 0}; }
inline Fld FD(double v) { return {'d', 8, v, 0}; }

inline bool field_eq(const Fld &f, const Bytes &p, size_t o, std::string *why) {
  if (o + (size_t)f.n > p.size()) { if (why) *why = "payload too short"; return false; }
  if (f.t == 'u') { uint64_t g = rd(p, o, f.n), m = f.n == 8 ? ~0ull : (1ull << (8 * f.n)) - 1; if (g == ((uint64_t)f.i & m)) return true; if (why) *why = fmt("at byte %zu: %llu, expected %llu", o, (unsigned long long)g, (unsigned long long)((uint64_t)f.i & m)); return false; }
  if (f.t == 's') { int64_t g = rds(p, o, f.n); if (g == f.i) return true; if (why) *why = fmt("at byte %zu: %lld, expected %lld", o, (long long)g, (long long)f.i); return false; }
  if (f.t == 'x') return true;
  if (f.t == 'r') {
    double lo = -ldexp(1, 8 * f.n - 1), hi = ldexp(1, 8 * f.n - 1) - 1, v = f.v < lo ? lo : f.v > hi ? hi : f.v, g = (double)rds(p, o, f.n);
    if (fabs(g - v) <= 0.5 + 1e-6 * (1 + fabs(v))) return true;
    if (why) *why = fmt("at byte %zu: %.0f, expected %.3f", o, g, v);
    return false;
  }
  double g = f.t == 'f' ? (double)rdf(p, o) : rdd(p, o);
  double tol = fabs(f.v) * (f.t == 'f' ? 1e-6 : 1e-13) + (f.t == 'f' ? 1e-44 : f.t == 'h' ? 1e-5 : 0);
  if (fabs(g - f.v) <= tol) return true;
  if (why) *why = fmt("at byte %zu: %.17g, expected %.17g", o, g, f.v);
  return false;
}
inline bool fields_eq(const std::vector<Fld> &f, const Bytes &p, std::string *why) {
  size_t o = 0;
  for (auto &x : f) { if (!field_eq(x, p, o, why)) return false; o += (size_t)x.n; }
  if (o != p.size()) { if (why) *why = fmt("payload of %zu bytes, expected %zu", p.size(), o); return false; }
  return true;
}

enum { M_OBS = 0x4A, M_POS = 0x48, M_GLOB = 0x75, M_EBDS = 0x89, M_EGPS = 0x8A, M_EGLO = 0x8B, M_EGAL = 0x8D, M_EQZS = 0x8E, M_ESBAS = 0x8C, M_OC = 0x5DD, M_CB = 0x5E1, M_PB = 0x5E6, M_LOG = 0x401, M_SBASRAW = 0x7777 };

struct RtcmOpt {
  bool cli = true, useobs = false;
  bool mask[6] = {false, false, false, false, false, false};
  GT t0ref;            // initial time (cli), wn<0 none
  double bias[64] = {0}, gcode[2] = {0, 0}, gphase[2] = {0, 0};
};

struct TimeTruth {
  bool solved = false;
  GT t;
  bool update(GT n) {
    if (!n.ok() || n.wn < 1876) return false;
    if (solved && !(gdiff(n, t) > 0)) return false;
    n.tow = (double)(float)n.tow;
    t = gnorm(n);
    solved = true;
    return true;
  }
};

struct RtcmModel {
  RtcmOpt o;
  TimeTruth tt;
  GT ref;                 // time_from_input_data
  int leap = 0;
  bool unknown = false;   // met something this model does not predict
  std::string unknown_why;
  std::vector<Item> out;
  // epoch being collected
  bool open = false, pend_msm = false;
  GT pend; int pend_tow = 0, pend_sender = 0;
  std::vector<EObs> obs;
  GT last_gps, last_glo, last_msm, last_1230;
  int fcn[65];
  struct Half { bool orbit = false; uint32_t epoch = 0; int iod = 0; int upd = 0; std::vector<std::vector<int64_t>> rows; bool valid = false; } cache[6];
  int group = 0;
  // statistics for probes
  int n_msm_drop_legacy = 0, n_mixed = 0, n_pair = 0, n_overflow = 0, n_gated = 0, n_week = 0, n_clear = 0, n_dup_legacy = 0, n_1033_sup = 0, n_cross_week = 0;
  size_t last_ref_wn = 0;

  void init(const RtcmOpt &oo) {
    o = oo;
    for (int &x : fcn) x = -1;
    if (o.cli && o.t0ref.wn >= 0) tt.update(o.t0ref);
    if (o.useobs) ref = tt.t;
  }
  void emit(Item it) {
    it.group = group;
    if (it.k == Item::OBS && o.useobs && it.tow > 0) { ref.wn = it.wn; ref.tow = it.tow / 1000.0; }
    if (it.k == Item::MSG && o.cli && !o.useobs && it.type == M_EGPS) {
      // fields: sat code toe.tow toe.wn ura fit valid health
      if (it.f[7].i == 0) { GT t; t.wn = (int)it.f[3].i; t.tow = (double)it.f[2].i; tt.update(t); }
    }
    out.push_back(std::move(it));
  }
  void msg(int type, int sender, std::vector<Fld> f) { Item it; it.type = type; it.sender = sender; it.f = std::move(f); emit(it); }
  void send() {
    if (!open) return;
    Item it; it.k = Item::OBS; it.sender = pend_sender; it.wn = pend.wn; it.tow = (uint32_t)pend_tow; it.obs = obs;
    obs.clear(); open = false;
    emit(it);
  }
  bool gps_like(uint32_t ms, GT &t) {
    t.tow = ms / 1000.0; t.wn = ref.wn;
    double d = gdiff(t, ref);
    if (d < -302400.0) t.wn++; else if (d > 302400.0) t.wn--;
    if (t.wn != ref.wn) n_week++;
    return t.ok();
  }
  bool glo_time(uint32_t ms, GT &t) {
    if (ms >= 86401000u) return false;
    // UTC(SU)+3h time of day -> GPS time of the day nearest to the reference
    int64_t tod = (int64_t)ms - 10800000 + (int64_t)leap * 1000;
    int64_t day = (int64_t)floor(ref.tow / 86400.0), tow = day * 86400000 + tod;
    t.wn = ref.wn;
    if (tow < 0) { tow += 604800000; t.wn--; }
    if (tow >= 604800000) { tow -= 604800000; t.wn++; }
    t.tow = (double)tow / 1000.0;
    double d = gdiff(t, ref);
    if (fabs(d) > 43200.0) { t.tow += d < 0 ? 86400.0 : -86400.0; t = gnorm(t); }
    if (t.wn != ref.wn) n_week++;
    return t.ok();
  }
  bool glo_sane(const GT &t) {
    double a = fabs(gdiff(t, ref) - leap), b = last_gps.ok() ? fabs(gdiff(t, last_gps) - leap) : 1e9;
    if (a <= 30.0 - 1e-6 || b <= 30.0 - 1e-6) return true;
    // the limit itself: either answer where it is within the rounding of the times
    if (a < 30.0 + 1e-6 || b < 30.0 + 1e-6) { unknown = true; unknown_why = "30 s within rounding"; }
    return false;
  }
  bool msm_active(const GT &t) {
    if (!last_msm.ok()) return false;
    int64_t ms = (int64_t)(t.wn - last_msm.wn) * 604800000 + llround(t.tow * 1000.0) - llround(last_msm.tow * 1000.0);
    // exactly 5 s apart: either answer where the times of week, as doubles, are not
    if (ms == 5000 && gdiff(t, last_msm) != 5.0) { unknown = true; unknown_why = "5 s within rounding"; }
    return ms < 5000;
  }
  bool start(const GT &t, int stn, bool msm) {
    int tow = (int)rint(t.tow * 1000.0), snd = stn | 0xF080;
    if (!obs.empty() && (pend.wn != t.wn || pend_tow != tow || pend_sender != snd)) { n_mixed++; send(); }
    open = true; pend = t; pend_tow = tow; pend_sender = snd; pend_msm = msm;
    return true;
  }
  bool add(const EObs &e) { if (obs.size() >= 210) { n_overflow++; return false; } obs.push_back(e); return true; }

  void legacy(const Bytes &pay) {
    Legacy m;
    if (!decode_legacy(pay, m)) { BitR z(pay); if (pay.size() < 8) { unknown = true; unknown_why = "short legacy"; } return; }
    bool glo = m.num == 1010 || m.num == 1012;
    GT t;
    if (glo) { if (!glo_time(m.t, t) || !glo_sane(t)) return; }
    else if (!gps_like(m.t, t)) return;
    if (msm_active(t)) { n_msm_drop_legacy++; return; }
    GT &last = glo ? last_glo : last_gps;
    if (last.ok() && !(gdiff(t, last) > 0.0005)) { n_dup_legacy++; return; }
    last = t;
    start(t, m.stn, false);
    for (auto &s : m.sats)
      for (int q = 0; q < 2; q++) {
        LFreq &x = s.f[q];
        if (!x.pr || !x.cp) continue;
        EObs e{};
        e.sat = s.sat;
        // the limit applies to observations stored, and before the satellite is looked at
        if (obs.size() >= 210) { n_overflow++; return; }
        if (!glo) {
          if (s.sat >= 1 && s.sat <= 32) e.code = q == 0 ? (x.code == 0 ? 0 : 5) : (x.code == 0 ? 1 : 6);
          else if (s.sat >= 40 && s.sat <= 58 && q == 0) { e.code = 2; e.sat = s.sat + 80; }
          else continue;
        } else {
          if (s.sat < 1 || s.sat > 24) continue;
          e.code = q == 0 ? 3 : 4;
        }
        e.P = x.P + (float)o.bias[e.code];
        e.L_ok = true; e.L = x.L; e.half = true; e.D_ok = false;
        e.cn0 = x.cnr; e.lock = sbp_lock((int64_t)x.lock_s * 1000);
        add(e);
      }
    if (!m.sync) send();
  }

  void msm(const Bytes &pay) {
    Msm m;
    if (!decode_msm(pay, m)) return;
    GT t;
    if (m.cons == GLO) { if (!glo_time(m.tow, t) || !glo_sane(t)) return; }
    else {
      uint32_t ms = m.tow;
      if (m.cons == BDS) { ms += 14000; if (ms >= 604800000u) ms -= 604800000u; }
      if (!gps_like(ms, t)) return;
    }
    if (!last_gps.ok() && fabs(t.tow) <= 1e-12) return;
    if (!msm_active(t) && !obs.empty() && !pend_msm) { obs.clear(); open = false; n_clear++; }
    last_gps = last_glo = last_msm = t;
    start(t, m.stn, true);
    for (auto &c : m.cells) {
      if (c.code < 0 || c.sat > cons_nsats(m.cons) || o.mask[m.cons]) continue;
      if (!c.pr) continue;
      EObs e{};
      e.sat = c.sat; e.code = c.code;
      int f = -1;
      if (m.cons == GLO) f = c.info >= 0 && c.info <= 13 ? c.info : fcn[c.sat];
      double fr = code_freq(c.code, f);
      e.P = c.pr_ms * CLIGHT / 1000.0 + (float)o.bias[c.code];
      double gp = 0;
      if (m.cons == GLO && f >= 0) { e.P += (f - 7) * (float)o.gcode[c.code == 4]; gp = (f - 7) * (float)o.gphase[c.code == 4]; }
      e.L_ok = c.cp && fr > 0; e.L = c.cp_ms * fr / 1000.0 + gp;
      e.half = !c.hca;
      e.D_ok = c.dop && fr > 0; e.D = -c.rate * fr / CLIGHT;
      e.cn0 = c.cnr; e.lock = sbp_lock(c.lock_ms);
      if (!add(e)) break;
    }
  }

  // ---- ephemerides ----
  static double ura(int u) { if (u == 1) return 2.8; if (u == 3) return 5.7; if (u == 5) return 11.3; if (u <= 6) return pow(2, 1 + u / 2.0); if (u < 15) return pow(2, u - 2); return 6144; }
  static uint32_t fit_gps(int flag, int iodc) {
    uint32_t h = 4;
    if (flag) {
      h = 6;
      if (iodc >= 240 && iodc <= 247) h = 8;
      else if ((iodc >= 248 && iodc <= 255) || iodc == 496) h = 14;
      else if ((iodc >= 497 && iodc <= 503) || (iodc >= 1021 && iodc <= 1023)) h = 26;
      else if (iodc >= 504 && iodc <= 510) h = 50;
      else if (iodc == 511 || (iodc >= 752 && iodc <= 756)) h = 74;
      else if (iodc == 757) h = 98;
    }
    return h * 3600;
  }
  static int week_adj(int wn) { while (wn < 1876) wn += 1024; return wn; }
  bool match(uint32_t tow, int &wn, int own) {
    if (tow >= 604800) return false;
    if (!ref.ok()) { wn = own; return true; }
    double d = tow - ref.tow;
    wn = ref.wn;
    if (d > 302400) wn--; else if (d < -302400) wn++;
    return wn >= 0;
  }
  static double p2(int e) { return ldexp(1.0, -e); }
  void eph_kep(const Bytes &pay, int num) {
    BitR r(pay);
    r.u(12);
    const double PI = 3.14159265358979323846;
    int sat = (int)r.u(num == 1044 ? 4 : 6), wn = 0, uu = 0, iode = 0, iodc = 0, health = 0, fit = 0, wn2 = 0, twn, cwn;
    uint32_t toc = 0, toe = 0;
    int64_t idot = 0, af0, af1, af2, crs, dn, m0, cuc, cus, cic, cis, om0, inc, crc, w, omd, g1 = 0, g2 = 0;
    uint64_t ecc, sqa;
    (void)wn2;
    if (num == 1019) { wn = (int)r.u(10); uu = (int)r.u(4); r.u(2); idot = r.s(14); iode = (int)r.u(8); toc = (uint32_t)r.u(16); af2 = r.s(8); af1 = r.s(16); af0 = r.s(22); iodc = (int)r.u(10); }
    else if (num == 1042) { wn = (int)r.u(13); uu = (int)r.u(4); idot = r.s(14); iode = (int)r.u(5); toc = (uint32_t)r.u(17); af2 = r.s(11); af1 = r.s(22); af0 = r.s(24); iodc = (int)r.u(5); }
    else if (num == 1044) { toc = (uint32_t)r.u(16); af2 = r.s(8); af1 = r.s(16); af0 = r.s(22); iode = (int)r.u(8); }
    else { wn = (int)r.u(12); iode = (int)r.u(10); uu = (int)r.u(8); idot = r.s(14); toc = (uint32_t)r.u(14); af2 = r.s(6); af1 = r.s(21); af0 = r.s(31); }
    bool b = num == 1042;
    int cw = b ? 18 : 16;
    crs = r.s(cw); dn = r.s(16); m0 = r.s(32); cuc = r.s(cw); ecc = r.u(32); cus = r.s(cw); sqa = r.u(32);
    toe = (uint32_t)r.u(num >= 1045 ? 14 : b ? 17 : 16);
    cic = r.s(cw); om0 = r.s(32); cis = r.s(cw); inc = r.s(32); crc = r.s(cw); w = r.s(32); omd = r.s(24);
    if (num == 1019) { g1 = r.s(8); health = (int)r.u(6); r.u(1); fit = (int)r.u(1); }
    else if (num == 1042) { g1 = r.s(10); g2 = r.s(10); health = (int)r.u(1); }
    else if (num == 1044) { idot = r.s(14); r.u(2); wn = (int)r.u(10); uu = (int)r.u(4); health = (int)r.u(6); g1 = r.s(8); iodc = (int)r.u(10); fit = (int)r.u(1); }
    else if (num == 1045) { g1 = r.s(10); health = (int)r.u(3); r.u(7); }
    else { g1 = r.s(10); g2 = r.s(10); health = (int)r.u(6); r.u(2); }
    if (!r.ok) { unknown = true; unknown_why = "short eph"; return; }
    uint32_t res = num == 1019 || num == 1044 ? 16 : b ? 8 : 60, fitv;
    double uram;
    int code, type, osat = sat;
    bool valid = true;
    twn = cwn = 0;
    uint32_t ttow = toe * res, ctow = toc * res;
    if (num == 1019) {
      if (sat < 1 || sat > 32) { unknown = true; unknown_why = "gps sat range"; return; }
      if (!match(ttow, twn, week_adj(wn)) || !match(ctow, cwn, week_adj(wn))) return;
      uram = ura(uu); fitv = fit_gps(fit, iodc); valid = (iodc & 0xFF) == iode; code = 0; type = M_EGPS;
    } else if (num == 1044) {
      twn = cwn = week_adj(wn); uram = ura(uu); fitv = fit_gps(fit, iodc); valid = (iodc & 0xFF) == iode; code = 31; type = M_EQZS; osat = sat + 192;
    } else if (b) {
      if (sat <= 5) return;
      GT a; a.wn = wn + 1356; a.tow = ttow + 14.0; a = gnorm(a); twn = week_adj(a.wn); ttow = (uint32_t)a.tow;
      a.wn = wn + 1356; a.tow = ctow + 14.0; a = gnorm(a); cwn = week_adj(a.wn); ctow = (uint32_t)a.tow;
      static const double tab[15] = {2, 2.8, 4, 5.7, 8, 11.3, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096};
      uram = uu < 15 ? tab[uu] : 8192; fitv = 3 * 3600; code = 12; type = M_EBDS;
    } else {
      if (!match(ttow, twn, week_adj(wn + 1024)) || !match(ctow, cwn, week_adj(wn + 1024))) return;
      uram = uu <= 50 ? .01 * uu : uu <= 75 ? .5 + (uu - 50) * .02 : uu <= 100 ? 1 + (uu - 75) * .04 : uu <= 125 ? 2 + (uu - 100) * .16 : -1;
      fitv = 4 * 3600; code = 14; type = M_EGAL; iodc = iode;
    }
    std::vector<Fld> f = {FU(1, osat), FU(1, code), FU(4, ttow), FU(2, twn), FF(uram), FU(4, fitv), FU(1, valid), FU(1, health)};
    if (num == 1019 || num == 1044) f.push_back(FF(g1 * p2(31)));
    else if (b) { f.push_back(FF(g1 * 1e-10)); f.push_back(FF(g2 * 1e-10)); }
    else { f.push_back(FF(g1 * p2(32))); f.push_back(FF(g2 * p2(32))); }
    int er = b ? 6 : 5, ec = b ? 31 : 29;
    for (Fld x : {FF(crs * p2(er)), FF(crc * p2(er)), FF(cuc * p2(ec)), FF(cus * p2(ec)), FF(cic * p2(ec)), FF(cis * p2(ec))}) f.push_back(x);
    for (Fld x : {FD(dn * p2(43) * PI), FD(m0 * p2(31) * PI), FD((double)ecc * p2(33)), FD((double)sqa * p2(19)), FD(om0 * p2(31) * PI), FD(omd * p2(43) * PI), FD(w * p2(31) * PI), FD(inc * p2(31) * PI), FD(idot * p2(43) * PI)}) f.push_back(x);
    if (num == 1019 || num == 1044) { f.push_back(FF(af0 * p2(31))); f.push_back(FF(af1 * p2(43))); f.push_back(FF(af2 * p2(55))); }
    else if (b) { f.push_back(FD(af0 * p2(33))); f.push_back(FF(af1 * p2(50))); f.push_back(FF(af2 * p2(66))); }
    else { f.push_back(FD(af0 * p2(34))); f.push_back(FD(af1 * p2(46))); f.push_back(FF(af2 * p2(59))); }
    f.push_back(FU(4, ctow)); f.push_back(FU(2, cwn));
    f.push_back(FU(num >= 1045 ? 2 : 1, iode)); f.push_back(FU(2, iodc));
    if (num >= 1045) f.push_back(FU(1, num == 1045 ? 1 : 0));
    msg(type, 0xF080, f);
  }
  void eph_glo(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int sat = (int)r.u(6), raw = (int)r.u(5);
    r.u(2);
    int P1 = (int)r.u(2);
    r.u(12);
    int bn = (int)r.u(1);
    r.u(1);
    int tb = (int)r.u(7);
    int64_t v[3], p[3], a[3];
    for (int i = 0; i < 3; i++) { v[i] = r.sm(24); p[i] = r.sm(27); a[i] = r.sm(5); }
    r.u(1);
    int64_t gamma = r.sm(11);
    r.u(2);
    int ln3 = (int)r.u(1);
    int64_t tau = r.sm(22), dtau = r.sm(5);
    r.u(5); r.u(1);
    int ft = (int)r.u(4);
    r.u(11); r.u(2);
    int avail = (int)r.u(1);
    r.u(11); r.u(32); r.u(5); r.u(22);
    int ln5 = (int)r.u(1);
    r.u(7);
    if (!r.ok) { unknown = true; unknown_why = "short 1020"; return; }
    GT t;
    if (!glo_time((uint32_t)tb * 900000u, t)) return;
    if (sat == 0) return;
    static const double tab[16] = {1, 2, 2.5, 4, 5, 7, 10, 12, 14, 16, 32, 64, 128, 256, 512, 6144};
    static const int fit[4] = {70, 40, 55, 70};
    if (sat <= 28) fcn[sat] = raw <= 13 ? raw : -1;
    std::vector<Fld> f = {FU(1, sat), FU(1, 3), FU(4, (uint64_t)rint(t.tow)), FU(2, t.wn), FF(tab[ft]), FU(4, fit[P1] * 60), FU(1, 1), FU(1, bn | ln3 | (avail & ln5)),
                          FF(gamma * p2(40)), FF(tau * p2(30)), FF(dtau * p2(30))};
    for (int i = 0; i < 3; i++) f.push_back(FD(p[i] * p2(11) * 1000));
    for (int i = 0; i < 3; i++) f.push_back(FD(v[i] * p2(20) * 1000));
    for (int i = 0; i < 3; i++) f.push_back(FF(a[i] * p2(30) * 1000));
    f.push_back(FU(1, raw + 1)); f.push_back(FU(1, (tb * 900) & 127));
    msg(M_EGLO, 0xF080, f);
  }

  // ---- station messages ----
  void pos(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int stn = (int)r.u(12);
    r.u(6 + 4);
    int64_t x = r.s(38); r.u(2); int64_t y = r.s(38); r.u(2); int64_t z = r.s(38);
    if (!r.ok) { unknown = true; unknown_why = "short 1005"; return; }
    msg(M_POS, stn | 0xF080, {FD(x * 0.0001), FD(y * 0.0001), FD(z * 0.0001)});
  }
  void txt(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int stn = (int)r.u(12);
    r.u(16 + 17 + 7);
    size_t n = r.u(8);
    Bytes t;
    for (size_t i = 0; i < n; i++) t.push_back((uint8_t)r.u(8));
    if (!r.ok) { unknown = true; unknown_why = "short 1029"; return; }
    std::string pre = "RTCM: ";
    Bytes m(pre.begin(), pre.end());
    m.insert(m.end(), t.begin(), t.end());
    if (m.size() > 254) { size_t k = 254; while (k > 6 && (m[k] & 0xC0) == 0x80) k--; m.resize(k); }
    Item it; it.type = M_LOG; it.sender = stn | 0xF080; it.raw = {6}; it.raw.insert(it.raw.end(), m.begin(), m.end()); it.exact = true;
    emit(it);
  }
  void rcv(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int stn = (int)r.u(12);
    auto str = [&]() { size_t n = r.u(8); std::string s; for (size_t i = 0; i < n; i++) s.push_back((char)r.u(8)); return s; };
    str(); r.u(8); str();
    std::string rx = str();
    str(); str();
    if (!r.ok) { unknown = true; unknown_why = "short 1033"; return; }
    if (last_1230.ok() && !(gdiff(ref, last_1230) > 120.0)) { n_1033_sup++; return; }
    struct Row { const char *n; int mask; double a, b, c, d; };
    static const Row geo[] = {{"ASH", 9, -14.7, 0, 0, -16.2}, {"HEM", 9, -.3, 0, 0, 3.5}, {"JAV", 9, -1.5, 0, 0, -8.1}, {"JPS", 9, -3.7, 0, 0, .7}, {"LEI", 9, -70.7, 0, 0, -66.3}, {"NOV", 9, -70.7, 0, 0, -66.3}, {"NAV", 9, .4, 0, 0, 2.1}, {"NVR", 9, 116.7, 0, 0, 187}, {"SEP", 9, 0, 0, 0, 0}, {"SOK", 9, -70.7, 0, 0, -66.3}, {"TPS", 9, -2.56, 0, 0, 3.74}, {"TRM", 9, 18.8, 0, 0, 23.2}};
    static const Row any[] = {{"TRIMBLE", 15, 19.06, 19.06, 19.06, 19.06}, {"ASHTECH", 15, 19.06, 19.06, 19.06, 19.06}, {"LEICA", 15, -71.94, -71.94, -71.94, -71.94}, {"NOV", 15, -71.94, -71.94, -71.94, -71.94}, {"GEOMAX", 15, -71.94, -71.94, -71.94, -71.94}, {"SEPT", 15, 0, 0, 0, 0}, {"TPS", 9, 0, 0, 0, 0}, {"JAVAD", 9, -1.5, 0, 0, -8.1}, {"NAVCOM", 9, .4, 0, 0, 2.1}, {"HEMI", 9, -.2, 0, 0, 3.4}};
    Row z = {"", 0, 0, 0, 0, 0};
    if (rx.find("Geo++ GNSMART (GLO=") != std::string::npos) {
      for (auto &g : geo) if (rx.find(std::string("Geo++ GNSMART (GLO=") + g.n + ")") != std::string::npos) { z = g; break; }
      if (z.mask == 0) { unknown = true; unknown_why = "geo++ other"; }
    } else
      for (auto &g : any) if (rx.find(g.n) != std::string::npos) { z = g; break; }
    auto q = [](double m) { return (int64_t)rint(m * 50.0); };
    msg(M_GLOB, stn | 0xF080, {FU(1, z.mask), FS(2, q(z.a)), FS(2, q(z.b)), FS(2, q(z.c)), FS(2, q(z.d))});
  }
  void bias(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int stn = (int)r.u(12), ind = (int)r.u(1);
    r.u(3);
    int mask = (int)r.u(4);
    int64_t v[4] = {0, 0, 0, 0};
    for (int i = 0; i < 4; i++) if (mask & (8 >> i)) v[i] = r.s(16);
    if (!r.ok) { unknown = true; unknown_why = "short 1230"; return; }
    if (ind) v[0] = v[1] = v[2] = v[3] = 0;
    msg(M_GLOB, stn | 0xF080, {FU(1, mask), FS(2, v[0]), FS(2, v[1]), FS(2, v[2]), FS(2, v[3])});
    last_1230 = ref;
  }
  void wrapped(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    if (r.u(4) != 0) { unknown = true; unknown_why = "4062 reserved bits"; return; }
    Item it;
    it.type = (int)r.u(16); it.sender = (int)r.u(16);
    size_t n = r.u(8);
    for (size_t i = 0; i < n; i++) it.raw.push_back((uint8_t)r.u(8));
    if (!r.ok) { unknown = true; unknown_why = "short 4062"; return; }
    it.exact = true;
    emit(it);
  }

  // ---- navigation data frames: those of SBAS satellites ----
  void navframes(const Bytes &pay) {
    BitR r(pay);
    r.u(12);
    int stn = (int)r.u(12);
    if (r.u(2) != 0) { unknown = true; unknown_why = "4075 reserved bits"; return; }
    int n = (int)r.u(6);
    std::vector<Item> v;
    for (int i = 0; i < n; i++) {
      int sys = (int)r.u(4), sat = (int)r.u(6);
      r.u(9);
      uint64_t t = r.u(30);
      r.u(1);
      int bits = (int)r.u(12);
      Bytes e;
      for (int j = 0; j < bits / 8; j++) e.push_back((uint8_t)r.u(8));
      r.u(bits % 8);
      if (sys != 3 || sat > 38 || bits <= 224 || bits > 288) continue;
      if (bits != 256 && bits != 288) { unknown = true; unknown_why = "4075 frame of odd size"; return; }  // where its last bits go is nowhere said
      if (e[0] != 0x53 && e[0] != 0x9A && e[0] != 0xC6) continue;
      auto bit = [&](int k) { return (uint32_t)(e[(size_t)k / 8] >> (7 - k % 8)) & 1; };
      uint32_t crc = 0, got = 0;
      for (int k = 0; k < 226; k++) { uint32_t top = ((crc >> 23) & 1) ^ bit(k); crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
      for (int k = 226; k < 250; k++) got = got << 1 | bit(k);
      if (crc != got) continue;
      uint8_t d[27] = {0};
      for (int k = 0; k < 212; k++) d[k / 8] |= (uint8_t)(bit(14 + k) << (7 - k % 8));
      Item it; it.type = M_SBASRAW; it.sender = stn | 0xF080;
      it.f = {FU(1, 120 + (uint64_t)sat), FU(1, 2), FU(4, t), FU(1, e[1] >> 2)};
      for (uint8_t y : d) it.f.push_back(FU(1, y));
      v.push_back(it);
    }
    if (!r.ok) return;  // cut short: none of it
    for (auto &it : v) emit(it);
  }

  // ---- SSR ----
  bool ssr_time(int c, uint32_t epoch, GT &t) {
    if (c == GLO) return glo_time(epoch * 1000u, t);
    uint32_t ms = epoch * 1000u;
    if (c == BDS) { ms += 14000; if (ms >= 604800000u) ms -= 604800000u; }
    if (ms > 604799999u) return false;
    return gps_like(ms, t);
  }
  void ssr(const Bytes &pay, int num) {
    static const int base[5][2] = {{1057, GPS}, {1063, GLO}, {1240, GAL}, {1246, QZS}, {1258, BDS}};
    int c = -1, kind = -1;  // 0 orbit 1 clock 2 code 3 combined 4 phase
    for (auto &x : base) if (num >= x[0] && num < x[0] + 4) { c = x[1]; kind = num - x[0]; }
    if (num >= 1265 && num <= 1270) { static const int pc[6] = {GPS, GLO, GAL, QZS, SBS, BDS}; c = pc[num - 1265]; kind = 4; }
    if (c < 0) return;
    BitR r(pay);
    r.u(12);
    uint32_t epoch = (uint32_t)r.u(c == GLO ? 17 : 20);
    int upd = (int)r.u(4);
    r.u(1);
    if (kind == 0 || kind == 3) r.u(1);
    int iod = (int)r.u(4);
    r.u(16 + 4);
    int disp = 0, mw = 0;
    if (kind == 4) { disp = (int)r.u(1); mw = (int)r.u(1); }
    int n = (int)r.u(6);
    int sb = c == GLO ? 5 : c == QZS ? 4 : 6;
    static const int l1[6] = {0, 3, 14, 12, 2, 31};
    GT t;
    bool tv = ssr_time(c, epoch, t);
    auto head = [&](int sat) { return std::vector<Fld>{FU(4, (uint64_t)rint(t.tow)), FU(2, t.wn), FU(1, sat), FU(1, l1[c]), FU(1, upd), FU(1, iod)}; };
    if (kind == 0 || kind == 1 || kind == 3) {
      std::vector<std::vector<int64_t>> rows;
      for (int i = 0; i < n; i++) {
        std::vector<int64_t> w;  // sat iode 6 orbit | sat 3 clock
        w.push_back((int64_t)r.u(sb));
        if (kind != 1) {
          int64_t iode = (int64_t)r.u(c == GAL || c == BDS ? 10 : 8);
          if (c == BDS) iode = (int64_t)r.u(8);
          w.push_back(iode);
          static const int ob[6] = {22, 20, 20, 21, 19, 19};
          for (int b : ob) w.push_back(r.s(b));
        }
        if (kind != 0) { w.push_back(r.s(22)); w.push_back(r.s(21)); w.push_back(r.s(27)); }
        rows.push_back(w);
      }
      if (!r.ok) { unknown = true; unknown_why = "short ssr"; return; }
      auto one = [&](const std::vector<int64_t> &o, const int64_t *k, int sat) {
        std::vector<Fld> f = head(sat);
        f.push_back(FU(4, o[1]));
        for (int i = 0; i < 6; i++) f.push_back(FS(4, o[2 + (size_t)i]));
        for (int i = 0; i < 3; i++) f.push_back(FS(4, k[i]));
        msg(M_OC, 0, f);
      };
      if (kind == 3) { if (tv) for (auto &w : rows) one(w, &w[8], (int)w[0]); return; }
      Half &h = cache[c];
      bool orb = kind == 0;
      if (h.valid && h.orbit != orb && h.epoch == epoch && h.iod == iod) {
        const auto &O = orb ? rows : h.rows, &K = orb ? h.rows : rows;
        n_pair++;
        // the update interval is the orbit message's
        upd = orb ? upd : h.upd;
        if (tv) for (auto &k : K) for (auto &w : O) if (w[0] == k[0]) { one(w, &k[1], (int)k[0]); break; }
        h.valid = false;
      } else { h.valid = true; h.orbit = orb; h.epoch = epoch; h.iod = iod; h.upd = upd; h.rows = rows; }
      return;
    }
    std::vector<std::vector<Fld>> out1;
    for (int i = 0; i < n; i++) {
      int sat = (int)r.u(sb), nb = (int)r.u(5);
      std::vector<Fld> f = head(sat);
      if (kind == 2) {
        for (int j = 0; j < nb; j++) { f.push_back(FU(1, r.u(5))); f.push_back(FS(2, r.s(14))); }
        out1.push_back(f);
      } else {
        int yaw = (int)r.u(9); int64_t rate = r.s(8);
        f.push_back(FU(1, disp)); f.push_back(FU(1, mw)); f.push_back(FU(2, yaw)); f.push_back(FS(1, rate));
        auto g = f;
        int k = 0;
        for (int j = 0; j < nb; j++) {
          g.push_back(FU(1, r.u(5))); g.push_back(FU(1, r.u(1))); g.push_back(FU(1, r.u(2))); g.push_back(FU(1, r.u(4))); g.push_back(FS(4, r.s(20)));
          if (++k == 30) { out1.push_back(g); g = f; k = 0; }
        }
        if (nb == 0 || k > 0) out1.push_back(g);
      }
    }
    if (!r.ok) { unknown = true; unknown_why = "short ssr bias"; return; }
    if (tv) for (auto &f : out1) msg(kind == 2 ? M_CB : M_PB, 0, f);
  }

  void time_event(GT t) { tt.update(t); }

  void frame(const Bytes &pay) {
    group++;
    if (pay.size() < 2) return;
    int num = (pay[0] << 4) | (pay[1] >> 4);
    bool solved = o.useobs || tt.solved;
    if (!o.useobs) ref = tt.solved ? tt.t : GT();
    bool ungated = num == 1005 || num == 1006 || num == 1029 || num == 4062 || num == 4075 || num == 1019 || num == 1042 || num == 1045 || num == 1046;
    int d = num % 10;
    if (num >= 1071 && num <= 1123 && d >= 1 && d <= 3) ungated = true;
    if (!solved && !ungated) { n_gated++; return; }
    if (solved) leap = leap_at(ref);
    if (num == 1002 || num == 1004 || num == 1010 || num == 1012) legacy(pay);
    else if (num >= 1074 && num <= 1129 && d >= 4 && d <= 7 && msm_cons(num) >= 0 && msm_cons(num) != SBS && msm_cons(num) != QZS) msm(pay);
    else if (num == 1019 || num == 1042 || num == 1044 || num == 1045 || num == 1046) eph_kep(pay, num);
    else if (num == 1020) eph_glo(pay);
    else if (num == 1005 || num == 1006) pos(pay);
    else if (num == 1029) txt(pay);
    else if (num == 1033) rcv(pay);
    else if (num == 1230) bias(pay);
    else if (num == 4062) wrapped(pay);
    else if (num == 4075) navframes(pay);
    else ssr(pay, num);
    if (num >= 1070 && num <= 1229 && pay.size() >= 7) { BitR r(pay, 54); if (r.u(1) == 0) send(); }
  }
};

}  // namespace sim
