// SBP to NMEA: every sentence well formed, of one epoch, with the values of its
// messages (C19), at the epochs its rate says (C20).
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include "harness.h"
#include "stream.h"
extern "C" {
#include <libsbp/sbp.h>
#include <gnss-converters/sbp_nmea.h>
#include <swiftnav/geoid_model.h>
}

namespace sim {
namespace {
const int64_t WEEKMS = 604800000;
enum { GGA, RMC, VTG, HDT, GLL, ZDA, GSA, GST, GSV, PUBX, THS, NSENT };
const char *SENT[] = {"GGA", "RMC", "VTG", "HDT", "GLL", "ZDA", "GSA", "GST", "GSV", "PUBX", "THS"};
enum { GPSTIME, UTC, POS, VEL, DOPS, AGE, HDG, AZEL, MEAS, GROUP, META, GPSTIME_G, UTC_G, POS_G, VEL_G, ORIENT, NID };
enum { BEST, GNSS, FUSED };
struct Sat { int sat, code; };

// ---------------------------------------------------------------- simulated receiver
void civil(int64_t days, int &y, int &m, int &d) {  // days since 1970-01-01
  days += 719468;
  int64_t era = (days >= 0 ? days : days - 146096) / 146097;
  int64_t doe = days - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  int64_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
  d = (int)(doy - (153 * mp + 2) / 5 + 1);
  m = (int)(mp < 10 ? mp + 3 : mp - 9);
  y = (int)(yoe + era * 400 + (m <= 2));
}
// one message of the receiver, by kind, time and seed
void fill(sbp_msg_t &m, int id, int wn, uint32_t tow, uint64_t seed, const std::vector<Sat> &sky) {
  memset(&m, 0, sizeof m);
  Rng r(seed);
  switch (id) {
    case GPSTIME: case GPSTIME_G: m.gps_time.wn = (uint16_t)wn; m.gps_time.tow = tow; m.gps_time.flags = 1; m.gps_time.ns_residual = (int32_t)r.range(-400000, 400000); break;
    case UTC: case UTC_G: {
      sbp_msg_utc_time_t &u = m.utc_time;
      int64_t ms = ((int64_t)wn * 604800 - 18 + 315964800) * 1000 + tow;
      int y, mo, d;
      civil(ms / 86400000, y, mo, d);
      int64_t t = ms % 86400000;
      u.tow = tow; u.year = (uint16_t)y; u.month = (uint8_t)mo; u.day = (uint8_t)d;
      u.hours = (uint8_t)(t / 3600000); u.minutes = (uint8_t)(t / 60000 % 60); u.seconds = (uint8_t)(t / 1000 % 60);
      int64_t ns = t % 1000 * 1000000 + r.range(-400000, 400000);
      if (r.chance(0.15)) ns = 999999999 - (int64_t)r.below(6000000);
      u.ns = (uint32_t)(ns < 0 ? 0 : ns);
      if (r.chance(0.05)) { u.hours = 23; u.minutes = 59; u.seconds = 59; u.ns = 999900000; }
      if (r.chance(0.02)) { u.seconds = 60; }
      u.flags = r.chance(0.1) ? 0 : (uint8_t)(1 + r.below(2) + 8 * r.below(3));
      break;
    }
    case POS: case POS_G: {
      sbp_msg_pos_llh_cov_t &p = m.pos_llh_cov;
      p.tow = tow;
      auto ang = [&](double lim) {
        double v = (r.unit() * 2 - 1) * lim;
        switch (r.below(12)) {
          case 0: v = (double)(int)v; break;
          case 1: v = (double)(int)v + (v < 0 ? -1 : 1) * 0.9999999996; break;
          case 2: v = (double)(int)v + 1.0 / 60 - 4e-10; break;
          case 3: v = r.chance(0.5) ? lim : -lim; break;
          case 4: v = (r.unit() - 0.5) * 1e-7; break;
          case 5: v = (r.unit() - 0.5) * 20; break;
          default: break;
        }
        return fabs(v) > lim ? (v < 0 ? -lim : lim) : v;
      };
      p.lat = ang(90); p.lon = ang(180);
      p.height = (r.unit() - 0.1) * (r.chance(0.2) ? 90000 : 900);
      double a = pow(10, r.unit() * 6 - 4), b = pow(10, r.unit() * 6 - 4), rho = r.chance(0.1) ? 0 : r.unit() * 2 - 1;
      if (r.chance(0.15)) b = a;
      if (r.chance(0.1)) rho = r.chance(0.5) ? 1 : -1;
      p.cov_n_n = (float)a; p.cov_e_e = (float)b; p.cov_n_e = (float)(rho * sqrt((double)p.cov_n_n * p.cov_e_e));
      p.cov_d_d = (float)pow(10, r.unit() * 6 - 4);
      if (r.chance(0.03)) p.cov_n_n = p.cov_e_e = p.cov_n_e = 0;
      p.n_sats = (uint8_t)r.below(40);
      p.flags = (uint8_t)((r.chance(0.1) ? 0 : 1 + r.below(6)) | (r.chance(0.5) ? 0 : (uint64_t)r.below(4) << 3) | (r.chance(0.1) ? 0x80u : 0));
      break;
    }
    case VEL: case VEL_G: {
      sbp_msg_vel_ned_t &v = m.vel_ned;
      v.tow = tow;
      double s = r.chance(0.3) ? 0.3 : r.chance(0.3) ? 2 : 60, th = r.unit() * 2 * M_PI, sp = r.unit() * s * 1000;
      if (r.chance(0.1)) th = M_PI / 4 * (double)r.below(8);
      if (r.chance(0.05)) th = -1e-4 * r.unit();
      v.n = (int32_t)llround(sp * cos(th)); v.e = (int32_t)llround(sp * sin(th)); v.d = (int32_t)r.range(-20000, 20000);
      if (r.chance(0.05)) v.n = v.e = 0;
      v.n_sats = (uint8_t)r.below(40);
      v.flags = (uint8_t)((r.chance(0.1) ? 0 : 1 + r.below(3)) | r.below(4) << 3);
      break;
    }
    case DOPS: {
      sbp_msg_dops_t &d = m.dops;
      d.tow = tow;
      d.gdop = (uint16_t)r.below(2000); d.pdop = (uint16_t)r.below(2000); d.tdop = (uint16_t)r.below(2000); d.hdop = (uint16_t)r.below(2000); d.vdop = (uint16_t)r.below(2000);
      if (r.chance(0.05)) d.hdop = 65535;
      d.flags = (uint8_t)((r.chance(0.15) ? 0 : 1 + r.below(6)) | (r.chance(0.2) ? 0x80u : 0));
      break;
    }
    case AGE: m.age_corrections.tow = tow; m.age_corrections.age = (uint16_t)(r.chance(0.1) ? 65535 : r.below(600)); break;
    case HDG: m.baseline_heading.tow = tow; m.baseline_heading.heading = (uint32_t)(r.chance(0.2) ? r.below(10) : r.below(359990)); m.baseline_heading.n_sats = (uint8_t)r.below(30); m.baseline_heading.flags = (uint8_t)(r.chance(0.7) ? 4 : r.below(7)); if (r.chance(0.1)) m.baseline_heading.flags |= 8; break;
    case AZEL: {
      sbp_msg_sv_az_el_t &a = m.sv_az_el;
      for (auto &s : sky) {
        if (a.n_azel >= 60 || r.chance(0.2)) continue;
        a.azel[a.n_azel].sid.sat = (uint8_t)s.sat; a.azel[a.n_azel].sid.code = (uint8_t)s.code;
        a.azel[a.n_azel].az = (uint8_t)r.below(180); a.azel[a.n_azel].el = (int8_t)r.range(r.chance(0.1) ? -20 : 0, 90);
        a.n_azel++;
      }
      break;
    }
    case MEAS: {
      sbp_msg_measurement_state_t &a = m.measurement_state;
      for (auto &s : sky) {
        if (a.n_states >= 70 || r.chance(0.3)) continue;
        a.states[a.n_states].mesid.sat = (uint8_t)s.sat; a.states[a.n_states].mesid.code = (uint8_t)s.code;
        a.states[a.n_states].cn0 = (uint8_t)r.below(256);
        a.n_states++;
      }
      if (r.chance(0.15) && a.n_states) { auto &x = a.states[r.below(a.n_states)]; x.mesid.code = 3; x.mesid.sat = (uint8_t)(93 + r.below(14)); }
      break;
    }
    case GROUP: m.group_meta.group_id = 1; m.group_meta.n_group_msgs = 3; break;
    case META: m.soln_meta.tow = tow; m.soln_meta.pdop = (uint16_t)r.below(2000); m.soln_meta.hdop = (uint16_t)r.below(2000); m.soln_meta.vdop = (uint16_t)r.below(2000); m.soln_meta.age_corrections = (uint16_t)(r.chance(0.1) ? 65535 : r.below(600)); break;
    case ORIENT: m.orient_euler.tow = tow; m.orient_euler.yaw = (int32_t)(r.chance(0.2) ? r.range(-10000, 10000) : r.range(-180000010, 180000010)); m.orient_euler.flags = (uint8_t)(r.chance(0.8) ? 1 : r.below(2)); if (r.chance(0.1)) m.orient_euler.flags |= 8; break;
  }
}
void fill_obs(sbp_msg_t &m, int wn, uint32_t tow, int total, int idx, uint64_t seed, const std::vector<Sat> &sky) {
  memset(&m, 0, sizeof m);
  Rng r(seed);
  m.obs.header.t.tow = tow; m.obs.header.t.wn = (uint16_t)wn;
  m.obs.header.n_obs = (uint8_t)(total << 4 | idx);
  size_t per = (sky.size() + (size_t)total - 1) / (size_t)total;
  if (per > 14) per = 14;
  for (size_t i = per * (size_t)idx; i < sky.size() && i < per * (size_t)(idx + 1); i++) {
    auto &o = m.obs.obs[m.obs.n_obs++];
    o.sid.sat = (uint8_t)sky[i].sat; o.sid.code = (uint8_t)sky[i].code;
    o.flags = (uint8_t)r.below(32);
  }
}
std::vector<Sat> make_sky(uint64_t seed) {
  Rng r(seed);
  std::vector<Sat> v;
  static const int GPSC[] = {0, 1, 9}, GLOC[] = {3, 4}, GALC[] = {14, 20}, BDSC[] = {12, 13}, QZSC[] = {31}, SBC[] = {2};
  auto add = [&](const int *codes, int nc, int lo, int hi, int n) {
    for (int i = 0; i < n; i++) {
      int s = (int)r.range(lo, hi);
      for (int k = 0; k < nc; k++) if (k == 0 || r.chance(0.5)) v.push_back({s, codes[k]});
    }
  };
  if (r.chance(0.8)) add(GPSC, 3, 1, 32, (int)r.below(r.chance(0.2) ? 18 : 9));
  if (r.chance(0.5)) add(GLOC, 2, 1, 28, (int)r.below(8));
  if (r.chance(0.5)) add(GALC, 2, 1, 36, (int)r.below(8));
  if (r.chance(0.4)) add(BDSC, 2, 1, 63, (int)r.below(8));
  if (r.chance(0.2)) add(SBC, 1, 120, 138, (int)r.below(3));
  if (r.chance(0.2)) add(QZSC, 1, 193, 202, (int)r.below(3));
  if (r.chance(0.1)) v.push_back({(int)r.range(1, 30), 59});
  // receivers list by satellite in any order
  for (size_t i = v.size(); i > 1; i--) if (r.chance(0.3)) std::swap(v[i - 1], v[r.below(i)]);
  return v;
}

// ---------------------------------------------------------------- deliveries
struct Dl { int id; bool obs; sbp_msg_t m; };
struct Cfg { int mode = GNSS; double freq = 10; int base = 0; int cog = 100, upd = 100; int rate[NSENT] = {1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1}; bool defaults = true; uint64_t sky = 1; bool wild = false; };
struct Hist { Cfg cfg; std::vector<Dl> d; double t0 = 1e300, t1 = -1e300; };
void history(const Plan &p, Hist &H, Ctx *c) {
  Link l; l.c = c;
  std::vector<Dl> all;
  for (auto &op : p.ops) {
    if (l.take(op)) continue;
    if (op.k == "cfg") {
      H.cfg.mode = (int)op.arg(0) % 3; H.cfg.freq = (double)op.arg(1, 10000) / 1000.0; H.cfg.base = (int)op.arg(2);
      H.cfg.defaults = op.arg(3) != 0; H.cfg.cog = (int)op.arg(4); H.cfg.upd = (int)op.arg(5); H.cfg.sky = (uint64_t)op.arg(6);
    }
    if (op.k == "rate") for (int i = 0; i < NSENT; i++) H.cfg.rate[i] = (int)op.arg((size_t)i);
    Dl d; d.obs = false; d.id = 0;
    if (op.k == "m") { d.id = (int)op.arg(0) & 15; fill(d.m, d.id, (int)op.arg(1), (uint32_t)op.arg(2), (uint64_t)op.arg(3), make_sky(H.cfg.sky + (uint64_t)op.arg(4))); H.t0 = std::min(H.t0, (double)op.arg(1) * 604800 + (double)op.arg(2) / 1000); H.t1 = std::max(H.t1, (double)op.arg(1) * 604800 + (double)op.arg(2) / 1000); }
    else if (op.k == "o") { d.obs = true; int tot = (int)op.arg(2, 1); if (tot < 1) tot = 1; if (tot > 15) tot = 15; fill_obs(d.m, (int)op.arg(0), (uint32_t)op.arg(1), tot, (int)op.arg(3) % tot, (uint64_t)op.arg(4), make_sky(H.cfg.sky + (uint64_t)op.arg(5))); }
    else if (op.k == "wild") {  // a message whose every field may hold anything the wire can carry
      Rng r((uint64_t)op.arg(1));
      d.id = (int)op.arg(0) % 17; d.obs = d.id == 16; H.cfg.wild = true;
      if (op.arg(2)) { for (size_t i = 0; i < sizeof d.m; i++) ((uint8_t *)&d.m)[i] = (uint8_t)r.below(256); }
      else {
        if (d.obs) fill_obs(d.m, 2200, (uint32_t)r.below(604800000), 1 + (int)r.below(15), 0, r.next(), make_sky(r.next()));
        else fill(d.m, d.id, 2200, (uint32_t)op.arg(3), r.next(), make_sky(r.next()));
        double od[] = {NAN, INFINITY, -INFINITY, 1e300, -1e300, 70000, -65536, 1e9, 91, 181};
        if (d.id == POS || d.id == POS_G) { double v = od[r.below(10)]; if (r.chance(0.5)) d.m.pos_llh_cov.lat = v; if (r.chance(0.5)) d.m.pos_llh_cov.lon = v; if (r.chance(0.3)) d.m.pos_llh_cov.height = v; if (r.chance(0.3)) d.m.pos_llh_cov.cov_n_n = (float)v; d.m.pos_llh_cov.flags = (uint8_t)r.below(256); }
        if (d.id == UTC || d.id == UTC_G) { d.m.utc_time.month = (uint8_t)r.below(256); d.m.utc_time.day = (uint8_t)r.below(256); d.m.utc_time.hours = 23 + (uint8_t)r.below(2); d.m.utc_time.minutes = 59; d.m.utc_time.seconds = 59 + (uint8_t)r.below(2); d.m.utc_time.ns = r.chance(0.5) ? 999999999 : (uint32_t)r.next(); d.m.utc_time.year = (uint16_t)r.next(); }
        if (d.id == ORIENT) d.m.orient_euler.yaw = r.chance(0.5) ? INT32_MIN : INT32_MAX;
        if (d.id == VEL || d.id == VEL_G) { d.m.vel_ned.n = INT32_MIN; d.m.vel_ned.e = (int32_t)r.next(); }
        if (d.obs) d.m.obs.header.n_obs = (uint8_t)r.below(256);
      }
      // counts and sizes are bounded by what a payload can hold
      if (d.obs) d.m.obs.n_obs %= 15;
      else if (d.id == AZEL) d.m.sv_az_el.n_azel %= 64;
      else if (d.id == MEAS) d.m.measurement_state.n_states %= 86;
      else if (d.id == GROUP) d.m.group_meta.n_group_msgs %= 127;
      if (c) c->fault("message with impossible values");
    } else continue;
    Bytes b;
    for (int i = 0; i < 4; i++) b.push_back((uint8_t)(all.size() >> (8 * i)));
    all.push_back(d);
    l.push(b);
  }
  Bytes s = l.finish();
  for (size_t i = 0; i + 4 <= s.size(); i += 4) H.d.push_back(all[rd(s, i, 4)]);
}

// ---------------------------------------------------------------- the converter
struct Cb { std::function<void(const void *, size_t)> sink; uint32_t step; };
void on_line(char *s, void *ctx) {
  Cb *c = (Cb *)ctx;
  uint32_t n = (uint32_t)strlen(s);
  c->sink(&c->step, 4); c->sink(&n, 4); c->sink(s, n);
}
void setup(sbp2nmea_t *st, const Cfg &f, void (*cb)(char *, void *), void *ctx) {
  sbp2nmea_init(st, (sbp2nmea_mode_t)f.mode, cb, ctx);
  sbp2nmea_base_id_set(st, (uint16_t)f.base);
  sbp2nmea_soln_freq_set(st, (float)f.freq);
  for (int i = 0; i < NSENT; i++) sbp2nmea_rate_set(st, f.rate[i], (sbp2nmea_nmea_id_t)i);
  if (!f.defaults) { sbp2nmea_cog_threshold_set(st, (float)f.cog / 1000.0f); sbp2nmea_cog_stationary_threshold_set(st, f.upd / 1000.0); }
}
void step(sbp2nmea_t *st, const Dl &d) {
  if (d.obs) { sbp_msg_obs_t o = d.m.obs; sbp2nmea_obs(st, &o); }
  else { sbp_msg_t m = d.m; sbp2nmea(st, &m, (sbp2nmea_sbp_id_t)d.id); }
}

// ---------------------------------------------------------------- reference model
// One field of a sentence: a fixed text (or one of several), or a number with
// so many digits after the point and at least so many before.
struct F {
  std::vector<std::string> alt;
  bool num = false; double v = 0, tol = 0; int dec = 0, width = 0; double mod = 0;
  std::vector<double> alts;
};
F T(const std::string &s) { F f; f.alt = {s}; return f; }
F T2(const std::string &a, const std::string &b) { F f; f.alt = {a, b}; return f; }
F N(double v, int dec, double tol, int width = 0) { F f; f.num = true; f.v = v; f.dec = dec; f.tol = tol + 0.5 * pow(10, -dec) + 1e-9 + fabs(v) * 1e-6; f.width = width; return f; }
struct S { std::string head; std::vector<F> f; };

std::string field_bad(const F &f, const std::string &g) {
  for (auto &a : f.alt) if (a == g) return "";
  if (f.num) {
    size_t i = 0;
    if (i < g.size() && g[i] == '-') i++;
    size_t d0 = i;
    while (i < g.size() && isdigit((unsigned char)g[i])) i++;
    size_t nd = i - d0, nf = 0;
    bool ok = nd > 0;
    if (f.dec > 0) {
      if (i < g.size() && g[i] == '.') { i++; size_t k = i; while (i < g.size() && isdigit((unsigned char)g[i])) i++; nf = i - k; } else ok = false;
    }
    if (!ok || i != g.size() || (int)nf != f.dec) return "'" + g + "' is not a number with " + std::to_string(f.dec) + " decimals";
    if ((int)nd < f.width) return "'" + g + "' has too few digits";
    double x = atof(g.c_str());
    std::vector<double> want = f.alts;
    want.push_back(f.v);
    for (double w : want) {
      double e = fabs(x - w);
      if (f.mod > 0) { e = fmod(e, f.mod); if (e > f.mod / 2) e = f.mod - e; if (x >= f.mod) return "'" + g + "' is a whole turn"; }
      if (e <= f.tol) return "";
    }
    return "'" + g + "', expected " + fmt("%.*f", f.dec, f.v);
  }
  return "'" + g + "', expected '" + (f.alt.empty() ? "" : f.alt[0]) + "'";
}

struct Model {
  Cfg cfg; bool fused = false, wagon = false;
  bool have[NID] = {};
  sbp_msg_t m[NID];
  int64_t last[NSENT]; 
  std::vector<Sat> obs; int seq = -1, total = 0; int owm = -1; uint32_t otow = 0; bool any_obs = false;
  std::vector<double> cog = {0};
  Model() { for (auto &x : last) x = -1; }

  int64_t tow(int id) const {
    if (!have[id]) return -2;
    const sbp_msg_t &x = m[id];
    switch (id) {
      case GPSTIME: case GPSTIME_G: return x.gps_time.tow;
      case UTC: case UTC_G: return x.utc_time.tow;
      case POS: case POS_G: return x.pos_llh_cov.tow;
      case VEL: case VEL_G: return x.vel_ned.tow;
      case DOPS: return x.dops.tow;
      case AGE: return x.age_corrections.tow;
      case HDG: return x.baseline_heading.tow;
      case META: return x.soln_meta.tow;
      case ORIENT: return x.orient_euler.tow;
    }
    return -2;
  }
  // false: nothing new can come of it
  bool take(const Dl &d) {
    if (d.obs) {
      const auto &h = d.m.obs.header;
      int n = h.n_obs >> 4, i = h.n_obs & 15;
      if (i == 0) obs.clear();
      else if (!any_obs || h.t.tow != otow || h.t.wn != owm || i != seq + 1) return false;
      any_obs = true; seq = i; total = n; otow = h.t.tow; owm = h.t.wn;
      for (int k = 0; k < d.m.obs.n_obs; k++) obs.push_back({d.m.obs.obs[k].sid.sat, d.m.obs.obs[k].sid.code});
      return true;
    }
    int id = d.id;
    if (cfg.mode == GNSS) id = id == GPSTIME ? GPSTIME_G : id == UTC ? UTC_G : id == POS ? POS_G : id == VEL ? VEL_G : id;
    if (cfg.mode == BEST && id == GROUP) fused = true;
    if (fused && id == GROUP) wagon = false;
    if (fused && id == META) wagon = true;
    if (id == MEAS) for (int k = 0; k < d.m.measurement_state.n_states; k++) if (d.m.measurement_state.states[k].mesid.sat > 28 && (d.m.measurement_state.states[k].mesid.code == 3 || d.m.measurement_state.states[k].mesid.code == 4)) return false;
    m[id] = d.m; have[id] = true;
    return true;
  }
  static bool in_fused(int s) { return s != HDT && s != GSA && s != GSV; }
  bool uses_fused(int s) const { return fused && in_fused(s); }
  int utc_of(int s) const { return uses_fused(s) ? UTC : UTC_G; }
  // what must carry the epoch's time of week
  std::vector<int> needs(int s) const {
    if (uses_fused(s)) switch (s) {
      case GGA: return {POS, META};
      case RMC: case VTG: return {POS, VEL};
      case GLL: case GST: return {POS};
      case PUBX: return {POS, VEL, META};
      case THS: return {ORIENT, POS};
      default: return {};
    }
    switch (s) {
      case HDT: return {HDG};
      case ZDA: case GSV: return {};
      case THS: return {ORIENT, POS_G};
      default: return {POS_G, GPSTIME_G, VEL_G, DOPS, AGE};
    }
  }
  bool ready(int s) const {
    if (cfg.mode == FUSED && !in_fused(s)) return false;
    int64_t t = tow(utc_of(s));
    if (t < 0 || t == last[s]) return false;
    if (uses_fused(s) && !wagon) return false;
    for (int id : needs(s)) if (tow(id) != t) return false;
    if (s == GSA) {
      if (!any_obs || seq + 1 != total) return false;
      int64_t dw = (int64_t)m[GPSTIME_G].gps_time.wn - owm;
      if (dw * WEEKMS + (int64_t)m[GPSTIME_G].gps_time.tow - (int64_t)otow > 0) return false;
    }
    return true;
  }
  // 1 due, 0 not due, -1 either: the epoch is not on the solution grid
  int due(int s) const {
    int n = cfg.rate[s];
    if (n == 0) return 0;
    double t = (double)tow(utc_of(s)), P = 1000.0 / (double)(float)cfg.freq;
    double k = floor(t / P + 1e-9), dev = t - k * P;
    // times of week are whole milliseconds: one may be early by its rounding
    double up = (k + 1) * P - t;
    if (up <= 0.5 + 1e-6) { k += 1; dev = 0; }
    if (dev < P / 2 - 1.01 || dev == 0) return fmod(k, n) == 0 ? 1 : 0;
    // more than half a period late: before the next epoch of the grid
    if (dev > P / 2 + 1.01) return up > 2 && n > 0 && fmod(k + 1, n) != 0 ? 0 : -1;
    return -1;
  }

  // ---- contents
  const sbp_msg_pos_llh_cov_t &pos(int s) const { return m[uses_fused(s) ? POS : POS_G].pos_llh_cov; }
  const sbp_msg_vel_ned_t &vel(int s) const { return m[uses_fused(s) ? VEL : VEL_G].vel_ned; }
  const sbp_msg_utc_time_t &utc(int s) const { return m[utc_of(s)].utc_time; }

  void put_utc(int s, bool time, int date, std::vector<F> &f) const {
    const auto &u = utc(s);
    if (u.flags == 0) {
      if (time) f.push_back(T(""));
      for (int i = 0; i < date; i++) f.push_back(T(""));
      return;
    }
    std::vector<F> g[2];
    for (int up = 0; up < 2; up++) {
      int64_t cs = ((int64_t)u.ns + (up ? 5000000 : 4999999)) / 10000000;
      int y = u.year, mo = u.month, d = u.day, h = u.hours, mi = u.minutes, se = u.seconds;
      if (cs >= 100) {
        cs = 0; se++;
        if (se >= 60) { se = 0; mi++; if (mi >= 60) { mi = 0; h++; if (h >= 24) { h = 0; d++;
          static const int dm[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
          int n = mo >= 1 && mo <= 12 ? dm[mo - 1] + (mo == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) : 31;
          if (d > n) { d = 1; mo++; if (mo > 12) { mo = 1; y++; } } } } }
      }
      if (time) g[up].push_back(T(fmt("%02d%02d%02d.%02d", h, mi, se, (int)cs)));
      if (date == 1) g[up].push_back(T(fmt("%02d%02d%02d", d, mo, y % 100)));
      if (date == 3) { g[up].push_back(T(fmt("%02d", d))); g[up].push_back(T(fmt("%02d", mo))); g[up].push_back(T(fmt("%d", y))); }
    }
    for (size_t i = 0; i < g[0].size(); i++) f.push_back(T2(g[1][i].alt[0], g[0][i].alt[0]));
  }
  static void put_ang(double v, int wdeg, char neg, char plus, std::vector<F> &f) {
    // degrees and minutes: the value as ddmm.mmmmmmm
    F x; x.num = true; x.dec = 7; x.width = wdeg + 2;
    double a = fabs(v);
    auto enc = [](double d) { double deg = floor(d); return deg * 100 + (d - deg) * 60; };
    x.v = enc(a); x.alts = {enc(round(a * 1e8) / 1e8)};
    x.tol = 5e-7;
    f.push_back(x);
    if (a < 1e-8) f.push_back(T2(std::string(1, plus), std::string(1, neg)));
    else f.push_back(T(std::string(1, v < 0 ? neg : plus)));
  }
  void put_pos(int s, bool valid, std::vector<F> &f) const {
    if (!valid) { for (int i = 0; i < 4; i++) f.push_back(T("")); return; }
    put_ang(pos(s).lat, 2, 'S', 'N', f); put_ang(pos(s).lon, 3, 'W', 'E', f);
  }
  static int mode_of(const sbp_msg_pos_llh_cov_t &p) { int x = p.flags & 7; return x == 7 ? 0 : x; }
  static int quality(int mode) { static const int q[] = {0, 1, 2, 5, 4, 6, 2}; return q[mode]; }
  static char modechar(int mode) { return "NADDDED"[mode]; }
  static bool corrected(int mode) { return mode == 2 || mode == 3 || mode == 4; }

  // course: computed above the update threshold, else the last one computed
  F course(const sbp_msg_vel_ned_t &v) {
    double n = v.n / 1000.0, e = v.e / 1000.0, sp = sqrt(n * n + e * e), thr = cfg.defaults ? 0.1 : cfg.upd / 1000.0;
    double c = atan2(e, n) * 180 / M_PI;
    if (c < 0) c += 360;
    F f = N(c, 1, 0); f.mod = 360; f.tol = 0.0501;
    bool valid = (v.flags & 7) != 0;
    if (sp > thr + 1e-4) { if (valid) cog.clear(); cog.push_back(c); }
    else if (sp >= thr - 1e-4) { f.alts = cog; cog.push_back(c); }
    else { f.v = cog.back(); f.alts = cog; }
    return f;
  }
  // the course field: empty at or below the threshold
  F course_field(const sbp_msg_vel_ned_t &v, const F &co) const {
    if (!(v.flags & 7)) return T("");
    double n = v.n / 1000.0, e = v.e / 1000.0, sp = sqrt(n * n + e * e), thr = cfg.defaults ? 0.1 : cfg.cog / 1000.0;
    if (sp < thr - 1e-4) return T("");
    F f = co;
    if (sp <= thr + 1e-4) f.alt = {""};
    return f;
  }
  static double speed(const sbp_msg_vel_ned_t &v) { return sqrt((double)v.n * v.n + (double)v.e * v.e) / 1000.0; }
  static int con(int code) {  // 0 GPS QZSS SBAS, 1 GLO, 2 GAL, 3 BDS, -1 unknown
    if (code <= 2) return code < 0 ? -1 : 0;
    if (code <= 4) return 1;
    if (code <= 11) return 0;
    if (code <= 13) return 3;
    if (code <= 28) return 2;
    if (code <= 30) return 1;
    if (code <= 43) return 0;
    if (code <= 55) return 3;
    if (code <= 58) return 0;
    if (code == 59) return 0; if (code == 60) return 0; if (code == 61) return 2; if (code == 62) return 0; if (code == 63) return 3;
    return -1;
  }
  static int real_con(int code) {  // telling GPS, SBAS, QZSS apart
    int c = con(code);
    if (c != 0) return c < 0 ? -1 : c + 10;
    if (code == 2 || (code >= 41 && code <= 43) || code == 60) return 1;
    if ((code >= 31 && code <= 40) || code == 62) return 2;
    return 0;
  }
  static int svid(const Sat &s) {
    switch (real_con(s.code)) { case 0: return s.sat; case 1: return s.sat - 87; case 2: return s.sat; case 11: return s.sat + 64; case 12: return s.sat + 300; case 13: return s.sat + 400; }
    return -1;
  }
  std::string talker(int c) const { static const char *t[] = {"GP", "GL", "GA", "GB"}; return t[c]; }
  static double tenth(double x) { return x; }

  std::vector<S> make(int s) {
    std::vector<S> out(1);
    S &q = out[0];
    std::vector<F> &f = q.f;
    switch (s) {
      case GGA: {
        q.head = "$GPGGA";
        const auto &p = pos(s);
        int md = mode_of(p), qi = quality(md);
        put_utc(s, true, 0, f);
        put_pos(s, qi != 0, f);
        f.push_back(T(std::to_string(qi)));
        double hdop = uses_fused(s) ? m[META].soln_meta.hdop : m[DOPS].dops.hdop, age = uses_fused(s) ? m[META].soln_meta.age_corrections : m[AGE].age_corrections.age;
        double geo = get_geoid_offset(p.lat * M_PI / 180, p.lon * M_PI / 180);
        if (!qi) { f.push_back(T("")); f.push_back(T("")); f.push_back(T("")); f.push_back(T("M")); f.push_back(T("")); f.push_back(T("M")); }
        else {
          f.push_back(T(fmt("%02d", p.n_sats)));
          if (qi == 6) f.push_back(T("")); else f.push_back(N(hdop / 100, 1, 0));
          f.push_back(N(p.height - geo, 2, 0.001)); f.push_back(T("M")); f.push_back(N(geo, 2, 0.001)); f.push_back(T("M"));
        }
        if (corrected(md)) { f.push_back(N(age / 10, 1, 0)); f.push_back(T(fmt("%04d", cfg.base & 1023))); }
        else { f.push_back(T("")); f.push_back(T("")); }
        break;
      }
      case RMC: {
        q.head = "$GPRMC";
        int md = mode_of(pos(s));
        const auto &v = vel(s);
        put_utc(s, true, 0, f);
        f.push_back(T(md ? "A" : "V"));
        put_pos(s, md != 0, f);
        F co = course(v);
        if (v.flags & 7) f.push_back(N(speed(v) * 3600 / 1852, 2, 0)); else f.push_back(T(""));
        f.push_back(course_field(v, co));
        put_utc(s, false, 1, f);
        f.push_back(T("")); f.push_back(T("")); f.push_back(T(std::string(1, modechar(md))));
        break;
      }
      case VTG: {
        q.head = "$GPVTG";
        const auto &v = vel(s);
        F co = course(v);
        f.push_back(course_field(v, co)); f.push_back(T("T")); f.push_back(T("")); f.push_back(T("M"));
        if (v.flags & 7) { f.push_back(N(speed(v) * 3600 / 1852, 2, 0)); f.push_back(T("N")); f.push_back(N(speed(v) * 3.6, 2, 0)); f.push_back(T("K")); }
        else { f.push_back(T("")); f.push_back(T("N")); f.push_back(T("")); f.push_back(T("K")); }
        f.push_back(T(std::string(1, modechar(mode_of(pos(s))))));
        break;
      }
      case HDT: {
        q.head = "$GPHDT";
        const auto &h = m[HDG].baseline_heading;
        if ((h.flags & 7) == 4) f.push_back(N(h.heading / 1000.0, 2, 0)); else f.push_back(T(""));
        f.push_back(T("T"));
        break;
      }
      case GLL: {
        q.head = "$GPGLL";
        int md = mode_of(pos(s));
        put_pos(s, md != 0, f);
        put_utc(s, true, 0, f);
        f.push_back(T(md ? "A" : "V")); f.push_back(T(std::string(1, modechar(md))));
        break;
      }
      case ZDA: q.head = "$GPZDA"; put_utc(s, true, 3, f); f.push_back(T("")); f.push_back(T("")); break;
      case GSA: {
        out.clear();
        const auto &d = m[DOPS].dops;
        bool fix = (d.flags & 7) != 0;
        std::vector<int> by[4];
        for (auto &o : obs) { int c = con(o.code); if (c < 0 || by[c].size() >= 12) continue; int id = svid(o); if (std::find(by[c].begin(), by[c].end(), id) == by[c].end()) by[c].push_back(id); }
        int nc = 0;
        for (auto &b : by) nc += !b.empty();
        for (int c = 0; c < 4; c++) {
          if (by[c].empty() && !(nc == 0 && c == 0)) continue;
          std::sort(by[c].begin(), by[c].end());
          S x; x.head = "$" + (nc > 1 ? std::string("GN") : talker(c)) + "GSA";
          x.f = {T("A"), T(fix ? "3" : "1")};
          for (size_t i = 0; i < 12; i++) x.f.push_back(T(i < by[c].size() ? fmt("%02d", by[c][i]) : ""));
          for (double v : {(double)d.pdop, (double)d.hdop, (double)d.vdop}) if (fix) x.f.push_back(N(v / 100, 1, 0)); else x.f.push_back(T(""));
          out.push_back(x);
        }
        break;
      }
      case GST: {
        const auto &p = pos(s);
        bool used[4] = {}; int nc = 0;
        for (auto &o : obs) { int c = con(o.code); if (c >= 0 && !used[c]) { used[c] = true; nc++; } }
        q.head = "$GPGST";
        put_utc(s, true, 0, f);
        if (!nc || !mode_of(p)) { for (int i = 0; i < 7; i++) f.push_back(T("")); break; }
        if (nc > 1) q.head = "$GNGST"; else for (int c = 0; c < 4; c++) if (used[c]) q.head = "$" + talker(c) + "GST";
        f.push_back(T(""));
        double a = p.cov_n_n, b = p.cov_e_e, x = p.cov_n_e, tr = a + b, dd = sqrt((a - b) * (a - b) / 4 + x * x);
        double l1 = tr / 2 + dd, l2 = tr / 2 - dd;
        if (l2 < 0) l2 = 0;
        // what single precision leaves of the discriminant
        double e = sqrt(dd * dd + 4e-7 * tr * tr) - dd + 2e-7 * tr;
        f.push_back(N(sqrt(l1), 6, sqrt(l1 + e) - (l1 > e ? sqrt(l1 - e) : 0)));
        f.push_back(N(sqrt(l2), 6, sqrt(l2 + e) - (l2 > e ? sqrt(l2 - e) : 0)));
        // orientation of the larger axis from north; half a turn makes no difference
        double d = a >= b ? dd + (a - b) / 2 : dd > 0 ? x * x / (dd + (b - a) / 2) : 0;
        auto th = [&](double q) { return q > 0 ? atan(x / q) * 180 / M_PI : x < 0 ? -90.0 : 90.0; };
        F orient = N(th(d), 1, 0);
        orient.tol = 0.06 + std::max(fabs(th(d) - th(d + e)), fabs(th(d) - th(d - e)));
        orient.alts = {orient.v + 180, orient.v - 180};
        if (d <= e) { orient.alts.push_back(90); orient.alts.push_back(-90); orient.alts.push_back(0); }
        f.push_back(orient);
        f.push_back(N(sqrt(a), 6, sqrt(a) * 1e-5)); f.push_back(N(sqrt(b), 6, sqrt(b) * 1e-5)); f.push_back(N(sqrt((double)p.cov_d_d), 6, sqrt((double)p.cov_d_d) * 1e-5));
        break;
      }
      case GSV: {
        out.clear();
        std::vector<int> by[4];
        const auto &a = m[AZEL].sv_az_el;
        int na = have[AZEL] ? a.n_azel : 0;
        for (int i = 0; i < na; i++) { int c = con(a.azel[i].sid.code); if (c >= 0) by[c].push_back(i); }
        for (int c = 0; c < 4; c++) {
          int n = (int)by[c].size(), k = (n + 3) / 4;
          for (int i = 0; i < k; i++) {
            S x; x.head = "$" + talker(c) + "GSV";
            x.f = {T(std::to_string(k)), T(std::to_string(i + 1)), T(fmt("%02d", n))};
            for (int j = i * 4; j < n && j < i * 4 + 4; j++) {
              const auto &e = a.azel[by[c][(size_t)j]];
              Sat st = {e.sid.sat, e.sid.code};
              x.f.push_back(T(fmt("%02d", svid(st)))); x.f.push_back(T(fmt("%02d", e.el))); x.f.push_back(T(fmt("%03d", 2 * e.az)));
              int cn = -1;
              if (have[MEAS]) for (int w = 0; w < m[MEAS].measurement_state.n_states && cn < 0; w++) { const auto &ms = m[MEAS].measurement_state.states[w]; if (ms.mesid.sat == e.sid.sat && real_con(ms.mesid.code) == real_con(e.sid.code)) cn = ms.cn0; }
              if (cn < 0) x.f.push_back(T("")); else x.f.push_back(T2(fmt("%02d", (int)floor(cn / 4.0 + 0.5)), fmt("%02d", (int)ceil(cn / 4.0 - 0.5))));
            }
            out.push_back(x);
          }
        }
        if (out.empty()) { S x; x.head = "$GPGSV"; x.f = {T("1"), T("1"), T("0")}; out.push_back(x); }
        break;
      }
      case PUBX: {
        q.head = "$PUBX";
        const auto &p = pos(s);
        const auto &v = vel(s);
        int md = mode_of(p);
        f.push_back(T("00"));
        put_utc(s, true, 0, f);
        put_pos(s, md != 0, f);
        if (md) f.push_back(N(p.height, 2, 0)); else f.push_back(T(""));
        f.push_back(T(!md ? "NF" : md == 5 ? "DR" : corrected(md) ? "D3" : "G3"));
        if (md) { f.push_back(N(sqrt((double)p.cov_n_n + p.cov_e_e), 1, 0)); f.push_back(N(sqrt((double)p.cov_d_d), 1, 0)); } else { f.push_back(T("")); f.push_back(T("")); }
        F co = course(v);
        if (v.flags & 7) { f.push_back(N(speed(v) * 3.6, 2, 0)); f.push_back(course_field(v, co)); f.push_back(N(v.d / 1000.0, 2, 0)); }
        else for (int i = 0; i < 3; i++) f.push_back(T(""));
        bool fu = uses_fused(s);
        if (corrected(md)) f.push_back(N((fu ? m[META].soln_meta.age_corrections : m[AGE].age_corrections.age) / 10.0, 1, 0)); else f.push_back(T(""));
        if (!md || md == 5) for (int i = 0; i < 3; i++) f.push_back(T(""));
        else if (fu) { f.push_back(N(m[META].soln_meta.hdop / 100.0, 1, 0)); f.push_back(N(m[META].soln_meta.vdop / 100.0, 1, 0)); f.push_back(T("")); }
        else { f.push_back(N(m[DOPS].dops.hdop / 100.0, 1, 0)); f.push_back(N(m[DOPS].dops.vdop / 100.0, 1, 0)); f.push_back(N(m[DOPS].dops.tdop / 100.0, 1, 0)); }
        f.push_back(T(std::to_string(p.n_sats))); f.push_back(T("0")); f.push_back(T(md == 5 ? "1" : "0"));
        break;
      }
      case THS: {
        q.head = "$GPTHS";
        const auto &o = m[ORIENT].orient_euler;
        int md = mode_of(pos(s));
        if (!md || (o.flags & 7) == 0) { f = {T(""), T("V")}; break; }
        F y = N(0, 2, 0);
        double v = fmod((double)o.yaw / 1e6, 360);
        if (v < 0) v += 360;
        y.v = v; y.mod = 360; y.tol = 0.0051;
        f = {y, T(md == 5 ? "E" : "A")};
        break;
      }
    }
    return out;
  }
};

struct Line { uint32_t step; std::string s; };
// Start, printable body, checksum, line end.  "" when well formed; fields in f.
std::string malformed(const std::string &s, std::string &head, std::vector<std::string> &f) {
  if (s.size() < 9 || s[0] != '$') return "no start character";
  if (s.size() > 150) return "longer than any buffer";
  if (s.substr(s.size() - 2) != "\r\n") return "no line end";
  if (s[s.size() - 5] != '*') return "no checksum";
  std::string body = s.substr(1, s.size() - 6);
  uint8_t sum = 0;
  for (char ch : body) { if (ch < 0x20 || ch > 0x7E || ch == '*' || ch == '$') return "a character that cannot be in a sentence"; sum ^= (uint8_t)ch; }
  if (fmt("%02X", sum) != s.substr(s.size() - 4, 2)) return "wrong checksum";
  f.clear();
  size_t i = 0;
  while (true) { size_t j = body.find(',', i); f.push_back(body.substr(i, j == std::string::npos ? j : j - i)); if (j == std::string::npos) break; i = j + 1; }
  head = "$" + f[0];
  f.erase(f.begin());
  return "";
}
int kind_of(const std::string &head) {
  if (head == "$PUBX") return PUBX;
  if (head.size() == 6) for (int i = 0; i < NSENT; i++) if (head.substr(3) == SENT[i]) return i;
  return -1;
}

struct NmeaHarness : Harness {
  const char *name() override { return "nmea"; }
  std::vector<std::string> properties() override { return {"C19", "C20"}; }
  std::string rule(const std::string &) override {
    return "a simulated receiver computes solutions epoch by epoch and sends the messages of each over a link that loses, repeats and delays them, with observation sets, gaps, clock jumps and week rollovers; a history counts as distinct by the hash of its sequence of message kinds and faults";
  }
  std::vector<std::string> real_components() override { return {"gnss_converters sbp_nmea", "gnss_converters nmea"}; }
  std::vector<std::string> stub_components() override { return {"libsbp and libswiftnav (stand-ins)", "the receiver and the link (simulated)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override { return o.k == "rate" || (o.k == "dup" && i == 0); }
  Plan gen(uint64_t seed, const std::string &Fo) override {
    Rng r(seed);
    Plan p; p.focus = Fo; p.seed = seed;
    bool rates = Fo == "C20";
    int mode = (int)r.weighted({3, 4, 3});
    static const int FR[] = {10000, 10000, 10000, 5000, 1000, 2000, 4000, 20000, 3000, 8000, 12500, 15000, 30000, 7000, 100000, 500, 6000};
    int fq = FR[r.below(rates || r.chance(0.3) ? 17 : 4)];
    p.ops.push_back(Op("cfg", {mode, fq, (int64_t)r.below(r.chance(0.5) ? 1024 : 65536), r.chance(0.5), r.chance(0.3) ? 0 : (int64_t)r.below(1000), r.chance(0.3) ? 0 : (int64_t)r.below(1000), (int64_t)r.below(1000000)}));
    Op rt("rate", {});
    for (int i = 0; i < NSENT; i++) rt.a.push_back(rates ? (r.chance(0.2) ? 0 : r.chance(0.3) ? 1 : 1 + (int64_t)r.below(r.chance(0.3) ? 40 : 10)) : r.chance(0.8) ? 1 : r.chance(0.5) ? 0 : 1 + (int64_t)r.below(4));
    p.ops.push_back(rt);
    FaultGen g(r, p, false, rates ? 0.4 : 0.75);
    double P = 1e6 / fq;  // ms
    int64_t perweek = (int64_t)floor((double)WEEKMS / P);
    int64_t k = r.chance(0.3) ? perweek - (int64_t)r.below(8) - 1 : r.chance(0.15) ? 0 : (int64_t)r.below((uint64_t)perweek);
    if (r.chance(0.4)) { int64_t n = 10; k -= k % n; }
    int wn = 1877 + (int)r.below(600);
    double drift = r.chance(0.8) ? 0 : r.chance(0.7) ? floor(r.unit() * P * 0.45) : floor((r.unit() - 0.5) * P);
    int n = (int)r.range(1, rates ? 60 : 14);
    bool has_g = mode == FUSED ? r.chance(0.3) : true, has_f = mode == GNSS ? r.chance(0.2) : mode == FUSED ? true : r.chance(0.6);
    bool legacy = mode == GNSS && !has_f && r.chance(0.5);
    bool tm = r.chance(0.15);  // observations of the epoch after the solution
    bool permute = r.chance(0.15);
    double drop_kind = r.chance(0.2) ? 0.1 : 0;
    bool omit[NID];
    for (auto &o : omit) o = r.chance(drop_kind);
    int64_t skychg = 0;
    for (int i = 0; i < n; i++) {
      if (i) {
        k++;
        if (r.chance(0.05)) { k += r.range(1, 30); }
        if (r.chance(0.03)) { k = (int64_t)r.below((uint64_t)perweek); if (r.chance(0.3)) wn += (int)r.range(-2, 3); }
        if (r.chance(0.03)) k -= r.range(1, 5);
        if (r.chance(0.02)) drift = floor(r.unit() * P * 0.4);
      }
      if (k < 0) { k += perweek; wn--; }
      int64_t tow = (int64_t)floor((double)k * P + 0.5) + (int64_t)drift;
      if (tow >= WEEKMS) { k = 0; wn++; tow = (int64_t)drift; }
      if (tow < 0) tow = 0;
      if (r.chance(0.1)) skychg++;
      std::vector<Op> es;
      auto M = [&](int id) { if (!omit[id]) es.push_back(Op("m", {id, wn, tow, g.sd(), skychg})); };
      int tot = 1 + (int)r.below(3);
      if (r.chance(0.05)) tot = 6 + (int)r.below(10);
      if (tm) { int64_t t2 = tow + (int64_t)P; int w2 = wn; if (t2 >= WEEKMS) { t2 -= WEEKMS; w2++; } for (int j = 0; j < tot; j++) es.push_back(Op("o", {w2, t2, tot, j, g.sd(), skychg})); }
      else if (!r.chance(0.05)) for (int j = 0; j < tot; j++) es.push_back(Op("o", {wn, tow, tot, j, g.sd(), skychg}));
      size_t mid = es.size();
      if (has_g) {
        if (legacy) { M(GPSTIME); M(UTC); } else { M(GPSTIME_G); M(UTC_G); }
        if (r.chance(0.6)) { M(AZEL); M(MEAS); }
        M(legacy ? POS : POS_G); M(legacy ? VEL : VEL_G); M(DOPS); M(AGE); M(HDG);
      }
      if (has_f) { M(GROUP); M(GPSTIME); M(UTC); M(POS); M(VEL); M(ORIENT); M(META); }
      else if (r.chance(0.5)) M(ORIENT);
      if (permute) for (size_t j = es.size(); j > mid + 1; j--) if (r.chance(0.3)) std::swap(es[j - 1], es[mid + r.below(j - mid)]);
      for (auto &o : es) {
        g.push(o);
        if (Fo == "C21" && r.chance(0.1)) p.ops.push_back(Op("wild", {(int64_t)r.below(17), g.sd(), r.chance(0.3), tow}));
      }
    }
    return p;
  }
  bool job(const Plan &p, Ctx *c, Job &j) override {
    auto H = std::make_shared<Hist>();
    history(p, *H, c);
    j.tool = "sbp2nmea"; j.framing = FR_INDEX; j.out = OUT_NMEA;
    if (H->t1 > H->t0) j.span = std::min(H->t1 - H->t0, 86400.0);
    j.api = [H](IO &io) {
      sbp2nmea_t *st = (sbp2nmea_t *)io.state(0, sizeof *st);
      setup(st, H->cfg, [](char *s, void *x) { ((IO *)x)->write((uint8_t *)s, strlen(s)); }, &io);
      for (auto &d : H->d) { io.pause(); step(st, d); }
      return 0;
    };
    return true;
  }
  void run(Ctx &c) override {
    Hist H;
    history(c.plan, H, &c);
    c.shape(ops_shape(c.plan));
    if (H.t1 > H.t0) c.simtime(std::min(H.t1 - H.t0, 86400.0));
    SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
      Cb cb{sink, 0};
      sbp2nmea_t *st = (sbp2nmea_t *)malloc(sizeof *st);
      memset(st, 0xA5, sizeof *st);
      setup(st, H.cfg, on_line, &cb);
      for (size_t i = 0; i < H.d.size(); i++) { cb.step = (uint32_t)i; step(st, H.d[i]); }
      free(st);
    });
    if (so.crashed || so.hang) { c.violate("C21", so.crashed ? so.crash_key : "hang: " + so.crash_key, so.crash_text); return; }
    c.log(so.data);
    std::vector<Line> L;
    for (size_t i = 0; i + 8 <= so.data.size();) { uint32_t s = (uint32_t)rd(so.data, i, 4), n = (uint32_t)rd(so.data, i + 4, 4); L.push_back({s, std::string(so.data.begin() + (long)i + 8, so.data.begin() + (long)(i + 8 + n))}); i += 8 + n; }
    if (H.cfg.wild) return;
    Model M; M.cfg = H.cfg; M.fused = H.cfg.mode == FUSED;
    memset(M.m, 0, sizeof M.m);
    // every line well formed, whatever the history
    for (auto &l : L) {
      std::string head; std::vector<std::string> f;
      std::string w = malformed(l.s, head, f);
      c.evals(1);
      if (!w.empty()) { c.violate("C19", "malformed sentence: " + w, l.s); return; }
    }
    const std::string &foc = c.plan.focus;
    size_t li = 0;
    for (size_t i = 0; i < H.d.size(); i++) {
      bool live = M.take(H.d[i]);
      for (int s = 0; s < NSENT; s++) {
        bool rdy = live && M.ready(s);
        int due = rdy ? M.due(s) : 0;
        std::string head; std::vector<std::string> f;
        bool here = li < L.size() && L[li].step == i && malformed(L[li].s, head, f).empty() && kind_of(head) == s;
        c.evals(1);
        if (!rdy || due == 0) {
          if (!here) continue;
          if (!rdy) c.violate("C19", fmt("%s sent without what it needs for its epoch", SENT[s]), fmt("step %zu: ", i) + L[li].s);
          else c.violate("C20", fmt("sentence sent at an epoch its rate leaves out"), fmt("rate %d, %.3f Hz, time of week %lld ms: ", H.cfg.rate[s], H.cfg.freq, (long long)M.tow(M.utc_of(s))) + L[li].s);
          return;
        }
        if (!here) {
          if (due < 0) { c.probe("epoch off the solution grid"); continue; }
          c.violate(foc == "C20" ? "C20" : "C19", foc == "C20" ? "sentence due at an epoch not sent" : fmt("%s not sent though everything for its epoch is there", SENT[s]),
                    fmt("step %zu, rate %d, %.3f Hz, time of week %lld ms", i, H.cfg.rate[s], H.cfg.freq, (long long)M.tow(M.utc_of(s))));
          return;
        }
        c.probe(("sent " + std::string(SENT[s])).c_str());
        M.last[s] = M.tow(M.utc_of(s));
        for (auto &q : M.make(s)) {
          here = li < L.size() && L[li].step == i && malformed(L[li].s, head, f).empty() && kind_of(head) == s;
          if (!here) { c.violate("C19", fmt("%s incomplete: a sentence of the set is missing", SENT[s]), fmt("step %zu", i)); return; }
          std::string w;
          if (head != q.head) w = head + ", expected " + q.head;
          else if (f.size() != q.f.size()) w = fmt("%zu fields, expected %zu", f.size(), q.f.size());
          for (size_t j = 0; j < f.size() && w.empty(); j++) { w = field_bad(q.f[j], f[j]); if (!w.empty()) w = fmt("field %zu is ", j + 1) + w; }
          c.evals(f.size());
          if (!w.empty()) { c.violate("C19", fmt("%s content", SENT[s]), w + ": " + L[li].s); return; }
          li++;
        }
        if (li < L.size() && L[li].step == i && malformed(L[li].s, head, f).empty() && kind_of(head) == s) { c.violate("C19", fmt("%s sent more than once for an epoch", SENT[s]), L[li].s); return; }
      }
      if (li < L.size() && L[li].step == i) { c.violate("C19", "sentence of no kind asked for", L[li].s); return; }
    }
  }
};
}  // namespace
Harness *make_nmea() { static NmeaHarness h; return &h; }
}  // namespace sim
