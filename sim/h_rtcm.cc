// rtcm3tosbp under simulation: C01-C07, and its part of C21-C23.
#include <map>
#include "harness.h"
#include "rtcm_model.h"
#include "tool.h"

extern "C" {
#include <gnss-converters/rtcm3_sbp.h>
#include <gnss-converters/time_truth.h>
int rtcm3tosbp_main(int argc, char **argv, const char *opts, int (*readfn)(uint8_t *, size_t, void *), sbp_write_fn_t writefn, void *context);
}

extern int64_t sim_clock;  // what time() returns
namespace sim {
namespace {

struct Piece { Bytes b; bool frame = false; int tev = -1; };
struct TimeEv { size_t at; int source; GT t; };
struct Built {
  Bytes s;
  std::vector<TimeEv> times;
  std::vector<std::string> argv;
  RtcmOpt o;
  bool lib = false, dirty = false, weird = false;
  ReadMode mode = RM_FULL; size_t rmax = 64; uint64_t cseed = 1;
  int64_t rerr = -1, wfail = -1; bool wshort = false; int wret = 0;
  int nframes = 0;
  double span = 0;
  int64_t clock = 1700000000;
};

// ---------- encoders ----------
GT at(const GT &t0, int64_t ms) { GT t = t0; t.tow += (double)ms / 1000.0; return gnorm(t); }
int64_t tow_ms(const GT &t) { int64_t v = (int64_t)llround(t.tow * 1000.0); return v % 604800000; }
int64_t glo_tod(const GT &t) { int64_t v = tow_ms(t) + 10800000 - leap_at(t) * 1000; return ((v % 86400000) + 86400000) % 86400000; }

const int kCommonSig[4][8] = {{2, 15, 16, 22, 10, 4, 30, 17}, {2, 8, 3, 9, 2, 8, 2, 8}, {2, 4, 14, 18, 22, 23, 8, 5}, {2, 14, 22, 8, 25, 30, 2, 14}};

Bytes enc_msm(const GT &t0, const Op &op) {
  int cons = (int)op.arg(0), type = (int)op.arg(1), stn = (int)op.arg(2);
  GT t = at(t0, op.arg(3));
  int mult = (int)op.arg(4), nsat = (int)op.arg(5), nsig = (int)op.arg(6);
  Rng r((uint64_t)op.arg(7));
  int flavor = (int)op.arg(8);
  static const int base[4] = {1070, 1080, 1090, 1120};
  bool full = type == 5 || type == 7, ext = type >= 6;
  BitW w;
  w.u(base[cons] + type, 12); w.u(stn, 12);
  if (cons == GLO) { w.u((uint64_t)(t.tow / 86400) % 7, 3); w.u(glo_tod(t), 27); }
  else {
    int64_t ms = tow_ms(t);
    if (cons == BDS) {
      ms -= 14000;
      if (ms < 0) { if (flavor & 4) ms += (1ll << 30); else ms += 604800000; }
    }
    if (flavor & 8) ms = 604800000 + (int64_t)r.below(1000000);  // out of range
    w.u(ms, 30);
  }
  w.u(mult, 1); w.u(r.below(8), 3); w.u(r.below(128), 7); w.u(r.below(4), 2); w.u(r.below(4), 2); w.u(r.below(2), 1); w.u(r.below(8), 3);
  int lim = cons == GPS ? 32 : cons == GLO ? 24 : cons == GAL ? 36 : 63;
  if (nsat > 64) nsat = 64;
  if (nsig < 1) nsig = 1;
  while (nsat * nsig > 64) { if (nsig > 1) nsig--; else nsat--; }
  std::set<int> sats, sigs;
  int guard = 0;
  while ((int)sats.size() < nsat && guard++ < 1000) sats.insert((int)(r.chance(0.97) ? 1 + r.below(lim) : 1 + r.below(64)));
  while ((int)sigs.size() < nsig && guard++ < 2000) sigs.insert(r.chance(0.9) ? kCommonSig[cons][r.below(8)] : (int)(1 + r.below(32)));
  for (int i = 1; i <= 64; i++) w.u(sats.count(i), 1);
  for (int i = 1; i <= 32; i++) w.u(sigs.count(i), 1);
  std::vector<int> mask(sats.size() * sigs.size());
  size_t nc = 0;
  for (auto &m : mask) { m = r.chance(0.85); nc += (size_t)m; w.u((uint64_t)m, 1); }
  for (size_t i = 0; i < sats.size(); i++) w.u(r.chance(0.03) ? 255 : 60 + r.below(40), 8);
  if (full) for (size_t i = 0; i < sats.size(); i++) w.u(cons == GLO ? r.below(16) : r.below(16), 4);
  for (size_t i = 0; i < sats.size(); i++) w.u(r.below(1024), 10);
  if (full) for (size_t i = 0; i < sats.size(); i++) w.s(r.chance(0.05) ? -8192 : r.range(-4000, 4000), 14);
  for (size_t i = 0; i < nc; i++) { int b = ext ? 20 : 15; w.s(r.chance(0.06) ? -(1ll << (b - 1)) : r.range(-(1ll << (b - 1)) + 1, (1ll << (b - 1)) - 1), b); }
  for (size_t i = 0; i < nc; i++) { int b = ext ? 24 : 22; w.s(r.chance(0.1) ? -(1ll << (b - 1)) : r.range(-(1ll << (b - 1)) + 1, (1ll << (b - 1)) - 1), b); }
  for (size_t i = 0; i < nc; i++) w.u(r.below(ext ? 720 : 16), ext ? 10 : 4);
  for (size_t i = 0; i < nc; i++) w.u(r.chance(0.3), 1);
  for (size_t i = 0; i < nc; i++) w.u(r.chance(0.05) ? 0 : ext ? (r.chance(0.05) ? 1020 + r.below(4) : r.below(1024)) : r.below(64), ext ? 10 : 6);
  if (full) for (size_t i = 0; i < nc; i++) w.s(r.chance(0.1) ? -16384 : r.range(-16383, 16383), 15);
  return w.b;
}
Bytes enc_leg(const GT &t0, const Op &op) {
  int num = (int)op.arg(0), stn = (int)op.arg(1);
  GT t = at(t0, op.arg(2));
  int sync = (int)op.arg(3), n = (int)std::min<int64_t>(op.arg(4), 31);
  Rng r((uint64_t)op.arg(5));
  bool glo = num == 1010 || num == 1012, l2 = num == 1004 || num == 1012;
  BitW w;
  w.u(num, 12); w.u(stn, 12);
  w.u((uint64_t)(glo ? glo_tod(t) : tow_ms(t)), glo ? 27 : 30);
  w.u(sync, 1); w.u(n, 5); w.u(r.below(2), 1); w.u(r.below(8), 3);
  std::set<int> used;
  for (int i = 0; i < n; i++) {
    int sat, g = 0;
    do sat = r.chance(0.9) ? 1 + (int)r.below(glo ? 24 : 32) : (int)r.below(64); while (used.count(sat) && g++ < 200);
    used.insert(sat);
    w.u(sat, 6); w.u(r.below(2), 1);
    if (glo) w.u(r.below(21), 5);
    uint64_t pr = 1 + r.below(glo ? 29979245 : 14989622);
    if (pr == 0x80000 || pr == 0xF80000) pr++;
    w.u(pr, glo ? 25 : 24);
    w.s(r.chance(0.05) ? -524288 : r.range(-524287, 524287), 20);
    w.u(r.below(128), 7);
    w.u(glo ? 32 + r.below(10) : 65 + r.below(20), glo ? 7 : 8);
    w.u(r.chance(0.05) ? 0 : r.below(255), 8);
    if (l2) {
      w.u(r.below(4), 2); w.s(r.chance(0.05) ? -8192 : r.range(-8191, 8191), 14);
      w.s(r.chance(0.05) ? -524288 : r.range(-524287, 524287), 20);
      w.u(r.below(128), 7); w.u(r.chance(0.05) ? 0 : r.below(255), 8);
    }
  }
  return w.b;
}
Bytes enc_eph(const GT &t0, const Op &op) {
  int num = (int)op.arg(0);
  GT t = at(t0, op.arg(1));
  int sat = (int)op.arg(2);
  Rng r((uint64_t)op.arg(3));
  int bad = (int)op.arg(4);
  BitW w;
  auto rnd = [&](int bits) { w.u(r.next() & ((1ull << bits) - 1), bits); };
  w.u(num, 12);
  if (num == 1020) {
    w.u(sat, 6); w.u(bad & 1 ? r.below(32) : r.below(14), 5);
    rnd(2); rnd(2); rnd(12);
    w.u(r.chance(0.2), 1); rnd(1);
    w.u((uint64_t)(glo_tod(t) / 900000) % 96, 7);
    for (int i = 0; i < 3; i++) { rnd(24); rnd(27); rnd(5); }
    rnd(1); rnd(11); rnd(2); w.u(r.chance(0.1), 1); rnd(22); rnd(5); rnd(5); rnd(1); rnd(4); rnd(11); rnd(2); rnd(1); rnd(11); rnd(32); rnd(5); rnd(22); rnd(1); rnd(7);
    return w.b;
  }
  int health = r.chance(0.7) ? 0 : (int)r.below(num == 1042 ? 2 : num == 1045 ? 8 : 64);
  GT te = t; te.tow += (double)r.range(-3600, 7200); te = gnorm(te);
  GT tc = te; if (r.chance(0.3)) { tc.tow += (double)r.range(-7200, 7200); tc = gnorm(tc); }
  int iodc = (int)r.below(1024), iode = (bad & 1) ? (int)r.below(256) : iodc & 0xFF;
  if (r.chance(0.3)) { static const int hot[] = {239, 240, 247, 248, 255, 256, 496, 497, 503, 504, 510, 511, 512, 751, 752, 756, 757, 758, 1020, 1021, 1023}; iodc = hot[r.below(21)]; if (!(bad & 1)) iode = iodc & 0xFF; }
  int cw = num == 1042 ? 18 : 16;
  uint64_t toe, toc;
  if (num == 1019 || num == 1044) { toe = (uint64_t)(te.tow / 16); toc = (uint64_t)(tc.tow / 16); if (bad & 2) toe = 37800 + r.below(27000); if (bad & 4) toc = 37800 + r.below(27000); }
  else if (num == 1042) { toe = (uint64_t)(te.tow / 8); toc = (uint64_t)(tc.tow / 8); }
  else { toe = (uint64_t)(te.tow / 60); toc = (uint64_t)(tc.tow / 60); if (bad & 2) toe = 10080 + r.below(6000); if (bad & 4) toc = 10080 + r.below(6000); }
  int wk10 = te.wn % 1024;
  if (num == 1019) { w.u(sat, 6); w.u(wk10, 10); rnd(4); rnd(2); rnd(14); w.u(iode, 8); w.u(toc, 16); rnd(8); rnd(16); rnd(22); w.u(iodc, 10); }
  else if (num == 1042) { w.u(sat, 6); w.u(te.wn - 1356, 13); rnd(4); rnd(14); rnd(5); w.u(toc, 17); rnd(11); rnd(22); rnd(24); rnd(5); }
  else if (num == 1044) { w.u(sat & 15, 4); w.u(toc, 16); rnd(8); rnd(16); rnd(22); w.u(iode, 8); }
  else { w.u(sat, 6); w.u(te.wn - 1024, 12); rnd(10); rnd(8); rnd(14); w.u(toc, 14); rnd(6); rnd(21); rnd(31); }
  rnd(cw); rnd(16); rnd(32); rnd(cw); rnd(32); rnd(cw); rnd(32);
  w.u(toe, num >= 1045 ? 14 : num == 1042 ? 17 : 16);
  rnd(cw); rnd(32); rnd(cw); rnd(32); rnd(cw); rnd(32); rnd(24);
  if (num == 1019) { rnd(8); w.u(health, 6); rnd(1); rnd(1); }
  else if (num == 1042) { rnd(10); rnd(10); w.u(health & 1, 1); }
  else if (num == 1044) { rnd(14); rnd(2); w.u(wk10, 10); rnd(4); w.u(health, 6); rnd(8); w.u(iodc, 10); rnd(1); }
  else if (num == 1045) { rnd(10); w.u(health, 3); w.u(0, 7); }
  else { rnd(10); rnd(10); w.u(health, 6); w.u(0, 2); }
  return w.b;
}
Bytes enc_pos(const Op &op) {
  Rng r((uint64_t)op.arg(2));
  BitW w;
  w.u(op.arg(0), 12); w.u(op.arg(1), 12); w.u(r.below(64), 6); w.u(r.below(16), 4);
  for (int i = 0; i < 3; i++) { w.s(r.range(-(1ll << 37), (1ll << 37) - 1), 38); if (i < 2) w.u(r.below(4), 2); }
  if (op.arg(0) == 1006) w.u(r.below(65536), 16);
  return w.b;
}
Bytes enc_txt(const Op &op) {
  Rng r((uint64_t)op.arg(2));
  Bytes t;
  size_t n = (size_t)std::min<int64_t>(op.arg(1), 255);
  int kind = (int)r.below(5);
  while (t.size() < n) {
    size_t left = n - t.size(), k = kind == 4 ? 1 + r.below(4) : kind == 0 ? 1 : (size_t)kind + 1;
    if (k > left) k = left;
    if (k == 1) t.push_back((uint8_t)(32 + r.below(95)));
    else if (k == 2) { t.push_back((uint8_t)(0xC2 + r.below(30))); t.push_back((uint8_t)(0x80 + r.below(64))); }
    else if (k == 3) { t.push_back((uint8_t)(0xE1 + r.below(12))); for (int i = 0; i < 2; i++) t.push_back((uint8_t)(0x80 + r.below(64))); }
    else { t.push_back((uint8_t)(0xF1 + r.below(3))); for (int i = 0; i < 3; i++) t.push_back((uint8_t)(0x80 + r.below(64))); }
  }
  BitW w;
  w.u(1029, 12); w.u(op.arg(0), 12); w.u(r.below(65536), 16); w.u(r.below(86400), 17); w.u(std::min<size_t>(t.size(), 127), 7); w.u(t.size(), 8);
  for (uint8_t c : t) w.u(c, 8);
  return w.b;
}
const char *kRx[] = {"TRIMBLE NETR9", "LEICA GR50", "SEPT POLARX5", "JAVAD TRE_G3T", "TPS NET-G3A", "NAVCOM SF3040", "HEMI P306", "NOV OEM6", "GEOMAX ZENITH", "ASHTECH UZ-12", "SWIFT DURO", "",
                     "Geo++ GNSMART (GLO=ASH)", "Geo++ GNSMART (GLO=HEM)", "Geo++ GNSMART (GLO=JAV)", "Geo++ GNSMART (GLO=JPS)", "Geo++ GNSMART (GLO=LEI)", "Geo++ GNSMART (GLO=NOV)", "Geo++ GNSMART (GLO=NAV)", "Geo++ GNSMART (GLO=NVR)", "Geo++ GNSMART (GLO=SEP)", "Geo++ GNSMART (GLO=SOK)", "Geo++ GNSMART (GLO=TPS)", "Geo++ GNSMART (GLO=TRM)"};
Bytes enc_rcv(const Op &op) {
  BitW w;
  w.u(1033, 12); w.u(op.arg(0), 12);
  auto str = [&](const std::string &s) { w.u(s.size(), 8); for (char c : s) w.u((uint8_t)c, 8); };
  str("LEIAR25.R4      LEIT"); w.u(0, 8); str("SER1234");
  str(kRx[(size_t)op.arg(1) % 24]);
  str("4.81"); str("5101R");
  return w.b;
}
Bytes enc_bias(const Op &op) {
  Rng r((uint64_t)op.arg(3));
  BitW w;
  w.u(1230, 12); w.u(op.arg(0), 12); w.u(op.arg(1), 1); w.u(0, 3); w.u(op.arg(2), 4);
  for (int i = 0; i < 4; i++) if (op.arg(2) & (8 >> i)) w.s(r.range(-32767, 32767), 16);
  return w.b;
}
Bytes enc_wrap(const Op &op) {
  Rng r((uint64_t)op.arg(2));
  static const int ty[] = {0xFFFF, 0x102, 0x20D, 0x48}, ln[] = {4, 11, 20, 24};
  int k = (int)op.arg(0) & 3;
  BitW w;
  w.u(4062, 12); w.u(0, 4); w.u(ty[k], 16); w.u(op.arg(1), 16); w.u(ln[k], 8);
  Bytes p;
  if (k == 3) for (int i = 0; i < 3; i++) { double d = (r.unit() - 0.5) * 1.3e7; uint8_t x[8]; memcpy(x, &d, 8); p.insert(p.end(), x, x + 8); }
  else for (int i = 0; i < ln[k]; i++) p.push_back((uint8_t)r.below(256));
  for (uint8_t c : p) w.u(c, 8);
  return w.b;
}
// arg: stn t frames seed
Bytes enc_ndf(const Op &op) {
  Rng r((uint64_t)op.arg(3));
  BitW w;
  int n = std::max(0, std::min((int)op.arg(2), 24));
  w.u(4075, 12); w.u(op.arg(0) & 4095, 12); w.u(0, 2); w.u(n, 6);
  for (int i = 0; i < n; i++) {
    bool sb = r.chance(0.8);
    static const int odd[] = {0, 1, 31, 32, 224, 289, 300};
    int bits = sb && r.chance(0.9) ? (r.chance(0.7) ? 256 : 288) : odd[r.below(7)];
    w.u(sb ? 3 : r.chance(0.5) ? r.below(6) : r.below(16), 4); w.u(r.chance(0.9) ? r.below(39) : r.below(64), 6); w.u(r.below(512), 9);
    w.u((uint64_t)op.arg(1) % 604800000, 30); w.u(r.below(2), 1); w.u(bits, 12);
    static const int pre[] = {0x53, 0x9A, 0xC6};
    uint32_t crc = 0;
    int b8 = r.chance(0.9) ? pre[r.below(3)] : (int)r.below(256);
    bool bad = r.chance(0.1);
    uint32_t flip = 1u << r.below(24);
    for (int k = 0; k < bits; k++) {
      int b = k < 8 ? b8 >> (7 - k) & 1 : (int)r.below(2);
      if (k < 226) { uint32_t top = ((crc >> 23) & 1) ^ (uint32_t)b; crc = (crc << 1) & 0xFFFFFF; if (top) crc ^= 0x864CFB; }
      else if (k < 250) b = (int)((crc ^ (bad ? flip : 0)) >> (249 - k) & 1);
      w.u(b, 1);
    }
  }
  if (r.chance(0.03) && w.b.size() > 10) w.b.resize(4 + r.below(w.b.size() - 4));
  return w.b;
}
int ssr_cons(int num) {
  if (num >= 1057 && num <= 1060) return GPS;
  if (num >= 1063 && num <= 1066) return GLO;
  if (num >= 1240 && num <= 1243) return GAL;
  if (num >= 1246 && num <= 1249) return QZS;
  if (num >= 1258 && num <= 1261) return BDS;
  static const int pc[6] = {GPS, GLO, GAL, QZS, SBS, BDS};
  return pc[(num - 1265) % 6];
}
int ssr_kind(int num) { if (num >= 1265) return 4; int b = num >= 1258 ? 1258 : num >= 1246 ? 1246 : num >= 1240 ? 1240 : num >= 1063 ? 1063 : 1057; return num - b; }
// arg: num t iod nsat satseed seed flavor
Bytes enc_ssr(const GT &t0, const Op &op) {
  int num = (int)op.arg(0), c = ssr_cons(num), kind = ssr_kind(num);
  GT t = at(t0, op.arg(1));
  Rng rs((uint64_t)op.arg(4)), r((uint64_t)op.arg(5));
  int n = (int)op.arg(3);
  int lim = c == GLO ? 24 : c == QZS ? 10 : c == GPS ? 32 : c == GAL ? 36 : 62;
  int sb = c == GLO ? 5 : c == QZS ? 4 : 6;
  if (n > lim) n = lim;
  std::vector<int> all;
  for (int i = 1; i <= lim; i++) all.push_back(i);
  for (size_t i = 0; i < all.size(); i++) std::swap(all[i], all[i + rs.below(all.size() - i)]);
  // a message of a set may leave out some of the set's satellites and use another order
  std::vector<int> sats;
  for (int i = 0; i < n; i++) if (!(op.arg(6) & 1) || r.chance(0.8)) sats.push_back(all[(size_t)i]);
  if (op.arg(6) & 2) for (size_t i = 0; i < sats.size(); i++) std::swap(sats[i], sats[i + r.below(sats.size() - i)]);
  else std::sort(sats.begin(), sats.end());
  int maxs = kind == 2 || kind == 4 ? 12 : c == GLO ? 24 : 40;
  if ((int)sats.size() > maxs) sats.resize((size_t)maxs);
  BitW w;
  w.u(num, 12);
  int64_t ep;
  if (c == GLO) ep = (glo_tod(t) / 1000) % 86400;
  else { ep = tow_ms(t) / 1000; if (c == BDS) { ep -= 14; if (ep < 0) ep += 604800; } }
  if (op.arg(6) & 4 && c != GLO && c != BDS) ep = 604800 + (int64_t)r.below(1000);
  w.u(ep, c == GLO ? 17 : 20);
  w.u(r.below(16), 4); w.u(r.below(2), 1);
  if (kind == 0 || kind == 3) w.u(r.below(2), 1);
  w.u(op.arg(2) & 15, 4); w.u(r.below(65536), 16); w.u(r.below(16), 4);
  if (kind == 4) { w.u(r.below(2), 1); w.u(r.below(2), 1); }
  w.u(sats.size(), 6);
  auto rnd = [&](int bits) { w.u(r.next() & ((1ull << bits) - 1), bits); };
  for (int sv : sats) {
    w.u(sv, sb);
    if (kind == 0 || kind == 3) {
      rnd(c == GAL || c == BDS ? 10 : 8);
      if (c == BDS) rnd(8);
      for (int b : {22, 20, 20, 21, 19, 19}) rnd(b);
    }
    if (kind == 1 || kind == 3) { rnd(22); rnd(21); rnd(27); }
    if (kind == 2) { int nb = (int)r.below(8); w.u(nb, 5); for (int j = 0; j < nb; j++) { rnd(5); rnd(14); } }
    if (kind == 4) { int nb = r.chance(0.08) ? 29 + (int)r.below(3) : (int)r.below(5); w.u(nb, 5); rnd(9); rnd(8); for (int j = 0; j < nb; j++) { rnd(5); rnd(1); rnd(2); rnd(4); rnd(20); } }
  }
  return w.b;
}
Bytes enc_raw(const Op &op) {  // num len seed
  Rng r((uint64_t)op.arg(2));
  size_t n = (size_t)std::max<int64_t>(1, std::min<int64_t>(op.arg(1), 1023));
  Bytes p(n);
  for (auto &x : p) x = (uint8_t)r.below(256);
  if (op.arg(0) >= 0) { p[0] = (uint8_t)(op.arg(0) >> 4); if (n > 1) p[1] = (uint8_t)((op.arg(0) & 15) << 4 | (p[1] & 15)); }
  return p;
}
Bytes enc_msmx(const Op &op) {  // num stn mult len
  BitW w;
  w.u(op.arg(0), 12); w.u(op.arg(1), 12); w.u(0, 30); w.u(op.arg(2), 1); w.u(0, 1);
  while ((int64_t)w.b.size() < op.arg(3)) w.u(0, 8);
  return w.b;
}

Built build(const Plan &plan, Ctx *c) {
  Built B;
  GT t0; t0.wn = 2100; t0.tow = 100000;
  std::vector<Piece> P;
  std::vector<std::pair<int, Piece>> later;
  std::vector<TimeEv> tev;
  bool have_time = false;
  int64_t tmin = 0, tmax = 0;
  auto settle = [&]() {  // one more frame was sent: release delayed copies
    std::vector<std::pair<int, Piece>> keep;
    for (auto &l : later) { if (--l.first <= 0) P.push_back(l.second); else keep.push_back(l); }
    later.swap(keep);
  };
  auto lastframe = [&]() -> int { for (int i = (int)P.size() - 1; i >= 0; i--) if (P[(size_t)i].frame) return i; return -1; };
  for (auto &op : plan.ops) {
    const std::string &k = op.k;
    Bytes pay;
    auto saw = [&](int64_t t) { tmin = std::min(tmin, t); tmax = std::max(tmax, t); };
    if (k == "opt") {
      B.lib = op.arg(0) == 1; B.o.cli = !B.lib;
      t0.wn = (int)op.arg(5); t0.tow = (double)op.arg(6) / 1000.0; t0 = gnorm(t0);
      B.argv = {"rtcm3tosbp"};
      if (!B.lib) {
        GT g = t0; g.tow += (double)op.arg(2); g = gnorm(g);
        if (op.arg(1) == 1) {
          B.argv.push_back("-w"); B.argv.push_back(fmt("%d:%.3f", g.wn, g.tow));
          g.tow = floor(g.tow); g.tow += leap_at(g);
          B.o.t0ref = gnorm(g); have_time = true;
        } else if (op.arg(1) == 2) {
          int64_t un = 315964800ll + (int64_t)g.wn * 604800 + (int64_t)g.tow;
          un -= un % 3600;
          int64_t days = un / 86400; int hour = (int)(un % 86400 / 3600);
          // civil date from days
          int64_t z = days + 719468, era = z / 146097; unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
          int64_t y = (int64_t)yoe + era * 400; unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
          if (m <= 2) y++;
          B.argv.push_back("-d"); B.argv.push_back(fmt("%lld:%u:%u:%d", (long long)y, m, d, hour));
          GT h; h.wn = (int)((un - 315964800ll) / 604800); h.tow = (double)((un - 315964800ll) % 604800);
          h.tow += 2 * leap_at(h);
          B.o.t0ref = gnorm(h); have_time = true;
        } else if (op.arg(1) == 3) {
          // the system clock, UTC, with the error of op.arg(2) against the data
          g.tow = floor(g.tow);
          B.clock = 315964800ll + (int64_t)g.wn * 604800 + (int64_t)g.tow - leap_at(g);
          B.argv.push_back("-s");
          B.o.t0ref = g; have_time = true;
        }
        if (op.arg(3) && have_time) { B.argv.push_back("-o"); B.o.useobs = true; }
        static const char mk[] = "GRECSJ";
        for (int i = 0; i < 6; i++) if (i != 4 && op.arg(4) >> i & 1) {  // -S takes an argument in this version and has no effect: not used
          B.o.mask[i] = true; B.argv.push_back(fmt("-%c", mk[i])); }
        if (op.arg(7) == 1) {
          B.argv.push_back("-b"); B.argv.push_back("0:1.5,3:-2.25,14:10.5"); B.o.bias[0] = 1.5; B.o.bias[3] = -2.25; B.o.bias[14] = 10.5;
          B.argv.push_back("-c"); B.argv.push_back("3:0.5,4:-0.75"); B.o.gcode[0] = 0.5; B.o.gcode[1] = -0.75;
          B.argv.push_back("-l"); B.argv.push_back("3:0.125"); B.o.gphase[0] = 0.125;
        }
      }
      continue;
    } else if (k == "chunk") { B.mode = (ReadMode)op.arg(0); B.rmax = (size_t)std::max<int64_t>(1, op.arg(1)); B.cseed = (uint64_t)op.arg(2); continue; }
    else if (k == "rerr") { B.rerr = op.arg(0); continue; }
    else if (k == "wfail") { B.wfail = op.arg(0); B.wshort = op.arg(1); B.wret = (int)op.arg(2); continue; }
    else if (k == "msm") { pay = enc_msm(t0, op); saw(op.arg(3)); }
    else if (k == "leg") { pay = enc_leg(t0, op); saw(op.arg(2)); }
    else if (k == "eph") { pay = enc_eph(t0, op); saw(op.arg(1)); }
    else if (k == "pos") pay = enc_pos(op);
    else if (k == "txt") pay = enc_txt(op);
    else if (k == "rcv") pay = enc_rcv(op);
    else if (k == "bias") pay = enc_bias(op);
    else if (k == "wrap") pay = enc_wrap(op);
    else if (k == "ndf") pay = enc_ndf(op);
    else if (k == "ssr") { pay = enc_ssr(t0, op); saw(op.arg(1)); }
    else if (k == "msmx") pay = enc_msmx(op);
    else if (k == "raw") { pay = enc_raw(op); B.weird = true; }
    else if (k == "fill") {  // a type no converter knows
      pay = enc_raw(Op("raw", {4001, op.arg(0), op.arg(1)}));
      if (c) c->probe("unknown-type-frame");
    } else if (k == "nest") {  // a frame of a type no converter knows, with a frame in it
      int i = lastframe();
      if (i < 0 || P[(size_t)i].b.size() > 1021) continue;
      const Bytes &q = P[(size_t)i].b;
      size_t room = 1021 - q.size(), n0 = std::min((size_t)op.arg(0), room), n1 = op.arg(1) < 0 ? room - n0 : std::min((size_t)op.arg(1), room - n0);
      pay = enc_raw(Op("raw", {4001, (int64_t)(2 + n0 + q.size() + n1), op.arg(2)}));
      std::copy(q.begin(), q.end(), pay.begin() + (long)(2 + n0));
      if (c) c->fault("frame inside a frame");
    } else if (k == "cutpay") {  // shorten the payload of the previous frame, CRC made right again
      int i = lastframe();
      if (i >= 0) { Bytes &b = P[(size_t)i].b; if (b.size() > 8) { Bytes q(b.begin() + 3, b.end() - 3); q.resize(std::max<size_t>(1, q.size() * (size_t)op.arg(0) / 1000)); b = rtcm_frame(q); B.weird = true; if (c) c->fault("payload shorter than its content"); } }
      continue;
    } else if (k == "setbits") {  // overwrite bits of the previous frame's payload, CRC made right again
      int i = lastframe();
      if (i >= 0) {
        Bytes &b = P[(size_t)i].b; Bytes q(b.begin() + 3, b.end() - 3);
        size_t nb = q.size() * 8, p0 = (size_t)op.arg(0) % nb; Rng r((uint64_t)op.arg(2));
        for (int64_t j = 0; j < op.arg(1) && p0 + (size_t)j < nb; j++) { size_t p = p0 + (size_t)j; uint8_t m = (uint8_t)(0x80 >> (p % 8)); if (op.arg(3) == 1 || (op.arg(3) == 2 && r.chance(0.5))) q[p / 8] |= m; else q[p / 8] &= (uint8_t)~m; }
        b = rtcm_frame(q); B.weird = true; if (c) c->fault("field set to an odd value");
      }
      continue;
    }
    else if (k == "time") {
      if (B.lib) { GT t = at(t0, op.arg(1)); Piece p; p.tev = (int)tev.size(); TimeEv e; e.at = 0; e.source = (int)op.arg(0); e.t = t; tev.push_back(e); P.push_back(p); }
      continue;
    } else if (k == "garb") {
      Rng r((uint64_t)op.arg(1));
      Piece p; for (int64_t i = 0; i < op.arg(0); i++) { uint8_t x = (uint8_t)r.below(256); if (!op.arg(2) && x == 0xD3) x = 0xD2; p.b.push_back(x); }
      P.push_back(p); B.dirty |= op.arg(2) != 0; if (c) c->fault("garbage between frames"); continue;
    } else if (k == "fakehdr") {
      Piece p; p.b = {0xD3, (uint8_t)(op.arg(0) >> 8), (uint8_t)op.arg(0)}; p.b.resize((size_t)(3 - op.arg(1) % 3)); P.push_back(p); B.dirty = true; if (c) c->fault("header of a frame never sent"); continue;
    } else if (k == "lose" || k == "dup" || k == "delay" || k == "flip" || k == "trunc" || k == "splice") {
      int i = lastframe();
      if (i < 0) continue;
      if (c) c->fault(k == "lose" ? "frame lost" : k == "dup" ? "frame duplicated" : k == "delay" ? "frame delayed" : k == "flip" ? "bit flipped" : k == "trunc" ? "frame truncated" : "frames spliced");
      Piece &p = P[(size_t)i];
      if (k == "lose") P.erase(P.begin() + i);
      else if (k == "dup") { Piece q = p; if (op.arg(0) <= 0) P.push_back(q); else later.push_back({(int)op.arg(0), q}); }
      else if (k == "delay") { Piece q = p; P.erase(P.begin() + i); later.push_back({(int)op.arg(0) + 1, q}); }
      else if (k == "flip") { size_t bit = (size_t)op.arg(0) % (p.b.size() * 8); p.b[bit / 8] ^= (uint8_t)(1 << (bit % 8)); p.frame = false; B.dirty = true; }
      else if (k == "trunc") { p.b.resize(p.b.size() * (size_t)op.arg(0) / 1000); p.frame = false; B.dirty = true; }
      else {
        int j = -1; for (int q = i - 1; q >= 0; q--) if (P[(size_t)q].frame) { j = q; break; }
        if (j >= 0) {
          Bytes &a = P[(size_t)j].b; Bytes x(a.begin(), a.begin() + (long)(a.size() * (size_t)op.arg(0) / 1000));
          size_t from = p.b.size() * (size_t)op.arg(1) / 1000;
          x.insert(x.end(), p.b.begin() + (long)from, p.b.end());
          P[(size_t)j].b = x; P[(size_t)j].frame = false; P.erase(P.begin() + i); B.dirty = true;
        }
      }
      continue;
    } else continue;
    Piece p; p.b = rtcm_frame(pay); p.frame = true;
    if (pay.size() > 1023) continue;
    P.push_back(p);
    B.nframes++;
    settle();
  }
  for (auto &l : later) P.push_back(l.second);
  for (auto &p : P) {
    if (p.tev >= 0) { TimeEv e = tev[(size_t)p.tev]; e.at = B.s.size(); B.times.push_back(e); continue; }
    B.s.insert(B.s.end(), p.b.begin(), p.b.end());
  }
  B.span = (double)(tmax - tmin) / 1000.0;
  return B;
}

// ---------- running the real converter ----------
int rd_fn(uint8_t *b, size_t n, void *x) { return (int)((IO *)x)->read(b, n); }
s32 wr_fn(u8 *b, u32 n, void *x) { return (s32)((IO *)x)->write(b, n); }
struct Lib { sbp_state_t s; IO *io; };
void lib_cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *m, void *x) {
  IO *io = (IO *)x;
  sbp_state_t s; sbp_state_init(&s); sbp_state_set_io_context(&s, io);
  sbp_message_send(&s, type, sender, m, wr_fn);
}
Entry entry(const Built &B, std::vector<TimeEv> times) {
  if (!B.lib) {
    auto av = B.argv;
    int64_t clk = B.clock;
    return [av, clk](IO &io) {
      sim_clock = clk;
      std::vector<std::string> a = av;
      std::vector<char *> v;
      for (auto &s : a) { v.push_back(&s[0]); mark_init(&s[0], s.size() + 1); }
      v.push_back(nullptr);
      quiet_stderr();
      return rtcm3tosbp_main((int)a.size(), v.data(), "", rd_fn, wr_fn, &io);
    };
  }
  return [times](IO &io) {
    time_truth_t &tt = *(time_truth_t *)io.state(0, sizeof(time_truth_t));
    time_truth_init(&tt);
    struct rtcm3_sbp_state *st = (struct rtcm3_sbp_state *)io.state(1, sizeof *st);
    rtcm2sbp_init(st, &tt, lib_cb, NULL, &io);
    size_t k = 0;
    io.on_pos = [&](size_t pos) {
      while (k < times.size() && times[k].at <= pos) { gps_time_t t; t.wn = (s16)times[k].t.wn; t.tow = times[k].t.tow; time_truth_update(&tt, (enum time_truth_source)times[k].source, t); k++; }
    };
    int r;
    do r = rtcm2sbp_process(st, rd_fn); while (r > 0);
    return r;
  };
}

// ---------- comparison ----------
struct Got { bool obs; Sbp m; int wn = 0; uint32_t tow = 0; int sender = 0; std::vector<Bytes> rec; };
bool own_log(const Sbp &m) { return m.type == M_LOG && !(m.p.size() >= 7 && !memcmp(&m.p[1], "RTCM: ", 6)); }

// Groups observation packets into sequences; false with a reason if malformed.
bool group(const std::vector<Sbp> &in, std::vector<Got> &out, std::string *why) {
  bool inseq = false; int total = 0, next = 0;
  for (auto &m : in) {
    if (own_log(m)) continue;
    if (m.type != M_OBS) {
      if (inseq) { if (why) *why = "observation sequence interrupted by " + show(m); return false; }
      Got g; g.obs = false; g.m = m; g.sender = m.sender; out.push_back(g); continue;
    }
    if (m.p.size() < 11 || (m.p.size() - 11) % 17) { if (why) *why = "odd observation payload"; return false; }
    int tot = m.p[10] >> 4, idx = m.p[10] & 15; size_t n = (m.p.size() - 11) / 17;
    if (!inseq) {
      if (idx != 0 || tot < 1) { if (why) *why = fmt("sequence starts with packet %d of %d", idx, tot); return false; }
      Got g; g.obs = true; g.m = m; g.sender = m.sender; g.tow = (uint32_t)rd(m.p, 0, 4); g.wn = (int)rd(m.p, 8, 2);
      if (rds(m.p, 4, 4) != 0) { if (why) *why = "non-zero ns residual"; return false; }
      out.push_back(g); total = tot; next = 0; inseq = true;
    } else if (tot != total || idx != next || m.sender != out.back().sender || memcmp(&m.p[0], &out.back().m.p[0], 10)) {
      if (why) *why = fmt("packet %d of %d in a sequence expecting %d of %d, or other time or sender", idx, tot, next, total); return false;
    }
    if (n > 14 || (next + 1 < total && n != 14) || (n == 0 && total > 1)) { if (why) *why = fmt("packet %d of %d carries %zu observations", idx, tot, n); return false; }
    for (size_t i = 0; i < n; i++) out.back().rec.push_back(Bytes(m.p.begin() + 11 + (long)(17 * i), m.p.begin() + 28 + (long)(17 * i)));
    if (++next == total) inseq = false;
  }
  if (inseq) { if (why) *why = "observation sequence not completed"; return false; }
  return true;
}
std::string obs_diff(const EObs &e, const Bytes &r, bool *freqonly) {
  *freqonly = false;
  double P = (double)rd(r, 0, 4) * 0.02, L = (double)rds(r, 4, 4) + r[8] / 256.0, D = (double)rds(r, 9, 2) + r[11] / 256.0;
  int fl = r[14];
  if (r[15] != e.sat || r[16] != e.code) return fmt("satellite %d code %d, expected %d code %d", r[15], r[16], e.sat, e.code);
  if (!(fl & 1)) return "pseudorange not marked valid";
  if (fabs(P - e.P) > 0.0115) return fmt("pseudorange %.3f, expected %.4f", P, e.P);
  if (fabs(r[12] - std::min(e.cn0 * 4, 255.0)) > 0.5001) return fmt("C/N0 %d, expected %.2f quarter dB-Hz", r[12], e.cn0 * 4);
  if (r[13] != e.lock) return fmt("lock %d, expected %d", r[13], e.lock);
  *freqonly = true;
  if (((fl >> 1) & 1) != (int)e.L_ok) return fmt("phase %s, expected %s", fl & 2 ? "valid" : "invalid", e.L_ok ? "valid" : "invalid");
  if (e.L_ok && fabs(L - e.L) > 0.0042) return fmt("phase %.4f, expected %.5f", L, e.L);
  if (((fl >> 3) & 1) != (int)e.D_ok) return fmt("Doppler %s, expected %s", fl & 8 ? "valid" : "invalid", e.D_ok ? "valid" : "invalid");
  if (e.D_ok && fabs(D - e.D) > 0.0042) return fmt("Doppler %.4f, expected %.5f", D, e.D);
  *freqonly = false;
  if (e.L_ok && ((fl >> 2) & 1) != (int)e.half) return fmt("half cycle flag %d, expected %d", fl >> 2 & 1, (int)e.half);
  return "";
}
struct Cmp {
  Ctx &c;
  std::string seen;
  void v(const char *p, const std::string &key, const std::string &text) { c.violate(p, key, text); }
};

std::string item_name(const Item &i) {
  if (i.k == Item::OBS) return fmt("observations %d:%u sender %d (%zu obs)", i.wn, i.tow, i.sender, i.obs.size());
  return fmt("message 0x%X sender %d", i.type, i.sender);
}
std::string got_name(const Got &g) {
  if (g.obs) return fmt("observations %d:%u sender %d (%zu obs)", g.wn, g.tow, g.sender, g.rec.size());
  return show(g.m);
}

void compare(Ctx &c, const std::vector<Item> &exp, const Bytes &outb, bool complete) {
  std::vector<Sbp> msgs;
  if (!parse_sbp(outb, msgs) && complete) { c.violate("C03", "output is not whole SBP frames", "the output does not parse as SBP"); return; }
  std::vector<Got> got;
  std::string why;
  if (!group(msgs, got, &why)) { c.violate("C03", "malformed observation sequence", why); return; }
  // a last MSM message that cannot be used ends the epoch; with nothing waiting
  // this shows as one observation message without time and observations
  for (size_t i = got.size(); i-- > 0;) if (got[i].obs && got[i].rec.empty() && got[i].wn == 0 && got[i].tow == 0) { c.probe("untimed-empty-sequence"); got.erase(got.begin() + (long)i); }
  c.evals(got.size() + 1);

  std::vector<const Got *> go, gb, gs, gr, ga;
  for (auto &g : got) { ga.push_back(&g); if (g.obs) go.push_back(&g); else if (g.m.type == M_GLOB) gb.push_back(&g); else if (g.m.type == M_OC || g.m.type == M_CB || g.m.type == M_PB) gs.push_back(&g); else gr.push_back(&g); }
  std::vector<const Item *> eo, eb, es, er, ea;
  for (auto &i : exp) { ea.push_back(&i); if (i.k == Item::OBS) eo.push_back(&i); else if (i.type == M_GLOB) eb.push_back(&i); else if (i.type == M_OC || i.type == M_CB || i.type == M_PB) es.push_back(&i); else er.push_back(&i); }

  // C04: the order of message kinds, and time and sender of every sequence
  {
    auto kd = [](int t) { return t == M_OBS ? 1 : (t == M_OC || t == M_CB || t == M_PB) ? 2 : t; };
    size_t n = std::min(ga.size(), ea.size());
    for (size_t i = 0; i < n; i++) {
      int a = kd(ga[i]->obs ? (int)M_OBS : ga[i]->m.type), b = kd(ea[i]->k == Item::OBS ? (int)M_OBS : ea[i]->type);
      if (a != b) { c.violate("C04", "messages emitted while time (un)known differ", fmt("item %zu is %s, expected %s", i, got_name(*ga[i]).c_str(), item_name(*ea[i]).c_str())); break; }
      if (ga[i]->obs && (ga[i]->wn != ea[i]->wn || ga[i]->tow != ea[i]->tow || ga[i]->sender != ea[i]->sender)) {
        c.violate("C04", "observation time or sender", fmt("sequence is %s, expected %s", got_name(*ga[i]).c_str(), item_name(*ea[i]).c_str())); break;
      }
      if (!ga[i]->obs && ga[i]->m.type != M_OBS && ga[i]->m.p.size() >= 6 && b == 2) {
        // SSR time
        bool okt = false;
        for (size_t j = 0; j < ea.size(); j++) if (ea[j]->group == ea[i]->group && ea[j]->k == Item::MSG && ea[j]->f.size() > 2 && field_eq(ea[j]->f[0], ga[i]->m.p, 0, nullptr) && field_eq(ea[j]->f[1], ga[i]->m.p, 4, nullptr)) okt = true;
        if (!okt) { c.violate("C04", "SSR time", "time of " + show(ga[i]->m) + " is not that of its message"); break; }
      }
      if (!ga[i]->obs && ga[i]->m.type == M_EGLO && ga[i]->m.p.size() >= 8 && (!field_eq(ea[i]->f[2], ga[i]->m.p, 2, &why) || !field_eq(ea[i]->f[3], ga[i]->m.p, 6, &why))) { c.violate("C04", "GLONASS ephemeris time", why); break; }
    }
    if (ga.size() != ea.size()) {
      bool more = ga.size() > ea.size();
      c.violate("C04", more ? "more emitted than known time allows" : "less emitted than known time allows",
                fmt("%zu items, expected %zu; first %s: %s", ga.size(), ea.size(), more ? "extra" : "missing", more ? got_name(*ga[n]).c_str() : item_name(*ea[n]).c_str()));
    }
  }
  // C03 / C05 / C07: observations
  {
    size_t n = std::min(go.size(), eo.size());
    bool c3 = false, c5 = false, c7 = false;
    for (size_t i = 0; i < n; i++) {
      const Item &e = *eo[i]; const Got &g = *go[i];
      if (!c3 && (g.sender != e.sender || g.tow != e.tow || g.wn != e.wn)) { c3 = true; c.violate("C03", "observation sequence of another epoch", fmt("sequence %zu is %s, expected %s", i, got_name(g).c_str(), item_name(e).c_str())); }
      auto key = [](int sat, int code, double P) { return std::make_tuple(sat, code, P); };
      std::vector<std::tuple<int, int, double, size_t>> a, b;
      for (size_t j = 0; j < g.rec.size(); j++) a.push_back(std::make_tuple((int)g.rec[j][15], (int)g.rec[j][16], (double)rd(g.rec[j], 0, 4) * .02, j));
      for (size_t j = 0; j < e.obs.size(); j++) b.push_back(std::make_tuple(e.obs[j].sat, e.obs[j].code, e.obs[j].P, j));
      (void)key;
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      bool same = a.size() == b.size();
      for (size_t j = 0; same && j < a.size(); j++) same = std::get<0>(a[j]) == std::get<0>(b[j]) && std::get<1>(a[j]) == std::get<1>(b[j]);
      if (!same) {
        std::string d = fmt("%zu observations, expected %zu", a.size(), b.size());
        std::multiset<std::pair<int, int>> A, Bm;
        for (auto &x : a) A.insert({std::get<0>(x), std::get<1>(x)});
        for (auto &x : b) Bm.insert({std::get<0>(x), std::get<1>(x)});
        for (auto &x : Bm) if (A.count(x) != Bm.count(x)) { d += fmt("; satellite %d code %d: %zu times, expected %zu", x.first, x.second, A.count(x), Bm.count(x)); break; }
        for (auto &x : A) if (A.count(x) != Bm.count(x)) { d += fmt("; satellite %d code %d: %zu times, expected %zu", x.first, x.second, A.count(x), Bm.count(x)); break; }
        if (!c3) c.violate("C03", "observations of an epoch differ from what was received", fmt("%s: ", item_name(e).c_str()) + d);
        if (!c5) c.violate("C05", "observations used differ", fmt("%s: ", item_name(e).c_str()) + d);
        c3 = c5 = true;
        continue;
      }
      for (size_t j = 0; j < a.size(); j++) {
        bool fo;
        std::string d = obs_diff(e.obs[std::get<3>(b[j])], g.rec[std::get<3>(a[j])], &fo);
        if (d.empty()) continue;
        int code = std::get<1>(a[j]);
        std::string t = fmt("%s, satellite %d code %d: ", item_name(e).c_str(), std::get<0>(a[j]), code) + d;
        if (!c3) { c3 = true; c.violate("C03", "observation content", t); }
        if (fo && (code == 3 || code == 4) && !c7) { c7 = true; c.violate("C07", "GLONASS phase or Doppler frequency", t); }
      }
    }
    if (go.size() != eo.size()) {
      bool more = go.size() > eo.size();
      std::string t = fmt("%zu sequences, expected %zu; first %s: %s", go.size(), eo.size(), more ? "extra" : "missing", more ? got_name(*go[n]).c_str() : item_name(*eo[n]).c_str());
      c.violate("C03", more ? "extra observation sequence" : "observation sequence missing", t);
      c.violate("C05", more ? "extra observation sequence" : "observation sequence missing", t);
    }
    c.evals(n);
  }
  auto inorder = [&](const std::vector<const Got *> &G, const std::vector<const Item *> &E, const char *prop, const char *what) {
    size_t n = std::min(G.size(), E.size());
    for (size_t i = 0; i < n; i++) {
      const Item &e = *E[i]; const Sbp &m = G[i]->m;
      std::string d;
      if (m.type != e.type) d = "expected " + item_name(e);
      else if (m.sender != e.sender) d = fmt("sender %d, expected %d", m.sender, e.sender);
      else if (e.exact) { if (m.p != e.raw) d = "payload " + hex(m.p, 300) + " expected " + hex(e.raw, 300); }
      else if (fields_eq(e.f, m.p, &d)) d.clear();
      c.evals(1);
      if (!d.empty()) { c.violate(prop, fmt("%s 0x%X differs", what, m.type), fmt("item %zu ", i) + show(m).substr(0, 200) + ": " + d); return; }
    }
    if (G.size() != E.size()) {
      bool more = G.size() > E.size();
      c.violate(prop, more ? fmt("extra %s 0x%X", what, G[n]->m.type) : fmt("%s 0x%X missing", what, E[n]->type), fmt("%zu, expected %zu; first %s: %s", G.size(), E.size(), more ? "extra" : "missing", more ? show(G[n]->m).c_str() : item_name(*E[n]).c_str()));
    }
  };
  inorder(gb, eb, "C05", "GLONASS bias message");
  inorder(gr, er, "C07", "message");
  // C06: per frame group, any order within
  {
    size_t gi = 0, ei = 0;
    while (ei < es.size()) {
      size_t ee = ei; while (ee < es.size() && es[ee]->group == es[ei]->group) ee++;
      std::vector<bool> used(ee - ei, false);
      std::string bad;
      for (size_t j = ei; j < ee && bad.empty(); j++, gi++) {
        if (gi >= gs.size()) { bad = "missing: " + item_name(*es[j]); break; }
        bool hit = false; std::string d, best;
        for (size_t q = ei; q < ee && !hit; q++) {
          if (used[q - ei] || es[q]->type != gs[gi]->m.type || es[q]->sender != gs[gi]->m.sender) continue;
          if (fields_eq(es[q]->f, gs[gi]->m.p, &d)) { used[q - ei] = hit = true; }
          else if (gs[gi]->m.p.size() > 6 && gs[gi]->m.p[6] == (uint8_t)es[q]->f[2].i) best = d;
        }
        c.evals(1);
        if (!hit) bad = "unexpected " + show(gs[gi]->m) + " " + best;
      }
      if (!bad.empty()) { c.violate("C06", "SSR corrections of a message differ", bad); return; }
      ei = ee;
    }
    if (gi < gs.size()) c.violate("C06", "extra SSR correction", "extra " + show(gs[gi]->m));
  }
}

// ---------- generator ----------
struct RtcmHarness : Harness {
  const char *name() override { return "rtcm"; }
  std::vector<std::string> properties() override { return {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}; }
  uint64_t budget(const std::string &, bool th) override { return th ? 400000 : 12000; }
  std::vector<std::string> assumptions() override {
    return {"SBP encoding (libsbp) and time/orbit helpers (libswiftnav) are stand-ins written from their interface documents; the repository's submodules are not present here",
            "one read call returns at most what the simulator decides; writes succeed unless the schedule says otherwise",
            "GPS weeks 1880-2400 except the weeks around the 2017 leap second"};
  }
  std::string rule(const std::string &f) override {
    return "seeded base stations (1-3) send MSM4-7 and legacy observation epochs, ephemerides, positions, texts, biases and SSR messages around week and day rollovers; focus " + f +
           " weights the message mix; frames are lost, duplicated, delayed, corrupted, spliced, truncated, surrounded by garbage and delivered in arbitrary reads; a history counts as distinct by the hash of its sequence of message kinds, faults and delivery";
  }
  std::vector<std::string> real_components() override { return {"rtcm3tosbp", "gnss_converters rtcm3_sbp*, time_truth, options", "librtcm"}; }
  std::vector<std::string> stub_components() override { return {"libsbp (stand-in)", "libswiftnav (stand-in)", "input stream and output sink (simulated)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override {
    if (o.k == "msm") return i == 5 || i == 6;
    if (o.k == "leg") return i == 4;
    if (o.k == "opt") return i == 2 || i == 4 || i == 7;
    if (o.k == "ssr") return i == 3 || i == 6;
    if (o.k == "txt") return i == 1;
    if (o.k == "ndf") return i == 2;
    if (o.k == "garb") return i == 0;
    return false;
  }

  Plan gen(uint64_t seed, const std::string &focus) override {
    Rng r(seed);
    Plan p; p.focus = focus; p.seed = seed;
    auto sd = [&]() { return (int64_t)(r.next() & 0xFFFFFF); };
    bool lib = r.chance(focus == "C04" ? 0.35 : 0.25);
    int tk = r.chance(focus == "C04" ? 0.15 : 0.05) ? 0 : r.chance(0.25) ? 2 : r.chance(0.3) ? 3 : 1;
    int64_t wn0 = r.chance(0.2) ? r.range(1880, 1928) : r.range(1931, 2400);
    int64_t tow0;
    switch (r.below(6)) {
      case 0: tow0 = 604800000 - r.range(0, 90) * 1000; break;                          // week rollover ahead
      case 1: tow0 = r.range(0, 7) * 86400000 - r.range(-30, 90) * 1000; break;         // day rollover
      case 2: tow0 = r.range(1, 7) * 86400000 - 10800000 + r.range(-60, 60) * 1000; break;  // GLONASS day rollover
      case 3: tow0 = r.range(-20, 5) * 1000; break;
      default: tow0 = r.range(0, 604799) * 1000;
    }
    if (r.chance(0.2)) tow0 += r.range(0, 9) * 100;
    if (tow0 < 0) { tow0 += 604800000; wn0--; }
    int64_t off;
    switch (r.below(6)) {
      case 0: off = r.range(-250000, 250000); break;
      case 1: off = r.range(-40000, 40000); break;
      case 2: off = r.range(-300, 300); break;
      default: off = -18 + r.range(-10, 10);
    }
    if (focus == "C04" && r.chance(0.1)) off = r.range(-1200000, 1200000);
    int useobs = r.chance(focus == "C04" ? 0.4 : 0.6);
    int mask = r.chance(0.1) ? (int)r.below(64) : 0;
    p.ops.push_back(Op("opt", {lib, tk, off, useobs, mask, wn0, tow0, r.chance(0.15)}));
    bool dirty_ok = focus == "C02" || focus == "C01" || (!lib && r.chance(0.3));
    p.ops.push_back(Op("chunk", {r.chance(0.2) ? RM_ONE : r.chance(0.15) ? RM_FULL : RM_RANDOM, r.chance(0.5) ? 16 : r.chance(0.5) ? 300 : 3000, sd()}));
    if (focus == "C01" && r.chance(0.5)) p.ops.push_back(Op("rerr", {(int64_t)r.below(1000)}));
    auto time_op = [&](int64_t t) { p.ops.push_back(Op("time", {(int64_t)r.below(3), t})); };
    bool late_time = lib && focus != "C02" && !dirty_ok && r.chance(0.3);
    if (lib && !late_time) time_op(r.chance(0.7) ? r.range(-12000, 12000) : r.range(-20000000, 20000000));

    // stations
    struct St { int id; int64_t step, next; int kind; std::vector<int> cons; int type; int nsat, nsig; bool quiet; };
    std::vector<St> st;
    int ns = r.chance(0.6) ? 1 : r.chance(0.7) ? 2 : 3;
    static const int64_t steps[] = {100, 200, 1000, 1000, 1000, 5000, 6000, 10000, 30000};
    int64_t common = steps[r.below(9)];
    for (int i = 0; i < ns; i++) {
      St s;
      s.id = r.chance(0.1) ? 0 : (int)r.below(4096);
      if (i && r.chance(0.1)) s.id = st[0].id;
      s.step = r.chance(0.8) ? common : steps[r.below(9)];
      s.next = i && r.chance(0.3) ? (int64_t)r.below((uint64_t)s.step) / 100 * 100 : 0;
      s.kind = focus == "C05" ? (int)r.below(3) : (int)r.weighted({6, 3, 1});  // 0 msm 1 legacy 2 both
      s.type = 4 + (int)r.below(4);
      for (int c = 0; c < 4; c++) if (r.chance(0.6)) s.cons.push_back(c);
      if (s.cons.empty()) s.cons.push_back((int)r.below(4));
      if (r.chance(0.3)) std::reverse(s.cons.begin(), s.cons.end());
      bool big = r.chance(0.15);
      s.nsat = big ? 12 + (int)r.below(12) : 1 + (int)r.below(9);
      s.nsig = 1 + (int)r.below(big ? 4 : 3);
      s.quiet = false;
      st.push_back(s);
    }
    int epochs = (int)r.range(2, focus == "C03" || focus == "C05" ? 14 : 8);
    bool want_obs = focus != "C06" || r.chance(0.3);
    double pe = focus == "C07" ? 0.9 : 0.15, ps = focus == "C06" ? 0.95 : 0.08, pb = focus == "C05" ? 0.5 : focus == "C07" ? 0.2 : 0.1;
    bool fault_run = r.chance(0.75);
    double pf = fault_run ? (r.chance(0.5) ? 0.08 : 0.25) : 0;
    auto maybe_fault = [&]() {
      if (!r.chance(pf)) return;
      int k = (int)r.weighted(dirty_ok ? std::vector<int>{3, 2, 2, 4, 2, 2} : std::vector<int>{3, 2, 2, 0, 0, 0});
      switch (k) {
        case 0: p.ops.push_back(Op("lose", {})); break;
        case 1: p.ops.push_back(Op("dup", {(int64_t)r.below(4)})); break;
        case 2: p.ops.push_back(Op("delay", {1 + (int64_t)r.below(4)})); break;
        case 3: p.ops.push_back(Op("flip", {r.chance(0.3) ? (int64_t)r.below(24) : (int64_t)r.below(9000)})); break;
        case 4: p.ops.push_back(Op("trunc", {(int64_t)r.below(1000)})); break;
        case 5: p.ops.push_back(Op("splice", {(int64_t)r.below(1000), (int64_t)r.below(1000)})); break;
      }
    };
    double heavy = focus == "C01" ? (r.chance(0.4) ? 0.6 : 0.02) : 0.01;
    auto push = [&](Op o) {
      p.ops.push_back(std::move(o));
      maybe_fault();
      if (dirty_ok && fault_run && r.chance(0.08)) p.ops.push_back(Op("garb", {1 + (int64_t)r.below(r.chance(0.2) ? 1500 : 40), sd(), r.chance(0.4)}));
      if (dirty_ok && fault_run && r.chance(0.05)) {
        static const int64_t fl[] = {0, 0, 1, 5, 1023, 1022, 0xFC00, 0xFFFF};  // the six bits before the length are reserved
        p.ops.push_back(Op("fakehdr", {r.chance(0.5) ? fl[r.below(8)] : (int64_t)r.below(1024), r.chance(0.3) ? (int64_t)r.below(3) : 0}));
      }
      if (r.chance(heavy)) { int n = 1 + (int)r.below(4); while (n--) p.ops.push_back(Op("fill", {r.chance(0.8) ? 1000 + (int64_t)r.below(24) : 2 + (int64_t)r.below(1022), sd()})); }
      if (fault_run && r.chance(focus == "C02" || focus == "C01" ? 0.05 : 0.01)) p.ops.push_back(Op("nest", {(int64_t)r.below(r.chance(0.5) ? 3 : 200), r.chance(0.3) ? -1 : (int64_t)r.below(r.chance(0.5) ? 12 : 600), sd()}));
      if ((focus == "C02" || focus == "C01") && r.chance(0.05)) {
        if (r.chance(0.5)) p.ops.push_back(Op("cutpay", {(int64_t)r.below(1000)}));
        else p.ops.push_back(Op("setbits", {(int64_t)r.below(2000), 1 + (int64_t)r.below(20), sd(), (int64_t)r.below(3)}));
      }
    };
    auto extra = [&](int64_t t) {
      if (r.chance(pe)) {
        static const int en[] = {1019, 1020, 1020, 1042, 1044, 1045, 1046};
        int k = 1 + (int)r.below(focus == "C07" ? 4 : 2);
        while (k--) {
          int num = en[r.below(7)];
          int lim = num == 1019 ? 32 : num == 1020 ? 24 : num == 1042 ? 63 : num == 1044 ? 10 : 36;
          int sat = r.chance(0.04) && num != 1019 ? (num == 1020 ? (int)r.below(64) : 0) : 1 + (int)r.below((uint64_t)lim);
          push(Op("eph", {num, t + r.range(-600, 600) * 1000, sat, sd(), r.chance(0.12) ? (int64_t)(1 + r.below(7)) : 0}));
        }
      }
      if (r.chance(focus == "C07" ? 0.4 : 0.1)) push(Op("pos", {r.chance(0.5) ? 1005 : 1006, (int64_t)r.below(4096), sd()}));
      if (r.chance(focus == "C07" ? 0.4 : 0.05)) push(Op("txt", {(int64_t)r.below(4096), r.chance(0.4) ? 240 + (int64_t)r.below(16) : (int64_t)r.below(60), sd()}));
      if (r.chance(focus == "C07" ? 0.3 : 0.05)) push(Op("wrap", {(int64_t)r.below(4), (int64_t)r.below(65536), sd()}));
      if (r.chance(focus == "C07" ? 0.2 : 0.03)) push(Op("ndf", {(int64_t)r.below(4096), t, r.chance(0.1) ? r.range(0, 24) : r.range(1, 3), sd()}));
      if (r.chance(pb)) {
        if (r.chance(0.5)) push(Op("bias", {(int64_t)r.below(4096), r.chance(0.3), (int64_t)r.below(16), sd()}));
        else push(Op("rcv", {(int64_t)r.below(4096), (int64_t)r.below(24)}));
      }
      if (r.chance(ps)) {
        static const int ob[5] = {1057, 1063, 1240, 1246, 1258};
        int sets = 1 + (int)r.below(focus == "C06" ? 3 : 1);
        struct E { Op o; };
        std::vector<Op> v;
        for (int q = 0; q < sets; q++) {
          int ci = (int)r.below(5), iod = (int)r.below(focus == "C06" ? 3 : 16), n = (int)r.below(r.chance(0.2) ? 20 : 7);
          int64_t ss = sd(), te = t / 5000 * 5000, fl = (int64_t)r.below(4);
          if (r.chance(0.03)) fl |= 4;
          int what = (int)r.weighted({6, 2, 1, 1, 3});
          if (what == 0) {
            v.push_back(Op("ssr", {ob[ci], te, iod, n, ss, sd(), fl}));
            v.push_back(Op("ssr", {ob[ci] + 1, te + (r.chance(0.1) ? 5000 : 0), r.chance(0.1) ? iod + 1 : iod, n + (r.chance(0.2) ? 3 : 0), r.chance(0.9) ? ss : sd(), sd(), fl}));
            if (r.chance(0.3)) v.push_back(Op("ssr", {ob[ci] + 1, te, iod, n, ss, sd(), fl}));
          } else if (what == 1) v.push_back(Op("ssr", {ob[ci] + 3, te, iod, n, ss, sd(), fl}));
          else if (what == 2) v.push_back(Op("ssr", {ob[ci] + 2, te, iod, n, ss, sd(), fl}));
          else if (what == 3) v.push_back(Op("ssr", {1265 + (int64_t)r.below(6), te, iod, n, ss, sd(), fl}));
          else v.push_back(Op("ssr", {ob[ci] + (int64_t)r.below(2), te, iod, n, ss, sd(), fl}));
        }
        if (r.chance(0.5)) for (size_t i = 0; i < v.size(); i++) std::swap(v[i], v[i + r.below(v.size() - i)]);
        for (auto &o : v) push(o);
      }
    };
    if (r.chance(0.5)) { int k = (int)r.below(6); while (k--) push(Op("eph", {1020, 0, 1 + (int64_t)r.below(24), sd(), 0})); }
    int64_t jump = 0;
    for (int e = 0; e < epochs; e++) {
      // the station whose epoch is next
      size_t w = 0;
      for (size_t i = 1; i < st.size(); i++) if (st[i].next < st[w].next) w = i;
      St &s = st[w];
      int64_t t = s.next + jump;
      s.next += s.step * (r.chance(0.9) ? 1 : 1 + (int64_t)r.below(4));
      if (e && r.chance(0.02)) { jump += 604800000; t = s.next - s.step + jump; }
      else if (e && r.chance(0.03)) jump += r.chance(0.5) ? (int64_t)r.below(200) * 1000 : -(int64_t)r.below(20) * 1000;
      if (late_time && e == epochs / 2) time_op(t - r.range(0, 5000));
      else if (lib && !dirty_ok && r.chance(0.3)) time_op(t + r.range(-20000, 10000));
      if (want_obs) {
        bool msm = s.kind == 0 || (s.kind == 2 && !r.chance(focus == "C05" ? 0.4 : 0.1));
        bool leg = s.kind == 1 || (s.kind == 2 && r.chance(0.8));
        auto do_leg = [&]() {
          bool l2 = r.chance(0.6), g = r.chance(0.6);
          push(Op("leg", {l2 ? 1004 : 1002, s.id, t, g, (int64_t)r.below((uint64_t)(s.nsat + 3)), sd()}));
          if (g) push(Op("leg", {l2 ? 1012 : 1010, s.id, t, r.chance(0.07), (int64_t)r.below((uint64_t)(s.nsat + 3)), sd()}));
        };
        bool first = r.chance(0.5);
        if (leg && first) do_leg();
        if (msm) {
          for (size_t i = 0; i < s.cons.size(); i++) {
            bool last = i + 1 == s.cons.size();
            int64_t mult = r.chance(0.04) ? last : !last;
            int64_t fl = (int64_t)r.below(8);
            if (r.chance(0.015)) fl |= 8;
            int cons = s.cons[i];
            push(Op("msm", {cons, r.chance(0.9) ? s.type : 4 + (int64_t)r.below(4), s.id, t, mult, r.chance(0.04) ? 0 : (int64_t)s.nsat, (int64_t)s.nsig, sd(), fl}));
          }
          if (r.chance(0.04)) {
            static const int xn[] = {1071, 1083, 1092, 1104, 1117, 1121, 1070, 1078, 1229, 1114};
            push(Op("msmx", {xn[r.below(10)], s.id, (int64_t)r.below(2), 2 + (int64_t)r.below(20)}));
          }
        }
        if (leg && !first) do_leg();
      }
      extra(t);
    }
    // whatever is still waiting
    if (r.chance(0.5) && want_obs) p.ops.push_back(Op("msmx", {1104, 1, 0, 20}));
    return p;
  }

  IOPlan io(const Built &B, const Bytes &s, ReadMode m) {
    IOPlan q; q.in = s; q.mode = m; q.rseed = B.cseed; q.rmax = B.rmax;
    for (auto &t : B.times) q.cuts.push_back(t.at);
    return q;
  }
  void crashes(Ctx &c, const ToolRun &r, const char *what) {
    if (r.so.crashed) c.violate("C21", r.so.crash_key, std::string(what) + ": " + r.so.crash_text);
    else if (r.so.hang) c.violate("C21", "hang: " + r.so.crash_key, what);
  }
  static std::string first_diff(const Bytes &a, const Bytes &b) {
    std::vector<Sbp> x, y;
    parse_sbp(a, x); parse_sbp(b, y);
    for (size_t i = 0; i < std::max(x.size(), y.size()); i++) {
      if (i >= x.size()) return fmt("message %zu missing: %s", i, show(y[i]).c_str());
      if (i >= y.size()) return fmt("message %zu extra: %s", i, show(x[i]).c_str());
      if (x[i] != y[i]) return fmt("message %zu is %s, expected %s", i, show(x[i]).c_str(), show(y[i]).c_str());
    }
    return "outputs differ outside whole messages";
  }

  bool job(const Plan &p, Ctx *c, Job &j) override {
    Built B = build(p, c);
    j.tool = "rtcm3tosbp"; j.framing = FR_RTCM; j.out = OUT_SBP; j.in = B.s; j.mode = B.mode; j.rmax = B.rmax; j.rseed = B.cseed; j.span = B.span;
    if (!B.lib) { j.main = entry(B, B.times); j.argv = B.argv; j.clock = B.clock; }
    std::vector<TimeEv> t = B.times;
    if (!B.lib && B.o.t0ref.wn >= 0) { TimeEv e; e.at = 0; e.source = 0; e.t = B.o.t0ref; t.push_back(e); }
    B.lib = true;
    j.api = entry(B, t);
    return true;
  }
  void run(Ctx &c) override {
    Built B = build(c.plan, &c);
    const std::string &F = c.plan.focus;
    c.simtime(B.span);
    uint64_t sh = 0;
    for (auto &op : c.plan.ops) { sh = fnv(op.k.data(), op.k.size(), sh ^ 0x9E37); if (op.k == "msm" || op.k == "ssr" || op.k == "leg" || op.k == "eph") { int64_t x = op.arg(0); sh = fnv(&x, 8, sh); } }
    if (B.nframes) c.shape(sh ^ ((uint64_t)B.mode << 3) ^ B.rmax);
    if (B.dirty || F == "C02") B.s.insert(B.s.end(), 1100, 0);

    if (F == "C01") {
      ToolRun a = run_tool(c, io(B, B.s, RM_FULL), entry(B, B.times));
      crashes(c, a, "full reads");
      c.log(a.out);
      if (a.bad()) return;
      IOPlan q = io(B, B.s, B.mode == RM_FULL ? RM_ONE : B.mode);
      ToolRun b = run_tool(c, q, entry(B, B.times));
      c.fault(q.mode == RM_ONE ? "one byte per read" : "short reads", b.reads.size());
      crashes(c, b, "short reads");
      c.evals(1);
      if (a.out != b.out) { c.violate("C01", "output depends on how reads split the stream", first_diff(b.out, a.out)); return; }
      // promptness: with frames only (no garbage), whatever a frame produces
      // is out by the read call after the one that completed it
      if (!B.dirty) {
        auto fr = rtcm_deframe(B.s);
        IOPlan al = io(B, B.s, RM_LIST);
        for (auto &f : fr) { al.cuts.push_back(f.end); al.cuts.push_back(f.at); }
        ToolRun d = run_tool(c, al, entry(B, B.times));
        c.evals(1);
        if (d.out != a.out) { c.violate("C01", "output depends on how reads split the stream", "frame by frame: " + first_diff(d.out, a.out)); return; }
        std::map<size_t, size_t> cum;  // stream offset -> output emitted once it is delivered
        for (auto &e : d.reads) cum[e.delivered] = e.out;
        for (auto &e : b.reads) {
          auto it = cum.upper_bound(e.delivered);
          if (it == cum.begin()) continue;
          --it;
          c.evals(1);
          if (e.out < it->second) { c.violate("C01", "a complete frame is not converted until later bytes arrive", fmt("after %zu bytes %zu output bytes, expected at least %zu", e.delivered, e.out, it->second)); return; }
        }
        // and nothing is held back when the stream just stops after a frame
        for (auto &f : fr) { auto it = cum.find(f.end); if (it != cum.end() && f.end == B.s.size() && it->second != d.out.size()) c.violate("C01", "the last frame is not converted when read", "output appeared after end of stream"); }
      }
      if (B.rerr >= 0) {
        size_t e = (size_t)B.rerr * B.s.size() / 1000;
        Bytes pre(B.s.begin(), B.s.begin() + (long)e);
        Built P = B;
        std::vector<TimeEv> tv; for (auto &t : B.times) if (t.at < e) tv.push_back(t);
        P.times = tv;
        ToolRun w = run_tool(c, io(P, pre, RM_FULL), entry(P, tv));
        IOPlan q2 = io(P, B.s, B.mode); q2.err_at = (int64_t)e;
        ToolRun x = run_tool(c, q2, entry(P, tv));
        c.fault("read error");
        crashes(c, x, "read error"); crashes(c, w, "end of stream in a frame");
        c.evals(1);
        if (!w.bad() && x.out != w.out) c.violate("C01", "a read error alters what was converted", first_diff(x.out, w.out));
        // a prefix of the stream gives a prefix of the output
        if (!w.bad() && (w.out.size() > a.out.size() || memcmp(w.out.data(), a.out.data(), w.out.size()))) c.violate("C01", "end of stream alters what was converted", first_diff(w.out, a.out));
      }
      return;
    }
    auto frames = rtcm_deframe(B.s);
    if (F == "C02") {
      Bytes clean;
      for (auto &f : frames) if (f.end - f.at < 8 || B.s[f.at + 3] != 0xFA || B.s[f.at + 4] >> 4 != 1) clean.insert(clean.end(), B.s.begin() + (long)f.at, B.s.begin() + (long)f.end);
      Built C = B; C.times.clear();
      for (auto t : B.times) { t.at = 0; C.times.push_back(t); }
      ToolRun a = run_tool(c, io(B, B.s, B.mode), entry(B, B.times));
      crashes(c, a, "damaged stream");
      c.log(a.out);
      ToolRun b = run_tool(c, io(C, clean, RM_FULL), entry(C, C.times));
      crashes(c, b, "clean stream");
      c.evals(frames.size());
      c.probe("intact frames", frames.size());
      if (a.out != b.out) c.violate("C02", "damage changes what intact frames produce", first_diff(a.out, b.out));
      return;
    }
    // model comparison
    RtcmModel m;
    m.init(B.o);
    size_t ti = 0;
    std::vector<TimeEv> times = B.times;
    for (auto &f : frames) {
      while (ti < times.size() && times[ti].at <= f.at) m.time_event(times[ti++].t);
      m.frame(f.pay);
    }
    if (m.unknown) { c.abandon(m.unknown_why.c_str()); return; }
    ToolRun a = run_tool(c, io(B, B.s, B.mode), entry(B, B.times));
    crashes(c, a, "run");
    c.log(a.out);
    if (B.mode == RM_ONE) c.fault("one byte per read", a.reads.size()); else if (B.mode == RM_RANDOM) c.fault("short reads", a.reads.size());
    c.probe("frames converted", frames.size());
    c.probe("expected items", m.out.size());
    if (m.n_msm_drop_legacy) c.probe("legacy dropped while MSM active", (uint64_t)m.n_msm_drop_legacy);
    if (m.n_mixed) c.probe("epoch closed by message of another", (uint64_t)m.n_mixed);
    if (m.n_pair) c.probe("SSR orbit/clock paired", (uint64_t)m.n_pair);
    if (m.n_overflow) c.probe("epoch larger than 210 observations", (uint64_t)m.n_overflow);
    if (m.n_gated) c.probe("message before time known", (uint64_t)m.n_gated);
    if (m.n_week) c.probe("week differs from reference", (uint64_t)m.n_week);
    if (m.n_clear) c.probe("legacy discarded by first MSM", (uint64_t)m.n_clear);
    if (m.n_dup_legacy) c.probe("repeated or older legacy message", (uint64_t)m.n_dup_legacy);
    if (m.n_1033_sup) c.probe("1033 suppressed by 1230", (uint64_t)m.n_1033_sup);
    compare(c, m.out, a.out, !a.bad());
  }
};
}  // namespace

Harness *make_rtcm() { return new RtcmHarness; }
}  // namespace sim
