// Every converter: no crash, hang or malformed output whatever arrives (C21),
// output a function of the input alone (C22), failing writes (C23).
#include <dirent.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <cstdlib>
#include <memory>
#include "harness.h"
#include "rtcm_bits.h"
#include "rtcm_model.h"
#include "stream.h"
#include "ubx_bits.h"

namespace sim {
namespace {
// ---------------------------------------------------------------- frames of any kind
uint16_t ccitt(const uint8_t *p, size_t n) {
  uint16_t c = 0;
  for (size_t i = 0; i < n; i++) { c ^= (uint16_t)(p[i] << 8); for (int j = 0; j < 8; j++) c = (uint16_t)(c & 0x8000 ? c << 1 ^ 0x1021 : c << 1); }
  return c;
}
uint32_t crc32r(const uint8_t *p, size_t n) {
  uint32_t c = 0;
  for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int j = 0; j < 8; j++) c = c & 1 ? c >> 1 ^ 0xEDB88320u : c >> 1; }
  return c;
}
struct Lay { size_t head, tail, len_at, len_n, max; bool total; };  // payload between head and tail
Lay lay(int fr, const Bytes &b) {
  switch (fr) {
    case FR_RTCM: return {3, 3, 1, 2, 1023, false};
    case FR_UBX: return {6, 2, 4, 2, 65535, false};
    case FR_IXCOM: return {16, 4, 4, 2, 65515, true};
    case FR_NOV: return b.size() > 2 && b[2] == 0x13 ? Lay{12, 4, 3, 1, 255, false} : Lay{28, 4, 8, 2, 65535, false};
    default: return {6, 2, 5, 1, 255, false};
  }
}
// sets length and checksum to what the bytes are
void fix(int fr, Bytes &b) {
  Lay l = lay(fr, b);
  if (b.size() < l.head + l.tail) b.resize(l.head + l.tail, 0);
  if (b.size() - l.head - l.tail > l.max) b.resize(l.head + l.tail + l.max);
  size_t n = b.size() - l.head - l.tail, v = l.total ? b.size() : n;
  size_t e = b.size();
  switch (fr) {
    case FR_RTCM: { b[0] = 0xD3; b[1] = (uint8_t)(v >> 8); b[2] = (uint8_t)v; uint32_t c = crc24q(b.data(), e - 3); b[e - 3] = (uint8_t)(c >> 16); b[e - 2] = (uint8_t)(c >> 8); b[e - 1] = (uint8_t)c; break; }
    case FR_UBX: { b[0] = 0xB5; b[1] = 0x62; b[4] = (uint8_t)v; b[5] = (uint8_t)(v >> 8); uint8_t x, y; ubx_ck(b, 2, e - 2, &x, &y); b[e - 2] = x; b[e - 1] = y; break; }
    case FR_IXCOM: { b[0] = 0x7E; b[4] = (uint8_t)v; b[5] = (uint8_t)(v >> 8); uint16_t c = ccitt(b.data(), e - 2); b[e - 2] = (uint8_t)c; b[e - 1] = (uint8_t)(c >> 8); break; }
    case FR_NOV: { b[0] = 0xAA; b[1] = 0x44; if (b[2] == 0x13) b[3] = (uint8_t)v; else { b[2] = 0x12; b[8] = (uint8_t)v; b[9] = (uint8_t)(v >> 8); } uint32_t c = crc32r(b.data(), e - 4); for (int i = 0; i < 4; i++) b[e - 4 + (size_t)i] = (uint8_t)(c >> (8 * i)); break; }
    default: { b[0] = 0x55; b[5] = (uint8_t)v; uint16_t c = ccitt(&b[1], e - 3); b[e - 2] = (uint8_t)c; b[e - 1] = (uint8_t)(c >> 8); }
  }
}
// length of the whole valid frame at i, or 0
size_t frame_at(int fr, const Bytes &s, size_t i) {
  size_t left = s.size() - i;
  Bytes h(s.begin() + (long)i, s.begin() + (long)(i + std::min<size_t>(left, 28)));
  Lay l = lay(fr, h);
  if (left < l.head + l.tail) return 0;
  size_t n = 0;
  switch (fr) {
    case FR_RTCM: if (h[0] != 0xD3 || h[1] & 0xFC) return 0; n = (size_t)h[1] << 8 | h[2]; break;
    case FR_UBX: if (h[0] != 0xB5 || h[1] != 0x62) return 0; n = h[4] | (size_t)h[5] << 8; break;
    case FR_IXCOM: if (h[0] != 0x7E) return 0; n = h[4] | (size_t)h[5] << 8; if (n < 20) return 0; n -= 20; break;
    case FR_NOV: if (h[0] != 0xAA || h[1] != 0x44 || (h[2] != 0x12 && h[2] != 0x13)) return 0; if (h[2] == 0x12 && h[3] != 28) return 0; n = h[2] == 0x13 ? h[3] : h[8] | (size_t)h[9] << 8; break;
    default: if (h[0] != 0x55) return 0; n = h[5];
  }
  size_t t = l.head + n + l.tail;
  if (left < t) return 0;
  Bytes a(s.begin() + (long)i, s.begin() + (long)(i + t)), b = a;
  fix(fr, b);
  return a == b ? t : 0;
}
struct Pc { Bytes b; bool frame; };
std::vector<Pc> split(int fr, const Bytes &s) {
  std::vector<Pc> v;
  size_t i = 0, g = 0;
  auto gap = [&](size_t e) { if (e > g) v.push_back({Bytes(s.begin() + (long)g, s.begin() + (long)e), false}); };
  while (i < s.size()) {
    size_t n = frame_at(fr, s, i);
    if (!n) { i++; continue; }
    gap(i);
    v.push_back({Bytes(s.begin() + (long)i, s.begin() + (long)(i + n)), true});
    i += n; g = i;
  }
  gap(s.size());
  return v;
}

// ---------------------------------------------------------------- the converters
struct Tool { const char *name; Harness *h; int framing; std::vector<const char *> data; };
std::vector<Tool> &tools() {
  static std::vector<Tool> t = {
      {"rtcm3tosbp", make_rtcm(), FR_RTCM, {"rtcm3tosbp/test/data/"}},
      {"ubx2sbp", make_ubx(), FR_UBX, {"ubx2sbp/test/data/"}},
      {"ixcom2sbp", make_ixcom(), FR_IXCOM, {"ixcom2sbp/test/data/"}},
      {"nov2sbp", make_nov(), FR_NOV, {}},
      {"sbp2rtcm", make_sbprtcm(), FR_SBP, {"rtcm3tosbp/test/data/igseph.sbp", "rtcm3tosbp/test/data/piksi-gps-glo.sbp", "gnss_converters/test/data/nmea.sbp"}},
      {"sbp2nmea", make_nmea(), FR_INDEX, {}}};
  return t;
}
// A piece of a recording.
struct File { std::string path; size_t size; };
std::vector<File> &recordings(size_t t) {
  static std::vector<File> all[6];
  static bool done[6];
  if (done[t]) return all[t];
  done[t] = true;
  const char *r = getenv("VERIF_REPO");
  std::string root = std::string(r ? r : "/repo") + "/c/";
  std::vector<std::string> names;
  for (const char *d : tools()[t].data) {
    std::string p = root + d;
    if (p.back() != '/') { names.push_back(p); continue; }
    DIR *dir = opendir(p.c_str());
    if (!dir) continue;
    while (dirent *e = readdir(dir)) { std::string n = e->d_name; if (n[0] != '.' && n.find(".sbp") == std::string::npos) names.push_back(p + n); }
    closedir(dir);
  }
  std::sort(names.begin(), names.end());
  for (auto &n : names) { struct stat st; if (!stat(n.c_str(), &st) && st.st_size > 0) all[t].push_back({n, (size_t)st.st_size}); }
  return all[t];
}
Bytes slice(size_t t, Rng &r) {
  auto &v = recordings(t);
  Bytes b;
  if (v.empty()) return b;
  const File &f = r.pick(v);
  size_t n = 200 + r.below(r.chance(0.3) ? 6000 : 1800), at = f.size > n ? r.below(f.size - n) : 0;
  int fd = open(f.path.c_str(), O_RDONLY);
  if (fd < 0) return b;
  b.resize(std::min(n, f.size));
  ssize_t k = pread(fd, b.data(), b.size(), (off_t)at);
  close(fd);
  b.resize(k > 0 ? (size_t)k : 0);
  // whole frames only, so that it can be cut and joined anywhere
  Bytes o;
  for (auto &p : split(tools()[t].framing, b)) if (p.frame) o.insert(o.end(), p.b.begin(), p.b.end());
  return o;
}

int64_t odd_value(Rng &r, int bits) {
  uint64_t m = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  switch (r.below(9)) {
    case 0: return 0;
    case 1: return (int64_t)m;
    case 2: return (int64_t)(m >> 1);
    case 3: return (int64_t)((m >> 1) + 1);
    case 4: return 1;
    case 5: return (int64_t)(m - 1);
    case 6: return (int64_t)(((m >> 1) + 2) & m);
    default: return (int64_t)(r.next() & m);
  }
}
const int RTCM_T[] = {1001, 1002, 1003, 1004, 1005, 1006, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1019, 1020, 1029, 1033, 1042, 1044, 1045, 1046, 1057, 1058, 1059, 1060, 1061, 1062, 1063, 1064, 1065, 1066, 1067, 1068, 1230, 1240, 1241, 1242, 1243, 1245, 1246, 1247, 1258, 1259, 1260, 1261, 1263, 1265, 1266, 1267, 1268, 1269, 1270, 4062, 4050, 4075};
const int UBX_T[] = {0x0107, 0x0101, 0x0102, 0x0103, 0x0105, 0x0111, 0x0112, 0x0135, 0x0136, 0x0215, 0x0213, 0x1002, 0x1003, 0x1010, 0x1015, 0x2800, 0x2801, 0x2701, 0x0120, 0x0122, 0x0d03};
const int NOV_T[] = {7, 42, 99, 140, 263, 723, 1462, 43, 41, 507, 1429};
const int SBP_T[] = {0x4A, 0x48, 0x75, 0x89, 0x8A, 0x8B, 0x8C, 0x8D, 0x8E, 0x5DD, 0x5E1, 0x5E6, 0x640, 0x5FB, 0x5FA, 0x5F5, 0x401, 0x402, 0xFFFF, 0x102};
int a_type(int fr, Rng &r) {
  switch (fr) {
    case FR_RTCM: if (r.chance(0.4)) return 1070 + (int)r.below(6) * 10 + 1 + (int)r.below(7); return RTCM_T[r.below(sizeof RTCM_T / sizeof *RTCM_T)];
    case FR_UBX: return UBX_T[r.below(sizeof UBX_T / sizeof *UBX_T)];
    case FR_IXCOM: return r.chance(0.8) ? (r.chance(0.5) ? 0 : 0x16) : (int)r.below(256);
    case FR_NOV: return NOV_T[r.below(sizeof NOV_T / sizeof *NOV_T)];
    default: return SBP_T[r.below(sizeof SBP_T / sizeof *SBP_T)];
  }
}
void set_type(int fr, Bytes &b, int t) {
  switch (fr) {
    case FR_RTCM: if (b.size() < 5) b.resize(8, 0); b[3] = (uint8_t)(t >> 4); b[4] = (uint8_t)((t & 15) << 4 | (b[4] & 15)); break;
    case FR_UBX: b[2] = (uint8_t)(t >> 8); b[3] = (uint8_t)t; break;
    case FR_IXCOM: b[1] = (uint8_t)t; break;
    case FR_NOV: b[4] = (uint8_t)t; b[5] = (uint8_t)(t >> 8); break;
    default: b[1] = (uint8_t)t; b[2] = (uint8_t)(t >> 8);
  }
}
enum { M_FLIP, M_FIELD, M_CUT, M_GROW, M_TYPE, M_SWAPPAY, M_REPEAT, M_DROP, M_NOISE, M_LIE, M_RAWFLIP, M_NEW, M_END, M_SWAP, M_MANY, M_N };
const char *MNAME[] = {"bits flipped under a valid checksum", "field replaced under a valid checksum", "payload shortened under a valid checksum", "payload extended under a valid checksum",
                       "message type replaced", "payload of another message", "message repeated many times", "frame lost", "garbage between frames", "length field that lies", "bit flipped",
                       "random payload of a known type", "end of stream within a frame", "frames exchanged", "many bytes replaced under a valid checksum"};
void gen_mut(Rng &r, int fr, Plan &p, int n) {
  for (int i = 0; i < n; i++) {
    int k = (int)r.weighted({6, 8, 3, 3, 3, 2, 1, 2, 2, 1, 2, 5, 1, 2, 3});
    int64_t a = (int64_t)r.below(100000), b = (int64_t)(r.chance(0.5) ? r.below(200) : r.below(9000)), c = (int64_t)(r.next() >> 8), d = 0;
    if (k == M_FIELD) { d = r.chance(0.5) ? 8 << r.below(3) : 1 + (int64_t)r.below(38); c = odd_value(r, (int)d); if (r.chance(0.5)) b = b / 8 * 8; }
    if (k == M_CUT || k == M_END) b = (int64_t)r.below(1000);
    if (k == M_GROW) b = 1 + (int64_t)r.below(r.chance(0.3) ? (r.chance(0.3) ? 4000 : 1000) : 12);
    if (k == M_TYPE) b = a_type(fr, r);
    if (k == M_REPEAT) b = 2 + (int64_t)r.below(r.chance(0.2) ? 300 : 20);
    if (k == M_NOISE) b = 1 + (int64_t)r.below(r.chance(0.2) ? 3000 : 60);
    if (k == M_NEW) { b = a_type(fr, r); d = (int64_t)r.below(r.chance(0.3) ? 1024 : 120); if (fr != FR_RTCM && fr != FR_SBP && r.chance(0.35)) { d = (int64_t)r.below(4100); static const int L[] = {0x0215, 0x0213, 0x1002, 0x1003, 0x0135}; if (fr == FR_UBX) b = L[r.below(5)]; } }
    if (k == M_MANY) b = 1 + (int64_t)r.below(20);
    p.ops.push_back(Op("mut", {k, a, b, c, d}));
  }
}
void mutate(int fr, std::vector<Pc> &v, const Op &op, Ctx *cx) {
  int k = (int)op.arg(0);
  if (k < 0 || k >= M_N) return;
  int64_t b = op.arg(2), d = op.arg(4);
  Rng r((uint64_t)op.arg(3));
  std::vector<size_t> f;
  for (size_t i = 0; i < v.size(); i++) if (v[i].frame) f.push_back(i);
  if (k == M_NEW || k == M_NOISE) {
    size_t at = v.empty() ? 0 : (size_t)op.arg(1) % (v.size() + 1);
    Bytes x;
    if (k == M_NEW) {
      Bytes h(28, 0);
      if (fr == FR_NOV) { h[2] = r.chance(0.5) ? 0x13 : 0x12; h[3] = 28; }
      x.assign(h.begin(), h.begin() + (long)lay(fr, h).head);
      int mode = (int)r.below(3);
      size_t n = (size_t)d;
      if (fr == FR_NOV && h[2] == 0x13) n %= 256;
      for (size_t i = 0; i < n; i++) x.push_back((uint8_t)(mode == 0 ? r.below(256) : mode == 1 ? (r.chance(0.2) ? r.below(256) : 0) : (r.chance(0.1) ? r.below(256) : 0xFF)));
      x.resize(x.size() + lay(fr, h).tail + (fr == FR_RTCM && n < 2 ? 2 : 0), 0);
      if (fr == FR_SBP) { x[3] = 0x42; }
      set_type(fr, x, (int)b);
      fix(fr, x);
    } else {
      static const uint8_t S[] = {0xD3, 0xB5, 0x7E, 0xAA, 0x55, 0};
      for (int64_t i = 0; i < b; i++) x.push_back(r.chance(0.2) ? S[fr] : (uint8_t)r.below(256));
    }
    v.insert(v.begin() + (long)at, {x, k == M_NEW});
    if (cx) cx->fault(MNAME[k]);
    return;
  }
  if (f.empty()) return;
  size_t at = f[(size_t)op.arg(1) % f.size()];
  Bytes &x = v[at].b;
  Lay l = lay(fr, x);
  size_t pay = x.size() > l.head + l.tail ? x.size() - l.head - l.tail : 0;
  if (cx) cx->fault(MNAME[k]);
  switch (k) {
    case M_FLIP: { size_t t0 = fr == FR_NOV || fr == FR_IXCOM ? 4 : fr == FR_SBP ? 1 : l.head, n = l.head + pay > t0 ? l.head + pay - t0 : 0; if (!n) return; size_t bit = (size_t)b % (n * 8); x[t0 + bit / 8] ^= (uint8_t)(0x80 >> bit % 8); fix(fr, x); break; }
    case M_FIELD: {
      if (!pay) return;
      size_t bits = pay * 8, o = (size_t)b % bits; uint64_t w = (uint64_t)op.arg(3);
      bool little = fr != FR_RTCM && o % 8 == 0 && d % 8 == 0;
      for (int64_t i = 0; i < d && o + (size_t)i < bits; i++) {
        size_t q = o + (size_t)i; int vb;
        if (little) { size_t by = (size_t)i / 8, bi = 7 - (size_t)i % 8; vb = (int)(w >> (8 * by + bi) & 1); }
        else vb = (int)(w >> (d - 1 - i) & 1);
        uint8_t m = (uint8_t)(0x80 >> q % 8);
        if (vb) x[l.head + q / 8] |= m; else x[l.head + q / 8] &= (uint8_t)~m;
      }
      fix(fr, x); break;
    }
    case M_CUT: { size_t n = pay * (size_t)b / 1000; x.resize(l.head + n + l.tail); fix(fr, x); break; }
    case M_GROW: { Bytes g; for (int64_t i = 0; i < b; i++) g.push_back((uint8_t)r.below(256)); x.insert(x.begin() + (long)(l.head + pay), g.begin(), g.end()); fix(fr, x); break; }
    case M_TYPE: set_type(fr, x, (int)b); fix(fr, x); break;
    case M_SWAPPAY: {
      const Bytes &y = v[f[(size_t)r.below(f.size())]].b; Lay ly = lay(fr, y);
      if (y.size() < ly.head + ly.tail) return;
      Bytes z(x.begin(), x.begin() + (long)l.head); z.insert(z.end(), y.begin() + (long)ly.head, y.end()); z.resize(l.head + (y.size() - ly.head - ly.tail) + l.tail);
      if (fr == FR_RTCM && z.size() > 5 && x.size() > 5) { z[3] = x[3]; z[4] = (uint8_t)((x[4] & 0xF0) | (z[4] & 15)); }
      x = z; fix(fr, x); break;
    }
    case M_REPEAT: { Pc c = v[at]; int64_t n = std::min<int64_t>(b, 120000 / (int64_t)std::max<size_t>(c.b.size(), 1)); v.insert(v.begin() + (long)at, (size_t)std::max<int64_t>(n, 1), c); break; }
    case M_DROP: v.erase(v.begin() + (long)at); break;
    case M_LIE: { size_t w = (size_t)(r.chance(0.3) ? odd_value(r, 16) : (int64_t)r.below(2000)); if (fr == FR_RTCM) { x[1] = (uint8_t)(w >> 8); x[2] = (uint8_t)w; } else for (size_t i = 0; i < l.len_n && l.len_at + i < x.size(); i++) x[l.len_at + i] = (uint8_t)(w >> (8 * i)); v[at].frame = false; break; }
    case M_RAWFLIP: { size_t bit = (size_t)b % (x.size() * 8); x[bit / 8] ^= (uint8_t)(1 << bit % 8); v[at].frame = false; break; }
    case M_END: { x.resize(x.size() * (size_t)b / 1000); v[at].frame = false; v.resize(at + 1); break; }
    case M_SWAP: std::swap(v[at], v[f[(size_t)r.below(f.size())]]); break;
    case M_MANY: if (!pay) return; for (int64_t i = 0; i < b; i++) x[l.head + r.below(pay)] = (uint8_t)odd_value(r, 8); fix(fr, x); break;
  }
}

// ---------------------------------------------------------------- plans
// `job t focus seed` begins the operations of one conversion
void gen_job(Rng &r, Plan &p, size_t t, int muts, bool record) {
  Tool &T = tools()[t];
  auto props = T.h->properties();
  size_t fi = r.below(props.size());
  uint64_t sd = r.next() >> 1;
  p.ops.push_back(Op("job", {(int64_t)t, (int64_t)fi, (int64_t)sd}));
  Plan q = T.h->gen(sd, props[fi]);
  bool rec = record && !recordings(t).empty() && r.chance(0.5), only = rec && r.chance(0.6);
  for (auto &o : q.ops) {
    if (only && !(o.k == "opt" || o.k == "chunk" || o.k == "rerr" || o.k == "wfail" || o.k == "time" || o.k == "cfg" || o.k == "set")) continue;
    p.ops.push_back(o);
  }
  if (rec) for (int i = 0, n = 1 + (int)r.below(3); i < n; i++) { Bytes b = slice(t, r); if (!b.empty()) p.ops.push_back(Op("rec", {(int64_t)r.below(100000)}, b)); }
  if (T.framing == FR_INDEX) { if (muts) for (int i = 0, n = 1 + (int)r.below(12); i < n; i++) p.ops.push_back(Op("wild", {(int64_t)r.below(17), (int64_t)(r.next() >> 8), r.chance(0.4), (int64_t)r.below(604800000)})); }
  else gen_mut(r, T.framing, p, muts);
}
struct J { Job j; size_t t = 0; Bytes in; int64_t rerr = -1; };
std::vector<J> jobs(const Plan &p, Ctx *c) {
  std::vector<J> v;
  for (size_t i = 0; i < p.ops.size(); i++) {
    if (p.ops[i].k != "job") continue;
    size_t e = i + 1;
    while (e < p.ops.size() && p.ops[e].k != "job") e++;
    size_t t = (size_t)p.ops[i].arg(0);
    if (t >= tools().size()) continue;
    Tool &T = tools()[t];
    auto props = T.h->properties();
    Plan q;
    q.seed = (uint64_t)p.ops[i].arg(2); q.focus = props[(size_t)p.ops[i].arg(1) % props.size()];
    J j; j.t = t;
    std::vector<Op> mine;
    for (size_t k = i + 1; k < e; k++) {
      const Op &o = p.ops[k];
      if (o.k == "mut" || o.k == "rec") mine.push_back(o);
      else if (o.k == "fault" || o.k == "mix" || o.k == "wf" || o.k == "prog" || o.k == "pe") continue;
      else { if (o.k == "rerr") j.rerr = o.arg(0); if (o.k == "wfail") continue; q.ops.push_back(o); }
    }
    if (!T.h->job(q, c, j.j)) continue;
    if (j.j.span > 0 && c) c->simtime(j.j.span);
    if (T.framing != FR_INDEX && !mine.empty()) {
      auto ps = split(T.framing, j.j.in);
      for (auto &o : mine) {
        if (o.k == "rec") { auto x = split(T.framing, o.b); size_t at = ps.empty() ? 0 : (size_t)o.arg(0) % (ps.size() + 1); ps.insert(ps.begin() + (long)at, x.begin(), x.end()); if (c) c->probe("bytes of recordings", o.b.size()); }
        else mutate(T.framing, ps, o, c);
      }
      j.j.in.clear();
      for (auto &x : ps) { j.j.in.insert(j.j.in.end(), x.b.begin(), x.b.end()); if (j.j.in.size() > 400000) break; }
    }
    v.push_back(std::move(j));
    if (c) c->probe((std::string("conversions: ") + T.name).c_str());
    i = e - 1;
  }
  return v;
}
std::string malformed(int out, const Bytes &b) {
  if (out == OUT_SBP) { std::vector<Sbp> v; size_t at = 0; if (!parse_sbp(b, v, &at)) return fmt("no whole SBP message at byte %zu of %zu", at, b.size()); return ""; }
  if (out == OUT_RTCM) {
    size_t i = 0;
    while (i < b.size()) { size_t n = frame_at(FR_RTCM, b, i); if (!n) return fmt("no whole RTCM frame at byte %zu of %zu", i, b.size()); i += n; }
    return "";
  }
  size_t i = 0;
  while (i < b.size()) {
    size_t e = i;
    while (e < b.size() && b[e] != '\n') e++;
    std::string l(b.begin() + (long)i, b.begin() + (long)e);
    size_t s = l.rfind('*');
    if (l.size() < 5 || l[0] != '$' || l.back() != '\r' || e == b.size() || s == std::string::npos || s + 4 != l.size()) return "no NMEA sentence: " + l;
    int x = 0;
    for (size_t k = 1; k < s; k++) x ^= (uint8_t)l[k];
    if (fmt("%02X", x) != l.substr(s + 1, 2)) return "wrong checksum: " + l;
    for (size_t k = 1; k < s; k++) if (l[k] < 32 || l[k] > 126) return "unprintable character in: " + l;
    i = e + 1;
  }
  return "";
}
std::string any_diff(int out, const Bytes &a, const Bytes &b) {
  if (out == OUT_SBP) return sbp_diff(a, b);
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return fmt("%zu bytes instead of %zu, first difference at byte %zu", a.size(), b.size(), i);
}

// ---------------------------------------------------------------- several conversions in one process
struct Baton {
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
  int turn = 0, n = 0;
  double p = 0.3;
  Rng r{1};
  std::vector<char> live;
  uint64_t switches = 0;
  int other(int me, bool leave) {
    std::vector<int> o;
    for (int i = 0; i < n; i++) if (live[(size_t)i] && (i != me || !leave)) o.push_back(i);
    if (o.empty()) return -1;
    return o[r.below(o.size())];
  }
  void yield(int me) {
    if (!r.chance(p)) return;
    int t = other(me, false);
    if (t == me || t < 0) return;
    switches++;
    pthread_mutex_lock(&m);
    turn = t;
    pthread_cond_broadcast(&cv);
    while (turn != me) pthread_cond_wait(&cv, &m);
    pthread_mutex_unlock(&m);
  }
  void wait(int me) { pthread_mutex_lock(&m); while (turn != me) pthread_cond_wait(&cv, &m); pthread_mutex_unlock(&m); }
  void done(int me) {
    live[(size_t)me] = 0;
    int t = other(me, true);
    pthread_mutex_lock(&m); turn = t; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&m);
  }
};
struct Task { Baton *b; int me; const J *j; IOPlan io; uint8_t fill; Bytes out; };
void *task(void *x) {
  Task *t = (Task *)x;
  t->b->wait(t->me);
  IO io(t->io, [t](const void *d, size_t n) { t->out.insert(t->out.end(), (const uint8_t *)d, (const uint8_t *)d + n); });
  io.fill = t->fill;
  io.yield = [t] { t->b->yield(t->me); };
  t->j->j.api(io);
  t->b->done(t->me);
  return nullptr;
}
Bytes outs(const Bytes &rec) { SubOut s; s.data = rec; return decode_run(s).out; }
void put(std::function<void(const void *, size_t)> &sink, const Bytes &b) { uint64_t n = b.size(); sink(&n, 8); if (n) sink(b.data(), n); }
bool get(const Bytes &d, size_t &at, Bytes &b) {
  if (at + 8 > d.size()) return false;
  uint64_t n = rd(d, at, 8);
  at += 8;
  if (at + n > d.size()) return false;
  b.assign(d.begin() + (long)at, d.begin() + (long)(at + n));
  at += n;
  return true;
}

struct AllHarness : Harness {
  const char *name() override { return "all"; }
  std::vector<std::string> properties() override { return {"C21", "C22", "C23", "C26"}; }
  std::vector<std::string> real_components() override { return {"rtcm3tosbp, ubx2sbp, ixcom2sbp, nov2sbp, sbp2rtcm: their main functions and everything below", "gnss_converters, gnss_converters_extra, librtcm, libubx, libixcom as libraries", "sbp_nmea and nmea", "for C26 the C and Rust programs (*_main.c, rust/*.rs) on the real Rust standard library"}; }
  std::vector<std::string> stub_components() override { return {"libsbp and libswiftnav (stand-ins)", "stdin, stdout, system clock, allocator results", "threads: one runs at a time, chosen by the schedule", "for C26 the system calls read and write; the crates libc, lazy_static and if_chain"}; }
  std::vector<std::string> assumptions() override { return {"libsbp and libswiftnav are stand-ins written for this simulator: their own defects are not in scope", "memory errors are those AddressSanitizer, bounds, null and division checks (C21) or MemorySanitizer (C22) see"}; }
  std::string rule(const std::string &F) override {
    std::string h = F == "C21" ? "simulated traffic and pieces of recordings, mutated field by field under valid checksums, lost, repeated, torn and lied about, with short reads, read errors and failing writes, through all six converters"
                    : F == "C22" ? "two to four conversions: alone with different memory contents, after others in one process with the memory they left, after an abandoned one, and interleaved at their reads and writes by a seeded scheduler"
                    : F == "C26" ? "traffic of each tool through the C and the Rust program, on the standard streams and on files, with reads split, failing or ended and writes refused or cut short anywhere, the last flush included"
                                 : "traffic of each tool with the sink failing, accepting part of a write or failing once, at write boundaries and within writes";
    return h + "; a history counts as distinct by the hash of its sequence of operations";
  }
  int64_t arg_floor(const Op &o, size_t i) override { (void)o; (void)i; return 0; }
  bool arg_shrinkable(const Op &o, size_t) override { return o.k == "wf" || o.k == "il"; }
  Plan gen(uint64_t seed, const std::string &F) override {
    Rng r(seed ^ 0xA11);
    Plan p; p.seed = seed; p.focus = F;
    if (F == "C21") {
      size_t t = r.weighted({8, 4, 2, 4, 5, 3});
      int n = r.chance(0.1) ? 0 : 1 + (int)r.below(r.chance(0.3) ? 60 : 12);
      gen_job(r, p, t, n, true);
      p.ops.push_back(Op("fault", {(int64_t)r.below(1000), (int64_t)r.below(1000), (int64_t)r.below(4)}));
    } else if (F == "C22") {
      int n = 2 + (int)r.below(3);
      for (int i = 0; i < n; i++) {
        size_t t = i && r.chance(0.5) ? (size_t)p.ops[0].arg(0) : r.weighted({6, 4, 2, 2, 5, 3});
        gen_job(r, p, t, r.chance(0.5) ? 0 : 1 + (int)r.below(10), true);
      }
      p.ops.push_back(Op("mix", {(int64_t)(r.next() >> 8), (int64_t)r.below(1000), (int64_t)r.below(n)}));
    } else if (F == "C26") {
      gen_job(r, p, r.weighted({3, 3, 3, 3, 3}), r.chance(0.8) ? 0 : 1 + (int)r.below(4), true);
      p.ops.push_back(Op("prog", {(int64_t)r.weighted({4, 4, 2, 2}), (int64_t)r.below(3), (int64_t)(1 + r.below(r.chance(0.5) ? 64 : 20000)), (int64_t)(r.next() >> 8)}));
      if (r.chance(0.4)) p.ops.push_back(Op("pe", {(int64_t)r.below(1001)}));
      for (int i = 0, n = 1 + (int)r.below(5); i < n; i++) p.ops.push_back(Op("wf", {(int64_t)r.below(r.chance(0.3) ? 1000000 : 1000), (int64_t)r.below(8), r.chance(0.3), (int64_t)r.below(2)}));
    } else {
      gen_job(r, p, r.weighted({4, 3, 2, 3, 4}), r.chance(0.7) ? 0 : 1 + (int)r.below(6), true);
      for (int i = 0, n = 2 + (int)r.below(6); i < n; i++) p.ops.push_back(Op("wf", {(int64_t)r.below(100000), (int64_t)r.below(8), r.chance(0.3), (int64_t)r.below(300)}));
    }
    return p;
  }
  void run(Ctx &c) override {
    c.shape(ops_shape(c.plan));
    auto v = jobs(c.plan, &c);
    if (c.plan.focus == "C21") c21(c, v);
    else if (c.plan.focus == "C22") c22(c, v);
    else if (c.plan.focus == "C26") c26(c, v);
    else c23(c, v);
  }
  static std::string who(const J &j, const char *how) { return std::string(j.j.tool) + ", " + how; }
  static bool crash(Ctx &c, const char *prop, const J &j, const ToolRun &r, const char *how) {
    if (r.so.crashed) { c.violate(prop, r.so.crash_key, who(j, how) + ": " + r.so.crash_text); return true; }
    if (r.so.hang) { c.violate(prop, "hang: " + r.so.crash_key, who(j, how) + ": " + r.so.crash_text); return true; }
    return false;
  }
  void c21(Ctx &c, std::vector<J> &v) {
    int64_t re = 500, wf = 500; int wm = 0;
    for (auto &o : c.plan.ops) if (o.k == "fault") { re = o.arg(0); wf = o.arg(1); wm = (int)o.arg(2); }
    for (auto &j : v) {
      const Entry &e = j.j.main ? j.j.main : j.j.api;
      IOPlan q = j.j.io(); q.mode = RM_FULL;
      ToolRun a = run_tool(c, q, e);
      c.log(a.out); c.evals(2);
      if (crash(c, "C21", j, a, "whole reads")) return;
      std::string m = malformed(j.j.out, a.out);
      if (!m.empty()) { c.violate("C21", j.j.tool + " puts out something that is no whole message", m); return; }
      c.probe((std::string("output bytes: ") + j.j.tool).c_str(), a.out.size());
      const Entry &e2 = j.j.api ? j.j.api : e;
      q = j.j.io();
      ToolRun b = run_tool(c, q, e2);
      c.evals(2); c.fault("short reads", b.reads.size());
      if (crash(c, "C21", j, b, j.j.api ? "as a library" : "short reads")) return;
      m = malformed(j.j.out, b.out);
      if (!m.empty()) { c.violate("C21", j.j.tool + " puts out something that is no whole message", m); return; }
      if (!j.j.main) continue;
      q.err_at = (int64_t)(j.j.in.size() * (size_t)re / 1000);
      ToolRun d = run_tool(c, q, e);
      c.evals(1); c.fault("read error");
      if (crash(c, "C21", j, d, "a read error")) return;
      if (a.out.empty()) continue;
      q.err_at = -1; q.wfail_at = (int64_t)(a.out.size() * (size_t)wf / 1000); q.wshort = wm & 1; q.wret = wm & 2 ? -1 : 0;
      ToolRun f = run_tool(c, q, e);
      c.evals(1); c.fault("write error");
      if (crash(c, "C21", j, f, "a failing write")) return;
    }
  }
  void c22(Ctx &c, std::vector<J> &v) {
    uint64_t seed = 1; int64_t cut = 500; size_t ab = 0;
    for (auto &o : c.plan.ops) if (o.k == "mix") { seed = (uint64_t)o.arg(0); cut = o.arg(1); ab = (size_t)o.arg(2); }
    auto bad = [&](const J &j, const ToolRun &r, const char *how) {
      if (r.so.crashed && (r.so.crash_key.compare(0, 4, "msan") == 0 || r.so.crash_key.compare(0, 7, "exit 77") == 0)) { c.violate("C22", r.so.crash_key, who(j, how) + ": " + r.so.crash_text); return true; }
      return crash(c, "C21", j, r, how);
    };
    std::vector<Bytes> ref;
    for (auto &j : v) {
      IOPlan q = j.j.io();
      if (j.j.main) {
        ToolRun m = run_tool(c, q, j.j.main);
        c.evals(1);
        if (bad(j, m, "as a program")) return;
        c.log(m.out);
        ToolRun n = run_tool(c, q, j.j.main);
        if (bad(j, n, "as a program")) return;
        if (n.out != m.out || n.ret != m.ret || n.so.code != m.so.code) { c.violate("C22", j.j.tool + " run again gives another output", any_diff(j.j.out, n.out, m.out)); return; }
      }
      if (!j.j.api) { ref.push_back({}); continue; }
      ToolRun a = run_with(c, q, j, 0x5A), b = run_with(c, q, j, (uint8_t)(seed & 255));
      c.evals(2); c.fault("other contents of memory");
      if (bad(j, a, "alone") || bad(j, b, "alone")) return;
      if (a.out != b.out) { c.violate("C22", j.j.tool + " depends on what was in memory", any_diff(j.j.out, b.out, a.out)); return; }
      ref.push_back(a.out); c.log(a.out);
    }
    std::vector<size_t> k;
    for (size_t i = 0; i < v.size(); i++) if (v[i].j.api) k.push_back(i);
    if (k.size() < 1) return;
    // one after another in the memory the one before left
    {
      SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
        std::map<std::string, std::map<int, Bytes>> mem;
        auto go = [&](const J &j, const IOPlan &q) {
          Bytes o;
          IO io(q, [&](const void *d, size_t n) { o.insert(o.end(), (const uint8_t *)d, (const uint8_t *)d + n); });
          io.mem = &mem[j.j.tool];
          j.j.api(io);
          return outs(o);
        };
        const J &x = v[k[ab % k.size()]];
        IOPlan q = x.j.io();
        if (x.j.framing != FR_INDEX) { q.in.resize(q.in.size() * (size_t)cut / 1000); go(x, q); }
        for (int round = 0; round < 2; round++) for (size_t i : k) put(sink, go(v[i], v[i].j.io()));
      });
      c.fault("conversion abandoned"); c.fault("restart in used memory", 2 * k.size());
      ToolRun t; t.so = so;
      if (bad(v[k[0]], t, "after other conversions")) return;
      size_t at = 0; Bytes b;
      for (int round = 0; round < 2; round++) for (size_t i : k) {
        if (!get(so.data, at, b)) { c.violate("C21", "conversion ended the process", v[i].j.tool); return; }
        c.evals(1);
        if (b != ref[i]) { c.violate("C22", v[i].j.tool + " depends on an earlier conversion", any_diff(v[i].j.out, b, ref[i])); return; }
      }
    }
    if (k.size() < 2) return;
    {
      SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
        Baton B; B.n = (int)k.size(); B.live.assign(k.size(), 1); B.r = Rng(seed); B.p = seed & 1 ? 0.8 : seed & 2 ? 0.3 : 0.05;
        std::vector<Task> T(k.size());
        std::vector<pthread_t> th(k.size());
        B.turn = -1;
        for (size_t i = 0; i < k.size(); i++) { T[i].b = &B; T[i].me = (int)i; T[i].j = &v[k[i]]; T[i].io = v[k[i]].j.io(); T[i].fill = (uint8_t)(seed >> 8); }
        for (size_t i = 0; i < k.size(); i++) pthread_create(&th[i], nullptr, task, &T[i]);
        pthread_mutex_lock(&B.m); B.turn = (int)B.r.below(k.size()); pthread_cond_broadcast(&B.cv); pthread_mutex_unlock(&B.m);
        for (size_t i = 0; i < k.size(); i++) pthread_join(th[i], nullptr);
        for (size_t i = 0; i < k.size(); i++) put(sink, outs(T[i].out));
        sink(&B.switches, 8);
      }, 20);
      ToolRun t; t.so = so;
      if (bad(v[k[0]], t, "conversions taking turns")) return;
      size_t at = 0; Bytes b;
      for (size_t i : k) {
        if (!get(so.data, at, b)) { c.violate("C21", "conversion ended the process", v[i].j.tool); return; }
        c.evals(1);
        if (b != ref[i]) { c.violate("C22", v[i].j.tool + " depends on another conversion taking turns with it", any_diff(v[i].j.out, b, ref[i])); return; }
      }
      uint64_t sw = rd(so.data, at, 8);
      c.fault("switch between conversions", sw); c.log(sw);
    }
  }
  static ToolRun run_with(Ctx &c, const IOPlan &p, const J &j, uint8_t fill) {
    SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
      IO io(p, sink);
      io.fill = fill;
      int32_t ret = j.j.api(io);
      io.rec('X', &ret, 4);
    });
    return decode_run(so);
  }
  static int status(const ToolRun &r) { return r.returned ? r.ret : r.so.code; }
  // the way Rust programs report that they cannot go on
  static bool panicked(const ToolRun &r) { return r.so.crashed && WIFSIGNALED(r.so.status) && WTERMSIG(r.so.status) == SIGABRT && r.so.crash_key.compare(0, 5, "panic") == 0; }
  void c26(Ctx &c, std::vector<J> &v) {
    int kind = 0; ReadMode mode = RM_FULL; size_t rmax = 64; uint64_t rs = 1; int64_t re = -1;
    for (auto &o : c.plan.ops) {
      if (o.k == "prog") { kind = (int)o.arg(0) & 3; mode = o.arg(1) == 0 ? RM_FULL : o.arg(1) == 1 ? RM_ONE : RM_RANDOM; rmax = (size_t)std::max<int64_t>(1, o.arg(2)); rs = (uint64_t)o.arg(3); }
      if (o.k == "pe") re = o.arg(0);
    }
    static const char *K[] = {"C program", "Rust program", "Rust program with an input file", "Rust program with an input and an output file"};
    for (auto &j : v) {
      if (!j.j.main || !program) continue;
      Entry e = program(j.j, kind);
      if (!e) continue;
      std::string n = j.j.tool + ", " + K[kind];
      c.probe((std::string("runs: ") + n).c_str());
      IOPlan q = j.j.io(); q.mode = RM_FULL; q.wret = -1;
      ToolRun ref = run_tool(c, q, j.j.main);
      if (crash(c, "C21", j, ref, "as a library")) return;
      IOPlan w = q; w.mode = mode; w.rmax = rmax; w.rseed = rs;
      ToolRun a = run_tool(c, w, e);
      c.evals(2); c.log(a.out); c.log((uint64_t)status(a));
      c.fault("short reads", a.reads.size());
      if (a.so.crashed || a.so.hang) { c.violate("C26", n + ": " + a.so.crash_key, a.so.crash_text); return; }
      if (a.out != ref.out) { c.violate("C26", n + ": output is not that of the converter", any_diff(j.j.out, a.out, ref.out)); return; }
      if (status(ref) != 0) { c.violate("C26", j.j.tool + " reports failure at the end of its input", fmt("status %d", status(ref))); return; }
      if (status(a) != status(ref)) { c.violate("C26", n + ": status is not that of the converter", fmt("%d instead of %d", status(a), status(ref))); return; }
      if (re >= 0) {
        IOPlan x = q; x.err_at = (int64_t)(j.j.in.size() * (size_t)re / 1000);
        ToolRun r1 = run_tool(c, x, j.j.main);
        x.mode = mode; x.rmax = rmax; x.rseed = rs;
        ToolRun r2 = run_tool(c, x, e);
        c.evals(1); c.fault("read error"); c.log(r2.out);
        if (crash(c, "C21", j, r1, "a read error")) return;
        if (r2.so.hang || (r2.so.crashed && !panicked(r2))) { c.violate("C26", n + ", read error: " + r2.so.crash_key, r2.so.crash_text); return; }
        if (r2.out != r1.out) { c.violate("C26", n + ": output before a read error is not that of the converter", any_diff(j.j.out, r2.out, r1.out)); return; }
      }
      if (ref.out.empty()) continue;
      for (auto &op : c.plan.ops) {
        if (op.k != "wf") continue;
        int m = (int)op.arg(1);
        IOPlan x = w;
        x.wfail_at = (int64_t)(op.arg(0) < 1000 ? ref.out.size() - 1 - (size_t)op.arg(0) % ref.out.size() : (size_t)op.arg(0) % ref.out.size());
        x.wshort = m & 1; x.wonce = (m & 4) != 0 || op.arg(2) != 0;
        ToolRun b = run_tool(c, x, e);
        c.evals(3); c.fault(x.wshort ? "part of a write accepted" : "write error"); c.log(b.out);
        if (x.wonce) c.fault("sink works again after one failed write");
        std::string ctx = fmt("%s: sink fails after %lld of %zu bytes (%s%s)", n.c_str(), (long long)x.wfail_at, ref.out.size(), x.wshort ? "part of a write accepted" : "write refused", x.wonce ? ", then works again" : "");
        if (b.so.hang || (b.so.crashed && !panicked(b))) { c.violate("C26", n + " crashes or hangs when a write fails: " + b.so.crash_key, ctx + "\n" + b.so.crash_text); return; }
        if (b.out.size() > ref.out.size() || memcmp(b.out.data(), ref.out.data(), b.out.size())) { c.violate("C26", n + ": what the sink accepted is not a prefix of the output", ctx + fmt(": %zu bytes accepted", b.out.size())); return; }
        if (b.out.size() == ref.out.size()) { c.probe("failed write tried again"); continue; }
        if (!b.so.crashed && status(b) == 0) { c.violate("C26", n + " reports success though output was lost", ctx + fmt(": %zu bytes accepted", b.out.size())); return; }
      }
    }
  }
  void c23(Ctx &c, std::vector<J> &v) {
    for (auto &j : v) {
      if (!j.j.main) continue;
      IOPlan q = j.j.io();
      ToolRun a = run_tool(c, q, j.j.main);
      c.log(a.out);
      if (crash(c, "C21", j, a, "no fault") || a.out.empty()) return;
      std::vector<size_t> cut = {0};  // where writes end
      for (size_t i = 0, o = 0; i + 5 <= a.so.data.size();) { uint32_t n = (uint32_t)rd(a.so.data, i + 1, 4); if (a.so.data[i] == 'O') { o += n; cut.push_back(o); } i += 5 + n; }
      for (auto &op : c.plan.ops) {
        if (op.k != "wf") continue;
        int m = (int)op.arg(1);
        IOPlan w = q;
        size_t wi = (size_t)op.arg(0) % (cut.size() - 1), n = cut[wi + 1] - cut[wi];
        bool part = m & 1 && n > 1;
        w.wfail_at = (int64_t)(cut[wi] + (part ? 1 + (size_t)op.arg(3) % (n - 1) : 0));
        w.wshort = part; w.wret = m & 2 ? -1 : 0; w.wonce = (m & 4) != 0 || op.arg(2) != 0;
        ToolRun b = run_tool(c, w, j.j.main);
        c.fault(part ? "part of a write accepted" : "write error");
        if (w.wonce) c.fault("sink works again after one failed write");
        c.log(b.out); c.evals(3);
        std::string ctx = fmt("%s: sink fails after %lld of %zu bytes (%s%s)", j.j.tool.c_str(), (long long)w.wfail_at, a.out.size(), part ? "part of a write accepted" : "write refused", w.wonce ? ", then works again" : "");
        if (b.so.crashed) { c.violate("C23", j.j.tool + " crashes when a write fails: " + b.so.crash_key, ctx + "\n" + b.so.crash_text); return; }
        if (b.so.hang) { c.violate("C23", j.j.tool + " hangs when a write fails: " + b.so.crash_key, ctx); return; }
        if (w.wonce && b.out == a.out) { c.probe("failed write tried again"); continue; }
        if (b.out.size() > a.out.size() || memcmp(b.out.data(), a.out.data(), b.out.size())) { c.violate("C23", j.j.tool + ": what the sink accepted is not a prefix of the output", ctx + fmt(": %zu bytes accepted", b.out.size())); return; }
        if (b.out.size() != (size_t)w.wfail_at) { c.violate("C23", j.j.tool + ": output before the failing write is missing", ctx + fmt(": %zu bytes accepted", b.out.size())); return; }
        int st = b.returned ? b.ret : b.so.code;
        if (st == 0) { c.violate("C23", j.j.tool + " reports success after a failed write", ctx); return; }
      }
    }
  }
};
}  // namespace
Harness *make_all() { return new AllHarness; }
}  // namespace sim
