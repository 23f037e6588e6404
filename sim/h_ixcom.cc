// iXCOM to SBP: delivery independence, containment of damage, and the content
// of every message (C13).
#include <cmath>
#include <cstdio>
#include "harness.h"
#include "rtcm_model.h"
#include "stream.h"
#include "ubx_bits.h"
extern "C" {
#include <gnss-converters/ixcom_sbp.h>
int ixcom2sbp_main(int argc, char **argv, const char *opts, int (*readfn)(uint8_t *, size_t, void *), int32_t (*writefn)(uint8_t *, uint32_t, void *), void *context);
}

namespace sim {
namespace {
int xrd(uint8_t *b, size_t n, void *c) { return (int)((IO *)c)->read(b, n); }
int32_t xwr(uint8_t *b, uint32_t n, void *c) { return (int32_t)((IO *)c)->write(b, n); }

uint16_t crc16(const uint8_t *p, size_t n) {
  uint16_t c = 0;
  for (size_t i = 0; i < n; i++) { c ^= (uint16_t)(p[i] << 8); for (int j = 0; j < 8; j++) c = (uint16_t)(c & 0x8000 ? c << 1 ^ 0x1021 : c << 1); }
  return c;
}
Bytes frame(int id, int cnt, uint32_t sec, uint32_t usec, const Bytes &pay, int status) {
  Bytes b = {0x7E, (uint8_t)id, (uint8_t)cnt, 0};
  le(b, 16 + pay.size() + 4, 2); le(b, 2200, 2); le(b, sec, 4); le(b, usec, 4);
  b.insert(b.end(), pay.begin(), pay.end());
  le(b, (uint64_t)status, 2);
  le(b, crc16(b.data(), b.size()), 2);
  return b;
}
const size_t MINLEN = 20, MAXLEN = 4095;
struct XF { size_t at, end; Bytes b; };
// The frames of a stream: a header with an impossible length consumes itself,
// any other the length it claims.
std::vector<XF> deframe(const Bytes &s) {
  std::vector<XF> v;
  size_t i = 0;
  while (i < s.size()) {
    if (s[i] != 0x7E) { i++; continue; }
    if (i + 16 > s.size()) break;
    size_t n = s[i + 4] | (size_t)s[i + 5] << 8;
    if (n < MINLEN || n > MAXLEN) { i += 16; continue; }
    if (i + n > s.size()) break;
    if (crc16(&s[i], n - 2) == (s[i + n - 2] | s[i + n - 1] << 8)) v.push_back({i, i + n, Bytes(s.begin() + (long)i, s.begin() + (long)(i + n))});
    i += n;
  }
  return v;
}
struct Built { Link l; Delivery d; Bytes s; int sender = -1; uint64_t t0 = UINT64_MAX, t1 = 0; };
float fodd(Rng &r) {
  switch (r.below(6)) { case 0: return INFINITY; case 1: return -INFINITY; case 2: return NAN; case 3: return 1e30f; case 4: return -1e30f; default: return 0; }
}
void build(const Plan &p, Built &B, Ctx *c) {
  B.l.c = c; B.l.sync = {0x7E}; B.l.inert_max = MAXLEN - 20; B.l.inert = [](const Bytes &x) { return frame(0x77, 1, 2, 3, x, 0); };
  for (auto &op : p.ops) {
    const std::string &k = op.k;
    if (k == "opt") { B.sender = (int)op.arg(0, -1); continue; }
    if (B.d.take(op) || B.l.take(op)) continue;
    if (k == "hdr") {  // a header claiming op.arg(0) bytes, followed by nothing of it
      Rng r((uint64_t)op.arg(1));
      Bytes b = {0x7E, (uint8_t)(op.arg(2) ? 0x16 : 0), 1, 0, (uint8_t)op.arg(0), (uint8_t)(op.arg(0) >> 8)};
      while (b.size() < 16) b.push_back((uint8_t)(r.below(255) & 0x7D));
      B.l.take(Op("raw", {}, b));
      if (c) c->fault("header claiming another length");
      continue;
    }
    if (k == "short") {  // a whole frame of another length than its kind has, which would pass with what was in the buffer before
      int i = B.l.lastframe();
      if (i < 0) continue;
      Bytes q = B.l.P[(size_t)i].b;
      size_t want = q[1] == 0 ? 44 : 28;
      if (q.size() != want || (q[1] != 0 && q[1] != 0x16)) continue;
      size_t n = MINLEN + (size_t)op.arg(0) % (want - MINLEN - 2);
      Bytes f(q.begin(), q.begin() + (long)n);
      f[4] = (uint8_t)n; f[5] = 0;
      uint16_t stale = (uint16_t)(q[want - 2] | q[want - 1] << 8);
      for (int x = 0; x < 65536; x++) {
        f[n - 4] = (uint8_t)x; f[n - 3] = (uint8_t)(x >> 8);
        if (crc16(f.data(), n - 2) == stale) break;
      }
      f[n - 2] = (uint8_t)stale; f[n - 1] = (uint8_t)(stale >> 8);
      B.l.push(f, 1);
      if (c) c->fault("short payload");
      continue;
    }
    int n = k == "imus" ? (int)op.arg(0) : 1;
    int64_t base = k == "imus" ? 1 : 0;
    Rng r((uint64_t)op.arg((size_t)base + 2));
    for (int i = 0; i < n; i++) {
      uint64_t us = (uint64_t)op.arg((size_t)base) * 1000000 + (uint64_t)op.arg((size_t)base + 1) + (uint64_t)i * 5000;
      Bytes pay; int id;
      if (k == "imus" || k == "imu") {
        id = 0;
        for (int j = 0; j < 6; j++) {
          float v = (float)((r.unit() - 0.5) * (j < 3 ? 80 : 5));
          if (r.chance(0.02)) v = fodd(r);
          if (r.chance(0.02)) v = (float)((r.unit() - 0.5) * 400);
          lef(pay, v);
        }
      } else if (k == "wheel") {
        id = 0x16;
        float v = (float)((r.unit() - 0.4) * 90);
        if (r.chance(0.05)) v = fodd(r);
        if (r.chance(0.05)) v = 0;
        lef(pay, v); le(pay, r.chance(0.5) ? r.below(100000) : r.next(), 4);
      } else if (k == "other") {
        id = 1 + (int)r.below(0x15);
        size_t m = op.arg(3) > 0 ? (size_t)op.arg(3) : 0;
        if (m > MAXLEN - 20) m = MAXLEN - 20;
        while (pay.size() < m) pay.push_back((uint8_t)r.below(256));
      } else continue;
      uint32_t sec = (uint32_t)(us / 1000000), usec = (uint32_t)(us % 1000000);
      B.t0 = std::min(B.t0, us); B.t1 = std::max(B.t1, us);
      B.l.push(frame(id, i, sec, usec, pay, (int)r.below(65536)));
    }
  }
  B.s = B.l.finish();
}
std::vector<std::string> args(const Built &B) {
  std::vector<std::string> av = {"ixcom2sbp"};
  if (B.sender >= 0) { av.push_back("-s"); av.push_back(std::to_string(B.sender)); }
  return av;
}
Entry entry(const Built &B) {
  std::vector<std::string> av = args(B);
  return [av](IO &io) {
    std::vector<std::string> a = av;
    std::vector<char *> v;
    for (auto &s : a) { v.push_back(&s[0]); mark_init(&s[0], s.size() + 1); }
    v.push_back(nullptr);
    quiet_stderr();
    return ixcom2sbp_main((int)a.size(), v.data(), "", xrd, xwr, &io);
  };
}
void api_cb(uint16_t sender, sbp_msg_type_t type, const sbp_msg_t *m, void *x) {
  sbp_state_t s; sbp_state_init(&s); sbp_state_set_io_context(&s, x);
  sbp_message_send(&s, type, sender, m, xwr);
}
Entry api_entry(const Built &B) {
  int sender = B.sender;
  return [sender](IO &io) {
    quiet_stderr();
    struct ixcom_sbp_state *st = (struct ixcom_sbp_state *)io.state(0, sizeof *st);
    ixcom_sbp_init(st, api_cb, &io);
    if (sender >= 0) ixcom_set_sender_id(st, (u16)sender);
    int r;
    do r = ixcom_sbp_process(st, xrd); while (r > 0);
    return 0;
  };
}
// a value scaled to 16 bits, saturating; one unit of rounding either way
std::string near16(const Bytes &g, size_t o, double v, const char *what) {
  if (std::isnan(v)) return "";
  double w = v < -32768 ? -32768 : v > 32767 ? 32767 : v;
  int64_t x = rds(g, o, 2);
  if (fabs((double)x - w) > 1.0) return fmt("%s %lld, expected %.2f", what, (long long)x, w);
  return "";
}

struct IxcomHarness : Harness {
  const char *name() override { return "ixcom"; }
  std::vector<std::string> properties() override { return {"C13"}; }
  std::string rule(const std::string &) override {
    return "a seeded simulated inertial unit sends IMU, wheel and other frames over a link that loses, duplicates, delays, corrupts, truncates and splices them, with headers claiming arbitrary lengths, delivered in arbitrary reads with read errors; a history counts as distinct by the hash of its sequence of message kinds, faults and delivery";
  }
  std::vector<std::string> real_components() override { return {"ixcom2sbp", "gnss_converters ixcom_sbp", "libixcom"}; }
  std::vector<std::string> stub_components() override { return {"libsbp (stand-in)", "input stream and output sink (simulated)"}; }
  bool arg_shrinkable(const Op &o, size_t i) override { return (o.k == "imus" && i == 0) || (o.k == "garb" && i == 0) || (o.k == "other" && i == 3) || (o.k == "hdr" && i == 0); }
  Plan gen(uint64_t seed, const std::string &F) override {
    Rng r(seed);
    Plan p; p.focus = F; p.seed = seed;
    p.ops.push_back(Op("opt", {r.chance(0.2) ? (int64_t)r.below(65536) : -1}));
    FaultGen g(r, p, r.chance(0.7));
    g.chunk();
    if (r.chance(0.5)) p.ops.push_back(Op("rerr", {(int64_t)r.below(1000)}));
    int64_t sec = r.chance(0.2) ? 604799 - r.range(0, 3) : r.chance(0.1) ? 0 : r.range(0, 604799), us = r.range(0, 999999);
    int n = (int)r.range(2, 40);
    for (int i = 0; i < n; i++) {
      us += r.range(0, 400000);
      if (us >= 1000000) { us -= 1000000; sec = (sec + 1) % 604800; }
      int64_t t = sec, u = us;
      if (r.chance(0.02)) { t = (int64_t)(uint32_t)r.next(); u = (int64_t)(uint32_t)r.below(1000000); }
      switch (r.weighted({10, 5, 3, 1, g.on ? 1 : 0})) {
        case 0: g.push(Op("imu", {t, u, g.sd()})); break;
        case 1: g.push(Op("wheel", {t, u, g.sd()})); break;
        case 2: g.push(Op("other", {t, u, g.sd(), r.chance(0.1) ? 4075 - r.range(0, 3) : (int64_t)r.below(r.chance(0.2) ? 4000 : 60)})); break;
        case 3: if (r.chance(0.3)) g.push(Op("imus", {r.range(80, 230), t, u, g.sd()})); break;
        default: g.push(Op("short", {(int64_t)r.below(30)})); break;
      }
      if (g.dirty_ok && g.on && r.chance(0.05)) p.ops.push_back(Op("hdr", {r.chance(0.4) ? (int64_t)r.below(24) : r.chance(0.4) ? r.range(4090, 65535) : (int64_t)r.below(300), g.sd(), r.chance(0.5)}));
    }
    return p;
  }
  bool job(const Plan &p, Ctx *c, Job &j) override {
    Built B; build(p, B, c);
    j.tool = "ixcom2sbp"; j.framing = FR_IXCOM; j.out = OUT_SBP; j.in = B.s; j.mode = B.d.mode; j.rmax = B.d.rmax; j.rseed = B.d.seed;
    if (B.t1 > B.t0 && B.t1 - B.t0 < 700000000000ull) j.span = (double)(B.t1 - B.t0) * 1e-6;
    j.main = entry(B); j.api = api_entry(B); j.argv = args(B);
    return true;
  }
  void run(Ctx &c) override {
    Built B; build(c.plan, B, &c);
    c.shape(ops_shape(c.plan));
    if (B.t1 > B.t0) c.simtime((double)(B.t1 - B.t0 < 700000000000ull ? B.t1 - B.t0 : 0) * 1e-6);
    auto fr = deframe(B.s);
    std::vector<Span> sp;
    for (auto &f : fr) sp.push_back({f.at, f.end, f.b[1] == 0x77});
    Entry en = entry(B);
    Bytes out;
    if (!check_delivery(c, "C13", B.s, sp, B.l.dirty, B.d, en, &out)) return;
    if ((B.l.dirty || B.l.nested) && !check_containment(c, "C13", B.s, sp, B.d, en)) return;
    // content
    std::vector<Sbp> got; size_t bad;
    if (!parse_sbp(out, got, &bad)) { c.violate("C13", "output is not a sequence of SBP messages", fmt("at byte %zu", bad)); return; }
    std::vector<Sbp> of[4];  // per type
    enum { IMU = 0x900, AUX = 0x901, ODO = 0x903, TICK = 0x904 };
    for (auto &m : got) {
      c.evals(1);
      if (m.sender != (B.sender >= 0 ? B.sender : 4711)) { c.violate("C13", "sender", show(m)); return; }
      int i = m.type == IMU ? 0 : m.type == AUX ? 1 : m.type == ODO ? 2 : m.type == TICK ? 3 : -1;
      if (i < 0) { c.violate("C13", "message of another kind", show(m)); return; }
      of[i].push_back(m);
    }
    size_t ni = 0, nw = 0, na = 0;
    for (auto &f : fr) {
      const Bytes &b = f.b;
      uint32_t sec = (uint32_t)rd(b, 8, 4), us = (uint32_t)rd(b, 12, 4);
      c.evals(1);
      if (b[1] == 0 && b.size() == 44) {
        if (ni >= of[0].size()) { c.violate("C13", "an IMU frame is not converted", fmt("frame at byte %zu", f.at)); return; }
        const Bytes &g = of[0][ni++].p;
        std::string d;
        if (g.size() != 17) d = "length";
        else if (rd(g, 0, 4) != (uint32_t)(sec * 1000u + us / 1000) || g[4] != us % 1000 * 256 / 1000) d = fmt("time %llu + %u/256 ms, expected %u + %u/256", (unsigned long long)rd(g, 0, 4), g[4], sec * 1000u + us / 1000, us % 1000 * 256 / 1000);
        static const char *nm[] = {"acceleration x", "acceleration y", "acceleration z", "rate x", "rate y", "rate z"};
        for (int j = 0; j < 6 && d.empty(); j++) {
          double v = rdf(b, 16 + 4 * (size_t)j);
          d = near16(g, 5 + 2 * (size_t)j, j < 3 ? v / (4 * 9.80665 / 32768) : v * 180 / M_PI / (125.0 / 32768), nm[j]);
        }
        if (!d.empty()) { c.violate("C13", "content of an IMU message", d + " of frame " + hex(b) + " in " + show(of[0][ni - 1])); return; }
        if ((ni - 1) % 100 == 0) na++;
      } else if (b[1] == 0x16 && b.size() == 28) {
        if (nw >= of[2].size() || nw >= of[3].size()) { c.violate("C13", "a wheel frame is not converted", fmt("frame at byte %zu", f.at)); return; }
        const Bytes &o = of[2][nw].p, &t = of[3][nw].p; nw++;
        double v = (double)rdf(b, 16) * 1000;
        std::string d;
        if (o.size() != 9 || t.size() != 14) d = "length";
        else if (rd(o, 0, 4) != (uint32_t)(sec * 1000u + us / 1000)) d = "odometry time";
        else if (!std::isnan(v) && fabs(v) < 2.1e9 && fabs((double)rds(o, 4, 4) - v) > 1 + fabs(v) * 1e-6) d = fmt("velocity %lld, expected %.3f", (long long)rds(o, 4, 4), v);
        else if (o[8] != 1) d = "odometry flags";
        else if (rd(t, 0, 8) != (uint64_t)sec * 1000000 + us) d = "wheel tick time";
        else if (t[8] != 1 || t[9] != 0) d = "wheel tick flags";
        else if (rds(t, 10, 4) != rds(b, 20, 4)) d = fmt("ticks %lld, expected %lld", (long long)rds(t, 10, 4), (long long)rds(b, 20, 4));
        if (!d.empty()) { c.violate("C13", "content of a wheel message", d + " of frame " + hex(b) + " in " + show(of[2][nw - 1]) + " " + show(of[3][nw - 1])); return; }
      } else if (b[1] == 0 || b[1] == 0x16) c.probe("frame of another length than its kind has");
    }
    if (of[0].size() != ni || of[2].size() != nw || of[3].size() != nw) { c.violate("C13", "messages that no frame explains", fmt("%zu IMU messages of %zu frames, %zu and %zu wheel messages of %zu", of[0].size(), ni, of[2].size(), of[3].size(), nw)); return; }
    if (of[1].size() != na) { c.violate("C13", "auxiliary IMU messages", fmt("%zu, expected %zu for %zu IMU messages", of[1].size(), na, ni)); return; }
    for (auto &m : of[1]) if (m.p != Bytes{255, 0, 0, 0x41}) { c.violate("C13", "content of an auxiliary IMU message", show(m)); return; }
    c.probe("IMU frames", ni); c.probe("wheel frames", nw); if (na > 1) c.probe("second auxiliary message");
  }
};
}  // namespace
Harness *make_ixcom() { return new IxcomHarness; }
}  // namespace sim
