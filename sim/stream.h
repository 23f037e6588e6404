// A simulated byte link to one converter: frames with faults, delivered in
// reads the schedule decides; and the delivery and corruption checks every
// converter is put through.
#pragma once
#include <set>
#include <functional>
#include "tool.h"

namespace sim {

struct Piece { Bytes b; bool frame = false; int tag = -1; };

// Turns frames and fault operations into the bytes that arrive.
struct Link {
  std::vector<Piece> P;
  std::vector<std::pair<int, Piece>> later;
  std::vector<uint8_t> sync;  // bytes a frame starts with
  bool dirty = false;         // bytes that are not part of whole frames
  bool nested = false;        // frames inside of frames
  std::function<Bytes(const Bytes &)> inert;  // a frame of a type nobody converts around some bytes
  size_t inert_max = 0;
  int nframes = 0;
  std::set<Bytes> sent;       // every frame as it was sent
  Ctx *c = nullptr;

  int lastframe() const { for (int i = (int)P.size() - 1; i >= 0; i--) if (P[(size_t)i].frame) return i; return -1; }
  void push(const Bytes &b, int tag = -1) {
    Piece p; p.b = b; p.frame = true; p.tag = tag;
    P.push_back(p); nframes++; sent.insert(b);
    std::vector<std::pair<int, Piece>> keep;
    for (auto &l : later) { if (--l.first <= 0) P.push_back(l.second); else keep.push_back(l); }
    later = keep;
  }
  void note(const char *f) { if (c) c->fault(f); }
  static bool fletcher_ok(const Bytes &q) {
    if (q.size() < 8 || q[0] != 0xB5 || q[1] != 0x62) return false;
    uint8_t x = 0, y = 0;
    for (size_t k = 2; k + 2 < q.size(); k++) { x = (uint8_t)(x + q[k]); y = (uint8_t)(y + x); }
    return x == q[q.size() - 2] && y == q[q.size() - 1];
  }
  bool take(const Op &op) {
    const std::string &k = op.k;
    if (k == "garb") {
      Rng r((uint64_t)op.arg(1));
      Piece p;
      for (int64_t i = 0; i < op.arg(0); i++) {
        uint8_t x = (uint8_t)r.below(256);
        if (op.arg(2) && r.chance(0.2) && !sync.empty()) x = sync[r.below(sync.size())];
        if (!op.arg(2) && !sync.empty() && x == sync[0]) x ^= 1;
        p.b.push_back(x);
      }
      P.push_back(p); dirty = true; note("garbage between frames");
      return true;
    }
    if (k == "nest") {  // a frame nobody converts, with a frame in its payload
      int i = lastframe();
      if (i < 0 || !inert) return true;
      const Bytes &q = P[(size_t)i].b;
      if (q.size() > inert_max) return true;
      Rng r((uint64_t)op.arg(2));
      size_t room = inert_max - q.size(), n0 = std::min((size_t)op.arg(0), room), n1 = op.arg(1) < 0 ? room - n0 : std::min((size_t)op.arg(1), room - n0);
      if (op.arg(1) < -1) n1 -= std::min(n1, (size_t)(-1 - op.arg(1)));
      Bytes x(n0);
      for (auto &b : x) b = (uint8_t)r.below(256);
      x.insert(x.end(), q.begin(), q.end());
      while (n1--) x.push_back((uint8_t)r.below(256));
      push(inert(x)); nested = true; note("frame inside a frame");
      return true;
    }
    if (k == "raw") { Piece p; p.b = op.b; P.push_back(p); dirty = true; note("bytes of a frame never completed"); return true; }
    if (k != "lose" && k != "dup" && k != "delay" && k != "flip" && k != "trunc" && k != "splice" && k != "part" && k != "swap") return false;
    int i = lastframe();
    if (i < 0) return true;
    Piece p = P[(size_t)i];
    if (k == "lose") { P.erase(P.begin() + i); note("frame lost"); }
    else if (k == "dup") { if (op.arg(0) <= 0) P.push_back(p); else later.push_back({(int)op.arg(0), p}); note("frame duplicated"); }
    else if (k == "delay") { P.erase(P.begin() + i); later.push_back({(int)op.arg(0) + 1, p}); note("frame delayed"); }
    else if (k == "flip") { Piece &q = P[(size_t)i]; size_t bit = (size_t)op.arg(0) % (q.b.size() * 8); q.b[bit / 8] ^= (uint8_t)(1 << (bit % 8)); q.frame = false; dirty = true; note("bit flipped"); }
    else if (k == "trunc") { Piece &q = P[(size_t)i]; q.b.resize(q.b.size() * (size_t)op.arg(0) / 1000); q.frame = false; dirty = true; note("frame truncated"); }
    else if (k == "part") {  // the frame is broken off and sent again
      Piece q; q.b.assign(p.b.begin(), p.b.begin() + (long)std::min(p.b.size(), (size_t)std::max<int64_t>(1, op.arg(0))));
      P.insert(P.begin() + i, q); dirty = true; note("frame broken off and sent again");
    } else if (k == "swap") {  // keeps the sum of the bytes
      Bytes &q = P[(size_t)i].b; size_t a = (size_t)op.arg(0) % q.size(), b = (a + 1 + (size_t)op.arg(1)) % q.size();
      if (q[a] != q[b]) {
        Bytes keep = q;
        if (op.arg(2)) { q[a]++; q[b]--; } else std::swap(q[a], q[b]);
        if (fletcher_ok(q)) q = keep;  // damage which UBX cannot notice is data
        else { P[(size_t)i].frame = false; dirty = true; note("bytes swapped"); }
      }
    } else {
      int j = -1;
      for (int q = i - 1; q >= 0; q--) if (P[(size_t)q].frame) { j = q; break; }
      if (j >= 0) {
        Bytes &a = P[(size_t)j].b;
        Bytes x(a.begin(), a.begin() + (long)(a.size() * (size_t)op.arg(0) / 1000));
        size_t from = p.b.size() * (size_t)op.arg(1) / 1000;
        x.insert(x.end(), p.b.begin() + (long)from, p.b.end());
        P[(size_t)j].b = x; P[(size_t)j].frame = false; P.erase(P.begin() + i); dirty = true; note("frames spliced");
      }
    }
    return true;
  }
  Bytes finish() {
    for (auto &l : later) P.push_back(l.second);
    later.clear();
    Bytes s;
    for (auto &p : P) s.insert(s.end(), p.b.begin(), p.b.end());
    return s;
  }
};

struct Delivery {
  ReadMode mode = RM_FULL; size_t rmax = 64; uint64_t seed = 1;
  int64_t rerr = -1;
  int64_t wfail = -1; bool wshort = false; int wret = 0;
  bool take(const Op &op) {
    if (op.k == "chunk") { mode = (ReadMode)op.arg(0); rmax = (size_t)op.arg(1, 64); if (rmax < 1) rmax = 1; seed = (uint64_t)op.arg(2); }
    else if (op.k == "rerr") rerr = op.arg(0);
    else if (op.k == "wfail") { wfail = op.arg(0); wshort = op.arg(1) != 0; wret = (int)op.arg(2); }
    else return false;
    return true;
  }
  IOPlan io(const Bytes &s, ReadMode m) const { IOPlan q; q.in = s; q.mode = m; q.rseed = seed; q.rmax = rmax; return q; }
  IOPlan io(const Bytes &s) const { return io(s, mode); }
};

// Generation of the fault operations that follow a frame.
struct FaultGen {
  Rng &r; Plan &p;
  bool on = false, dirty_ok = false;
  double pf = 0;
  FaultGen(Rng &rr, Plan &pp, bool dirty, double chance_on = 0.75) : r(rr), p(pp), dirty_ok(dirty) {
    on = r.chance(chance_on);
    pf = on ? (r.chance(0.5) ? 0.08 : 0.25) : 0;
  }
  int64_t sd() { return (int64_t)(r.next() & 0xFFFFFF); }
  void chunk() { p.ops.push_back(Op("chunk", {r.chance(0.2) ? RM_ONE : r.chance(0.15) ? RM_FULL : RM_RANDOM, r.chance(0.5) ? 16 : r.chance(0.5) ? 300 : 5000, sd()})); }
  void push(Op o) {
    p.ops.push_back(std::move(o));
    if (r.chance(pf)) {
      switch (r.weighted(dirty_ok ? std::vector<int>{3, 2, 2, 4, 2, 2, 2, 2} : std::vector<int>{3, 2, 2})) {
        case 0: p.ops.push_back(Op("lose", {})); break;
        case 1: p.ops.push_back(Op("dup", {(int64_t)r.below(4)})); break;
        case 2: p.ops.push_back(Op("delay", {1 + (int64_t)r.below(4)})); break;
        case 3: p.ops.push_back(Op("flip", {r.chance(0.3) ? (int64_t)r.below(64) : (int64_t)r.below(9000)})); break;
        case 4: p.ops.push_back(Op("trunc", {(int64_t)r.below(1000)})); break;
        case 5: p.ops.push_back(Op("splice", {(int64_t)r.below(1000), (int64_t)r.below(1000)})); break;
        case 6: p.ops.push_back(Op("part", {r.chance(0.7) ? 1 + (int64_t)r.below(8) : 1 + (int64_t)r.below(60)})); break;
        case 7: p.ops.push_back(Op("swap", {(int64_t)r.below(200), (int64_t)r.below(12), r.chance(0.3)})); break;
      }
    }
    if (on && r.chance(dirty_ok ? 0.05 : 0.01)) p.ops.push_back(Op("nest", {(int64_t)r.below(r.chance(0.5) ? 3 : 200), r.chance(0.3) ? -1 - (int64_t)r.below(3) : (int64_t)r.below(r.chance(0.5) ? 12 : 600), sd()}));
    if (dirty_ok && on && r.chance(0.08)) p.ops.push_back(Op("garb", {1 + (int64_t)r.below(r.chance(0.2) ? 1500 : 40), sd(), r.chance(0.4)}));
  }
};

struct Span { size_t at, end; bool inert; };  // inert: of a type nobody converts

inline void tool_crashes(Ctx &c, const ToolRun &r, const std::string &what) {
  if (r.so.crashed) c.violate("C21", r.so.crash_key, what + ": " + r.so.crash_text);
  else if (r.so.hang) c.violate("C21", "hang: " + r.so.crash_key, what);
}
// How two SBP outputs differ.
std::string sbp_diff(const Bytes &got, const Bytes &want);

// Output must not depend on the reads, a frame must be converted once it has
// been read, read errors and the end of the stream change nothing before them.
// `spans`: the frames the converter is expected to recognise in s.
// Returns the output under full reads in *out; false after a violation.
bool check_delivery(Ctx &c, const char *prop, const Bytes &s, const std::vector<Span> &spans, bool dirty, const Delivery &d, const Entry &e, Bytes *out = nullptr,
                    std::function<std::string(const Bytes &, const Bytes &)> diff = sbp_diff);

// The damaged stream must give what its intact frames alone give.
bool check_containment(Ctx &c, const char *prop, const Bytes &s, const std::vector<Span> &spans, const Delivery &d, const Entry &e, Bytes *out = nullptr,
                       std::function<std::string(const Bytes &, const Bytes &)> diff = sbp_diff);

uint64_t ops_shape(const Plan &p);

}  // namespace sim
