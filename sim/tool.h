// A converter run under simulated I/O: one process, reads and writes decided
// by the schedule.
#pragma once
#include <map>
#include "sim.h"

namespace sim {

enum ReadMode { RM_FULL, RM_ONE, RM_RANDOM, RM_LIST };

struct IOPlan {
  Bytes in;
  ReadMode mode = RM_FULL;
  uint64_t rseed = 1;
  size_t rmax = 64;                 // RM_RANDOM: sizes 1..rmax (log-uniform)
  std::vector<size_t> cuts;         // RM_LIST: reads never cross these offsets
  int64_t err_at = -1;              // a read beginning at this offset fails (returns -1)
  int64_t wfail_at = -1;            // total bytes the sink accepts before failing
  bool wshort = false;              // the failing write accepts a part (else none of it)
  bool wonce = false;               // only one write fails; the sink works again afterwards
  int wret = 0;                     // what a failing write that accepts nothing returns (0 or -1)
};

struct ReadEvt { size_t delivered, out; };

struct ToolRun {
  SubOut so;
  Bytes out;
  std::vector<ReadEvt> reads;  // state at the beginning of every read call
  bool returned = false;       // main returned `ret`
  int ret = 0;
  int end_reads = 0;           // read calls made after the end (or error) was reported
  int wafter = 0;              // write calls after the failing one
  bool wfailed = false;
  bool bad() const { return so.crashed || so.hang; }
};

class IO;
// Entry point: run the converter with this I/O; return its status.
using Entry = std::function<int(IO &)>;

class IO {
 public:
  const IOPlan &p;
  std::function<void(const void *, size_t)> sink;
  size_t pos = 0, outlen = 0;
  Rng rng;
  bool ended = false;
  int end_reads = 0;
  bool wfailed = false;
  std::function<void(size_t)> on_pos;  // called before each read with the offset
  std::function<void()> yield;         // another converter may run here
  uint8_t fill = 0x5A;                 // what memory given to a converter contains
  std::map<int, Bytes> *mem = nullptr; // memory kept from one conversion to the next
  std::map<int, Bytes> own;
  // Memory for the state of a converter (slot: which part of it).
  void *state(int slot, size_t n) {
    std::map<int, Bytes> &m = mem ? *mem : own;
    Bytes &b = m[slot];
    if (b.size() < n) { b.resize(n, fill); if (!mem) mark_raw(b.data(), n); }
    return b.data();
  }
  void pause() { if (yield) yield(); }
  IO(const IOPlan &pp, std::function<void(const void *, size_t)> s) : p(pp), sink(std::move(s)), rng(pp.rseed) {}
  void rec(char t, const void *d, uint32_t n) { sink(&t, 1); sink(&n, 4); if (n) sink(d, n); }
  int64_t read(uint8_t *buf, size_t len) {
    pause();
    uint64_t ev[2] = {pos, outlen};
    rec('R', ev, 16);
    if (ended) {
      rec('E', nullptr, 0);
      if (++end_reads > 200) { rec('H', nullptr, 0); _exit_hang(); }
      return p.err_at >= 0 && (int64_t)pos >= p.err_at ? -1 : 0;
    }
    if (on_pos) on_pos(pos);
    if (p.err_at >= 0 && (int64_t)pos >= p.err_at) { ended = true; return -1; }
    if (pos >= p.in.size()) { ended = true; return 0; }
    size_t n = len;
    if (p.mode == RM_ONE) n = 1;
    else if (p.mode == RM_RANDOM) {
      size_t m = p.rmax;
      while (m > 1 && rng.chance(0.35)) m /= 4;
      n = 1 + rng.below(m < 1 ? 1 : m);
    }
    n = n < len ? n : len;
    n = n < p.in.size() - pos ? n : p.in.size() - pos;
    if (p.err_at >= 0 && pos + n > (size_t)p.err_at) n = (size_t)p.err_at - pos;
    for (size_t c : p.cuts) if (c > pos && c < pos + n) n = c - pos;
    if (len == 0) { return 0; }
    memcpy(buf, p.in.data() + pos, n);
    mark_init(buf, n);
    pos += n;
    return (int64_t)n;
  }
  int64_t write(const uint8_t *buf, size_t len) {
    must_init(buf, len);
    pause();
    if (wfailed) {
      rec('W', nullptr, 0);
      if (p.wonce) { rec('O', buf, (uint32_t)len); outlen += len; return (int64_t)len; }
      return p.wret;
    }
    if (p.wfail_at >= 0 && (int64_t)(outlen + len) > p.wfail_at) {
      wfailed = true;
      size_t n = p.wshort ? (size_t)p.wfail_at - outlen : 0;
      if (n) rec('O', buf, (uint32_t)n);
      outlen += n;
      rec('F', nullptr, 0);
      return n ? (int64_t)n : p.wret;
    }
    rec('O', buf, (uint32_t)len);
    outlen += len;
    return (int64_t)len;
  }
  static void _exit_hang();
};

// A conversion: the tool as a program, and the library below it driven in a way
// that lets several of them take turns in one process.
enum { FR_RTCM, FR_UBX, FR_IXCOM, FR_NOV, FR_SBP, FR_INDEX };
enum { OUT_SBP, OUT_RTCM, OUT_NMEA };
struct Job {
  std::string tool;
  int framing = FR_RTCM, out = OUT_SBP;
  Bytes in;
  ReadMode mode = RM_FULL; size_t rmax = 64; uint64_t rseed = 1;
  double span = 0;
  std::vector<std::string> argv;  // options of the tool, its name first
  int64_t clock = 1700000000;     // the system clock
  Entry main, api;
  IOPlan io() const { IOPlan q; q.in = in; q.mode = mode; q.rmax = rmax; q.rseed = rseed; return q; }
};

// The stand-alone program of a conversion (linked into `prog` only): 0 the C one,
// 1 the Rust one, 2 with an input file, 3 with an input and an output file.
extern Entry (*program)(const Job &, int kind);

// What the code under test says on stderr is not kept, except failed assertions
// (sanitizers do not use it).
void quiet_stderr();

ToolRun run_tool(Ctx &c, const IOPlan &p, const Entry &e, double cpu_s = 10);
ToolRun decode_run(const SubOut &so);

}  // namespace sim
