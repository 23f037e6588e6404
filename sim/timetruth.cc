// C08: the shared time estimate under a simulated scheduler.
//
// time_truth.c is compiled with -fsanitize=thread but not linked with the
// ThreadSanitizer runtime: every memory access and every atomic operation is a
// call into this file, where the current simulated thread may be descheduled.
// The threads are coroutines of one process, so the plan decides every
// interleaving, and a thread can be stopped for good at any access.
#include "sim.h"
#include <ucontext.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
extern "C" {
#include <gnss-converters/time_truth.h>
#include <libsbp/v4/sbp_msg.h>
}
using namespace sim;

// ------------------------------------------------------------- the scheduler
namespace {
const int MAXT = 5;
struct OpRec {
  int thr = 0, kind = 0;  // 0 get, 1 update, 2 update_from_sbp
  int64_t t = 0;          // submitted time, units of 1/16384 s since the GPS epoch
  int variant = 0;        // see submit()
  bool ret = false;
  int state = -1, wn = 0;
  double tow = 0;
  int64_t inv = -1, resp = -1;  // scheduler clock; -1: not started / not finished
  uint64_t steps = 0;
};
struct Thr {
  ucontext_t uc;
  std::vector<char> stack;
  bool done = false, killed = false, started = false;
  std::vector<int> ops;
  int cur = -1;
};
struct World {
  Thr th[MAXT];
  int nth = 0, cur = -1;
  ucontext_t main;
  std::vector<OpRec> rec;
  int64_t clock = 0;
  int spurious = 0;      // weak compare-exchanges still to fail spuriously
  uint64_t spurred = 0, accesses = 0, contended = 0;
  time_truth_t tt;
};
World *W;

void yield() {
  if (!W || W->cur < 0) return;
  W->accesses++;
  Thr &t = W->th[W->cur];
  if (t.cur >= 0) W->rec[(size_t)t.cur].steps++;
  int me = W->cur;
  W->cur = -1;
  swapcontext(&W->th[me].uc, &W->main);
}
}  // namespace

// ------------------------------------- entry points of the instrumentation
#define Y() yield()
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define ACC(n) void __tsan_read##n(void *) { Y(); } void __tsan_write##n(void *) { Y(); } \
  void __tsan_volatile_read##n(void *) { Y(); } void __tsan_volatile_write##n(void *) { Y(); } \
  void __tsan_unaligned_read##n(void *) { Y(); } void __tsan_unaligned_write##n(void *) { Y(); } \
  void __tsan_unaligned_volatile_read##n(void *) { Y(); } void __tsan_unaligned_volatile_write##n(void *) { Y(); } \
  void __tsan_read_write##n(void *) { Y(); } void __tsan_unaligned_read_write##n(void *) { Y(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void *, unsigned long) { Y(); }
void __tsan_write_range(void *, unsigned long) { Y(); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
// a copy of more than a word is not atomic: one step per 4 bytes
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  for (size_t i = 0; i < n; i += 4) { Y(); memcpy((char *)d + i, (const char *)s + i, n - i < 4 ? n - i : 4); }
  return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) { Y(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { Y(); return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) { Y(); }
void __tsan_atomic_signal_fence(int) {}
static bool spur() {
  if (W && W->cur >= 0 && W->spurious > 0) { W->spurious--; W->spurred++; return true; }
  return false;
}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *a, int) { Y(); return *a; } \
  void __tsan_atomic##n##_store(volatile T *a, T v, int) { Y(); *a = v; } \
  T __tsan_atomic##n##_exchange(volatile T *a, T v, int) { Y(); T o = *a; *a = v; return o; } \
  T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int) { Y(); T o = *a; *a = (T)~(o & v); return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { \
    Y(); T o = *a; if (o == *e) { *a = v; return 1; } W->contended++; *e = o; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) { \
    if (spur()) { Y(); *e = *a; return 0; } return __tsan_atomic##n##_compare_exchange_strong(a, e, v, x, y); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T e, T v, int, int) { \
    Y(); T o = *a; if (o == e) *a = v; else W->contended++; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
typedef unsigned __int128 u128;
AT(128, u128)
// library fall-backs for objects larger than a word
static void at_load(size_t n, void *a, void *r, int) { Y(); memcpy(r, a, n); }
static void at_store(size_t n, void *a, void *v, int) { Y(); memcpy(a, v, n); }
static void at_xchg(size_t n, void *a, void *v, void *r, int) { Y(); memcpy(r, a, n); memcpy(a, v, n); }
static bool at_cas(size_t n, void *a, void *e, void *v, int, int) {
  Y();
  if (!memcmp(a, e, n)) { memcpy(a, v, n); return true; }
  W->contended++;
  memcpy(e, a, n);
  return false;
}
void lib_load(size_t n, void *a, void *r, int o) __asm__("__atomic_load");
void lib_load(size_t n, void *a, void *r, int o) { at_load(n, a, r, o); }
void lib_store(size_t n, void *a, void *v, int o) __asm__("__atomic_store");
void lib_store(size_t n, void *a, void *v, int o) { at_store(n, a, v, o); }
void lib_xchg(size_t n, void *a, void *v, void *r, int o) __asm__("__atomic_exchange");
void lib_xchg(size_t n, void *a, void *v, void *r, int o) { at_xchg(n, a, v, r, o); }
bool lib_cas(size_t n, void *a, void *e, void *v, int o, int p) __asm__("__atomic_compare_exchange");
bool lib_cas(size_t n, void *a, void *e, void *v, int o, int p) { return at_cas(n, a, e, v, o, p); }
u128 lib_load16(u128 *a, int) __asm__("__atomic_load_16");
u128 lib_load16(u128 *a, int) { Y(); return *a; }
void lib_store16(u128 *a, u128 v, int) __asm__("__atomic_store_16");
void lib_store16(u128 *a, u128 v, int) { Y(); *a = v; }
bool lib_cas16(u128 *a, u128 *e, u128 v, int, int) __asm__("__atomic_compare_exchange_16");
bool lib_cas16(u128 *a, u128 *e, u128 v, int, int) { return at_cas(16, a, e, &v, 0, 0); }
// a lock, should one be used: blocks by being rescheduled (see build.py -D...)
int sim_mutex_lock(void *m) { while (*(volatile int *)m) Y(); Y(); while (*(volatile int *)m) Y(); *(volatile int *)m = 1; return 0; }
int sim_mutex_unlock(void *m) { Y(); *(volatile int *)m = 0; return 0; }
int sim_mutex_init(void *m, const void *) { *(volatile int *)m = 0; return 0; }
int sim_sched_yield() { Y(); return 0; }
}

// --------------------------------------------------------------- the operations
namespace {
const int64_t U = 16384, WEEKU = 604800ll * U;
const double INVAL[] = {-1.0, 604800.0, 700000.0, NAN, INFINITY, -INFINITY};

// variant: 0 GPS 1 GAL 2 BDS ephemeris source; 3.. invalid tow; 20 unhealthy or other message
bool submit(OpRec &r, time_truth_t *tt) {
  int64_t wn = r.t / WEEKU;
  double tow = (double)(r.t % WEEKU) / (double)U;
  if (r.kind == 1) {
    gps_time_t g;
    memset(&g, 0, sizeof g);
    g.wn = (int16_t)wn;
    g.tow = r.variant >= 3 && r.variant < 9 ? INVAL[r.variant - 3] : tow;
    if (r.variant == 9) g.wn = -1;
    static const enum time_truth_source src[] = {TIME_TRUTH_EPH_GPS, TIME_TRUTH_EPH_GAL, TIME_TRUTH_EPH_BDS};
    return time_truth_update(tt, src[r.variant % 3], g);
  }
  std::unique_ptr<sbp_msg_t> m(new sbp_msg_t);
  memset(m.get(), 0, sizeof *m);
  m->ephemeris_gps.common.toe.wn = (uint16_t)wn;
  m->ephemeris_gps.common.toe.tow = (uint32_t)tow;
  m->ephemeris_gps.common.health_bits = r.variant == 20 ? 1 + (uint8_t)(r.t & 0x3f) : 0;
  m->ephemeris_gps.common.valid = 1;
  sbp_msg_type_t ty = r.variant == 21 ? SbpMsgObs : SbpMsgEphemerisGps;
  bool ok = time_truth_update_from_sbp(tt, ty, m.get());
  return ok;
}
// the time the operation submits, or false if it may never be adopted
bool adoptable(const OpRec &r, int64_t &t) {
  t = r.t;
  if (r.kind == 2) { if (r.variant >= 20) return false; t = r.t / U * U; }
  if (r.kind == 1 && r.variant >= 3) return false;
  return t / WEEKU >= 1876;
}
void body(int id) {
  Thr &th = W->th[id];
  for (int o : th.ops) {
    OpRec &r = W->rec[(size_t)o];
    th.cur = o;
    yield();
    r.inv = W->clock;
    if (r.kind == 0) {
      enum time_truth_state st = (enum time_truth_state)77;
      gps_time_t g;
      g.wn = 12345; g.tow = -7;
      if (r.variant == 1) { time_truth_get(&W->tt, &st, nullptr); r.wn = -9999; }
      else if (r.variant == 2) { time_truth_get(&W->tt, nullptr, &g); }
      else time_truth_get(&W->tt, &st, &g);
      r.state = st; if (r.variant != 1) { r.wn = g.wn; r.tow = g.tow; }
    } else {
      r.ret = submit(r, &W->tt);
    }
    r.resp = W->clock;
    th.cur = -1;
  }
  th.done = true;
  W->cur = -1;
  swapcontext(&th.uc, &W->main);
}
void entry(int id) { body(id); }

struct H : Harness {
  const char *name() override { return "timetruth"; }
  std::vector<std::string> properties() override { return {"C08"}; }
  std::string rule(const std::string &) override {
    return "one history per distinct sequence of thread switches and operations; a history counts when at least two threads had operations in flight at the same time";
  }
  std::vector<std::string> real_components() override { return {"c/gnss_converters/src/time_truth.c (instrumented: every memory access and atomic operation is a scheduling point)"}; }
  std::vector<std::string> stub_components() override { return {"threads are coroutines under the simulated scheduler", "libswiftnav gps_time_valid/gpsdifftime and logging (shim)"}; }
  std::vector<std::string> assumptions() override { return {"memory accesses of at most 8 bytes are indivisible and sequentially consistent (the code uses default-order C11 atomics); weaker orderings are not explored"}; }

  Plan gen(uint64_t seed, const std::string &) override {
    Rng r(seed);
    Plan p;
    int nt = (int)r.range(2, 4);
    int64_t week = r.chance(0.2) ? r.range(1876, 1878) : r.range(1877, 3000);
    int64_t base = week * WEEKU + (r.chance(0.3) ? WEEKU - r.range(1, 40) * U / 4 : r.range(0, 604799) * U);
    auto time = [&]() {
      int64_t t = base;
      switch (r.weighted({30, 25, 15, 10, 10, 5, 5})) {
        case 0: t += r.range(-8, 8) * U; break;
        case 1: t += r.range(-4, 4) * 7200 * U; break;
        case 2: t += r.range(-10, 10) * 1024; break;
        case 3: t += r.range(-3, 3) * WEEKU; break;
        case 4: t += r.range(-2, 2); break;              // below the stored resolution
        case 5: t = r.range(0, 1875) * WEEKU + r.range(0, 604799) * U; break;  // before the reference week
        case 6: t = (t / WEEKU + 1) * WEEKU - r.range(1, 3000); break;         // end of the week
      }
      return t < 0 ? 0 : t;
    };
    for (int t = 0; t < nt; t++) {
      int no = (int)r.range(1, 5);
      bool reader = r.chance(0.25);
      for (int i = 0; i < no; i++) {
        if (reader ? r.chance(0.9) : r.chance(0.35)) p.ops.push_back(Op("get", {t, (int64_t)r.weighted({8, 1, 1})}));
        else if (r.chance(0.75)) p.ops.push_back(Op("upd", {t, time(), r.chance(0.12) ? r.range(3, 9) : r.range(0, 2)}));
        else p.ops.push_back(Op("sbp", {t, time(), r.chance(0.25) ? r.range(20, 21) : 0}));
      }
    }
    int ns = (int)r.range(4, 60);
    int style = (int)r.below(3);
    int hot = 0;
    for (int i = 0; i < ns; i++) {
      int t = (int)r.below((uint64_t)nt);
      int64_t n = style == 0 ? 1 : style == 1 ? r.range(1, 6) : (r.chance(0.6) ? 1 : r.range(1, 20));
      if (style == 2 && r.chance(0.5)) t = hot; else hot = t;
      p.ops.push_back(Op("run", {t, n}));
      if (r.chance(0.02)) p.ops.push_back(Op("stop", {t}));
      if (r.chance(0.05)) p.ops.push_back(Op("spur", {r.range(1, 3)}));
    }
    return p;
  }
  bool arg_shrinkable(const Op &o, size_t i) override { return o.k == "run" ? true : i != 0; }
  int64_t arg_floor(const Op &o, size_t i) override { return o.k == "run" && i == 1 ? 1 : 0; }

  void run(Ctx &c) override {
    SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
      World w;
      W = &w;
      memset(&w.tt, 0xA5, sizeof w.tt);
      time_truth_init(&w.tt);
      for (auto &o : c.plan.ops) {
        if (o.k != "get" && o.k != "upd" && o.k != "sbp") continue;
        int t = (int)(o.arg(0) % MAXT);
        OpRec r;
        r.thr = t;
        r.kind = o.k == "get" ? 0 : o.k == "upd" ? 1 : 2;
        if (r.kind) { r.t = o.arg(1); r.variant = (int)o.arg(2); } else r.variant = (int)o.arg(1);
        w.th[t].ops.push_back((int)w.rec.size());
        w.rec.push_back(r);
        if (t + 1 > w.nth) w.nth = t + 1;
      }
      for (int i = 0; i < w.nth; i++) {
        Thr &t = w.th[i];
        t.stack.resize(256 * 1024);
        getcontext(&t.uc);
        t.uc.uc_stack.ss_sp = t.stack.data();
        t.uc.uc_stack.ss_size = t.stack.size();
        t.uc.uc_link = nullptr;
        makecontext(&t.uc, (void (*)())entry, 1, i);
        if (t.ops.empty()) t.done = true;
      }
      uint64_t trace = 0, stops = 0, overlap = 0;
      auto step = [&](int i) {
        Thr &t = w.th[i];
        if (t.done || t.killed) return false;
        w.clock++;
        for (int j = 0; j < w.nth; j++) if (j != i && w.th[j].cur >= 0 && t.cur >= 0) { overlap++; break; }
        trace = fnv(&i, 4, trace + 1);
        w.cur = i;
        swapcontext(&w.main, &t.uc);
        return true;
      };
      for (auto &o : c.plan.ops) {
        if (o.k == "run") { int t = (int)(o.arg(0) % MAXT); for (int64_t k = 0; k < o.arg(1) && t < w.nth; k++) if (!step(t)) break; }
        else if (o.k == "stop") { int t = (int)(o.arg(0) % MAXT); if (t < w.nth && !w.th[t].done && !w.th[t].killed) { w.th[t].killed = true; stops++; } }
        else if (o.k == "spur") w.spurious += (int)o.arg(0);
      }
      // faults stop; the remaining threads run one after the other to the end
      uint8_t stuck = 0;
      w.spurious = 0;
      for (int i = 0; i < w.nth && !stuck; i++) {
        uint64_t n = 0;
        while (!w.th[i].done && !w.th[i].killed) {
          step(i);
          if (++n > 3000) { stuck = (uint8_t)(1 + i); break; }
        }
      }
      uint64_t hd[8] = {trace, stops, overlap, w.spurred, w.contended, w.accesses, stuck, w.rec.size()};
      sink(hd, sizeof hd);
      for (auto &r : w.rec) sink(&r, sizeof r);
    });
    if (so.crashed || so.hang) { c.violate("C08", "time truth operation crashed or hung", so.crash_key + "\n" + so.crash_text); c.log(1); return; }
    uint64_t hd[8];
    if (so.data.size() < sizeof hd) { c.abandon("no data"); return; }
    memcpy(hd, so.data.data(), sizeof hd);
    std::vector<OpRec> rec((size_t)hd[7]);
    if (!rec.empty()) memcpy((void *)rec.data(), so.data.data() + sizeof hd, rec.size() * sizeof(OpRec));
    for (auto &r : rec) { c.log((uint64_t)r.inv); c.log((uint64_t)r.resp); c.log((uint64_t)r.ret); c.log((uint64_t)r.state); c.log((uint64_t)r.wn); uint64_t q; memcpy(&q, &r.tow, 8); c.log(q); }
    if (hd[2]) c.shape(hd[0]);
    if (hd[1]) c.fault("thread stopped for good at an arbitrary access", hd[1]);
    if (hd[3]) c.fault("spurious compare-exchange failure", hd[3]);
    c.fault("preemption with another operation in flight", hd[2]);
    c.probe("scheduling points", hd[5]);
    c.probe("compare-exchange lost to another thread", hd[4]);
    if (hd[6]) {
      c.violate("C08", "an operation does not complete", fmt("thread %d alone ran 3000 steps without finishing its operations after the other threads stopped", (int)hd[6] - 1));
      return;
    }
    check(c, rec);
  }

  static std::string str(const OpRec &r) {
    int64_t t;
    bool ad = adoptable(r, t);
    std::string s = fmt("thread %d [%lld..%lld] ", r.thr, (long long)r.inv, (long long)r.resp);
    if (r.kind == 0) return s + fmt("get -> state %d week %d tow %.6f", r.state, r.wn, r.tow);
    return s + fmt("%s week %lld tow %.6f%s -> %s", r.kind == 1 ? "update" : "update_from_sbp", (long long)(t / WEEKU), (double)(t % WEEKU) / (double)U,
                   ad ? "" : " (not adoptable)", r.resp < 0 ? "never returned" : r.ret ? "true" : "false");
  }
  static bool exact(int64_t t) { return t % 1024 == 0; }

  void check(Ctx &c, std::vector<OpRec> &all) {
    std::vector<OpRec> h;
    for (auto &r : all) if (r.inv >= 0 && !(r.resp < 0 && r.kind == 0)) h.push_back(r);
    size_t n = h.size();
    if (n > 24) { c.abandon("too many operations"); return; }
    std::string txt;
    for (auto &r : h) txt += str(r) + "\n";
    for (auto &r : h) {
      if (r.resp < 0) continue;
      if (r.kind == 0) {
        if (r.variant != 2 && r.state != TIME_TRUTH_UNKNOWN && r.state != TIME_TRUTH_SOLVED) { c.violate("C08", "a state that does not exist", txt); return; }
        bool valid = r.wn >= 0 && r.tow >= 0 && r.tow < 604800.0;
        if (r.variant == 0 && r.state == TIME_TRUTH_SOLVED && !valid) { c.violate("C08", "solved with an invalid time", str(r) + "\n\n" + txt); return; }
        if (r.variant == 0 && r.state == TIME_TRUTH_UNKNOWN && valid) { c.violate("C08", "unknown with a valid time", str(r) + "\n\n" + txt); return; }
      } else {
        int64_t t;
        if (!adoptable(r, t) && r.ret) { c.violate("C08", "an invalid, unhealthy or too early time was accepted", str(r) + "\n\n" + txt); return; }
      }
    }
    // linearizability: depth first over orders that respect real time
    std::set<uint64_t> seen;
    uint64_t visited = 0;
    std::function<bool(uint32_t, int)> go = [&](uint32_t mask, int cur) -> bool {
      // cur: index of the update whose time is stored, or -1
      bool alldone = true;
      int64_t minresp = INT64_MAX;
      for (size_t i = 0; i < n; i++) if (!(mask >> i & 1)) {
        if (h[i].resp >= 0) { alldone = false; if (h[i].resp < minresp) minresp = h[i].resp; }
      }
      if (alldone) return true;
      uint64_t key = ((uint64_t)mask << 8) | (uint64_t)(cur + 1);
      if (!seen.insert(key).second) return false;
      visited++;
      int64_t ct = 0;
      if (cur >= 0) adoptable(h[(size_t)cur], ct);
      for (size_t i = 0; i < n; i++) {
        if (mask >> i & 1) continue;
        const OpRec &r = h[i];
        if (r.inv > minresp) continue;  // someone else had finished before this one began
        uint32_t m2 = mask | (1u << i);
        if (r.kind == 0) {
          bool ok;
          if (cur < 0) {
            ok = (r.variant == 2 || r.state == TIME_TRUTH_UNKNOWN) && (r.variant == 1 || !(r.wn >= 0 && r.tow >= 0));
          } else {
            ok = r.variant == 2 || r.state == TIME_TRUTH_SOLVED;
            if (r.variant != 1) {
              double d = ((double)r.wn - (double)(ct / WEEKU)) * 604800.0 + r.tow - (double)(ct % WEEKU) / (double)U;
              ok = ok && fabs(d) <= (exact(ct) ? 1e-9 : 0.04);
            }
          }
          if (ok && go(m2, cur)) return true;
        } else {
          int64_t t;
          bool ad = adoptable(r, t);
          bool maytake = false, mayrefuse = false;
          if (!ad) mayrefuse = true;
          else if (cur < 0) maytake = true;
          else {
            bool fuzzy = (!exact(t) || !exact(ct)) && llabs(t - ct) < U / 8;
            if (fuzzy) maytake = mayrefuse = true;
            else if (t > ct) maytake = true;
            else mayrefuse = true;
          }
          if (maytake && (r.resp < 0 || r.ret) && go(m2, (int)i)) return true;
          if ((mayrefuse || r.resp < 0) && (r.resp < 0 || !r.ret) && go(m2, cur)) return true;
        }
      }
      return false;
    };
    bool ok = go(0, -1);
    c.evals(visited + 1);
    double span = 0;
    for (auto &r : h) span = span > (double)r.resp ? span : (double)r.resp;
    c.simtime(span * 1e-6);
    if (!ok) c.violate("C08", "history is not linearizable", "no order of these operations (thread [begin..end of the call] operation -> result), respecting which ended before which began, explains the results:\n" + txt);
  }
};
}  // namespace

int main(int argc, char **argv) { H h; return sim_main(argc, argv, h); }
