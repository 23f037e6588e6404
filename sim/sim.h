// Deterministic simulation core: plans, seeded PRNG, run isolation, statistics.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

using Bytes = std::vector<uint8_t>;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  // index chosen with integer weights
  size_t weighted(const std::vector<int> &w) {
    int64_t t = 0;
    for (int x : w) t += x;
    int64_t r = (int64_t)below((uint64_t)t);
    for (size_t i = 0; i < w.size(); i++) { if (r < w[i]) return i; r -= w[i]; }
    return w.size() - 1;
  }
};

// One step of a schedule: a kind, integer arguments and optional raw bytes.
struct Op {
  std::string k;
  std::vector<int64_t> a;
  Bytes b;
  Op() {}
  Op(std::string kk, std::vector<int64_t> aa = {}, Bytes bb = {}) : k(std::move(kk)), a(std::move(aa)), b(std::move(bb)) {}
  int64_t arg(size_t i, int64_t d = 0) const { return i < a.size() ? a[i] : d; }
};

struct Plan {
  std::string focus;  // property the plan was generated for
  uint64_t seed = 0;
  std::vector<Op> ops;
};

struct Violation {
  std::string prop, key, text;
};

// What one forked sub-execution of the code under test did.
struct SubOut {
  int status = 0;        // raw wait status
  bool exited = false;   // exit()/return; code in `code`
  int code = 0;
  bool crashed = false;  // signal, sanitizer report, assertion
  bool hang = false;
  std::string crash_key, crash_text;
  Bytes data;            // whatever the body appended
};

class Ctx {
 public:
  const Plan &plan;
  explicit Ctx(const Plan &p) : plan(p) {}
  void violate(const std::string &prop, const std::string &key, const std::string &text);
  void fault(const char *name, uint64_t n = 1);
  void probe(const char *name, uint64_t n = 1);
  void log(const void *p, size_t n);  // goes into the event hash
  void log(const Bytes &b) { uint64_t n = b.size(); log(&n, 8); log(b.data(), b.size()); }
  void log(uint64_t v) { log(&v, 8); }
  void shape(uint64_t v);  // goes into the distinct-history signature
  void simtime(double seconds);
  void evals(uint64_t n);  // oracle evaluations done
  void abandon(const char *why);
  // Run `body` in a process of its own; what it appends to the sink is returned
  // even when it crashes.  Fills crash_* on assertion, signal, sanitizer report.
  SubOut sub(const std::function<void(std::function<void(const void *, size_t)>)> &body, double cpu_s = 10.0);
};

// What MemorySanitizer is told and asked at the boundary of the code under test
// (nothing in other builds).
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define SIM_MSAN 1
#endif
#endif
#ifdef SIM_MSAN
extern "C" void __msan_unpoison(const volatile void *, size_t);
extern "C" void __msan_poison(const volatile void *, size_t);
extern "C" void __msan_check_mem_is_initialized(const volatile void *, size_t);
extern "C" void __msan_scoped_disable_interceptor_checks(void);
extern "C" void __msan_scoped_enable_interceptor_checks(void);
inline void libc_checks(bool on) { if (on) __msan_scoped_enable_interceptor_checks(); else __msan_scoped_disable_interceptor_checks(); }
inline void mark_init(const void *p, size_t n) { __msan_unpoison(p, n); }
inline void mark_raw(const void *p, size_t n) { __msan_poison(p, n); }
inline void must_init(const void *p, size_t n) { __msan_check_mem_is_initialized(p, n); }
#else
inline void libc_checks(bool) {}
inline void mark_init(const void *, size_t) {}
inline void mark_raw(const void *, size_t) {}
inline void must_init(const void *, size_t) {}
#endif

struct Job;
struct Harness {
  virtual ~Harness() {}
  // the conversion a plan stands for; false if it stands for none
  virtual bool job(const Plan &, Ctx *, Job &) { return false; }
  virtual const char *name() = 0;
  virtual std::vector<std::string> properties() = 0;
  virtual Plan gen(uint64_t seed, const std::string &focus) = 0;
  virtual void run(Ctx &c) = 0;
  // runs for quick / thorough tier
  virtual uint64_t budget(const std::string &focus, bool thorough) { (void)focus; return thorough ? 200000 : 6000; }
  // smallest value a minimiser may reduce an argument to (default 0)
  virtual int64_t arg_floor(const Op &, size_t) { return 0; }
  virtual bool arg_shrinkable(const Op &, size_t) { return true; }
  virtual std::vector<std::string> assumptions() { return {}; }
  virtual std::string rule(const std::string &focus) = 0;
  virtual std::vector<std::string> real_components() = 0;
  virtual std::vector<std::string> stub_components() = 0;
};

int sim_main(int argc, char **argv, Harness &h);

uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
std::string hex(const Bytes &b, size_t max = 64);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---- independent SBP stream reader (not the shim's) ----
struct Sbp {
  uint16_t type = 0, sender = 0;
  Bytes p;
  size_t end = 0;  // offset just past the frame in the output
  bool operator==(const Sbp &o) const { return type == o.type && sender == o.sender && p == o.p; }
  bool operator!=(const Sbp &o) const { return !(*this == o); }
};
// Parses; returns false (with what parsed) if the bytes are not whole valid frames.
bool parse_sbp(const Bytes &b, std::vector<Sbp> &out, size_t *bad_at = nullptr);
Bytes frame_sbp(uint16_t type, uint16_t sender, const Bytes &payload);
std::string show(const Sbp &m);

inline uint64_t rd(const Bytes &b, size_t o, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) if (o + i < b.size()) v |= (uint64_t)b[o + i] << (8 * i);
  return v;
}
inline int64_t rds(const Bytes &b, size_t o, int n) {
  uint64_t v = rd(b, o, n);
  if (n < 8 && (v >> (8 * n - 1)) & 1) v |= ~0ull << (8 * n);
  return (int64_t)v;
}
inline float rdf(const Bytes &b, size_t o) { uint32_t v = (uint32_t)rd(b, o, 4); float f; memcpy(&f, &v, 4); return f; }
inline double rdd(const Bytes &b, size_t o) { uint64_t v = rd(b, o, 8); double f; memcpy(&f, &v, 8); return f; }

struct BitW {
  Bytes b;
  size_t n = 0;
  void u(uint64_t v, int bits) {
    for (int i = bits - 1; i >= 0; i--) {
      if (n % 8 == 0) b.push_back(0);
      if ((v >> i) & 1) b[n / 8] |= (uint8_t)(0x80 >> (n % 8));
      n++;
    }
  }
  void s(int64_t v, int bits) { u((uint64_t)v & (bits == 64 ? ~0ull : ((1ull << bits) - 1)), bits); }
  void sm(int64_t v, int bits) { u(v < 0 ? 1 : 0, 1); u((uint64_t)(v < 0 ? -v : v), bits - 1); }
};

}  // namespace sim
