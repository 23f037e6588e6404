#include "sim.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---- edge coverage of the code under test (inline 8-bit counters) ----
static uint8_t *g_cov_begin, *g_cov_end;
static const int MAXMOD = 256;
static struct { uint8_t *b, *e; } g_mods[MAXMOD];
static int g_nmods;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *b, uint8_t *e) {
  if (b == e) return;
  for (int i = 0; i < g_nmods; i++) if (g_mods[i].b == b) return;
  if (g_nmods < MAXMOD) { g_mods[g_nmods].b = b; g_mods[g_nmods].e = e; g_nmods++; }
}
static struct { const uintptr_t *b, *e; } g_pcs[MAXMOD];
static int g_npcs;
extern "C" char __executable_start;
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) {
  if (b == e) return;
  for (int i = 0; i < g_npcs; i++) if (g_pcs[i].b == b) return;
  if (g_npcs < MAXMOD) { g_pcs[g_npcs].b = b; g_pcs[g_npcs].e = e; g_npcs++; }
}
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
         "print_legend=0:symbolize=0:print_summary=1";
}
extern "C" const char *__msan_default_options() { return "exitcode=77:handle_abort=0:allocator_may_return_null=1:symbolize=0:print_summary=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:symbolize=0"; }

namespace sim {

uint64_t fnv(const void *p, size_t n, uint64_t h) {
  const uint8_t *b = (const uint8_t *)p;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
  return h;
}
std::string hex(const Bytes &b, size_t max) {
  std::string r;
  char t[4];
  for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", b[i]); r += t; }
  if (b.size() > max) r += "...";
  return r;
}
std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

static uint16_t crc16(const uint8_t *p, size_t n, uint16_t crc = 0) {
  for (size_t i = 0; i < n; i++) {
    crc ^= (uint16_t)p[i] << 8;
    for (int k = 0; k < 8; k++) crc = (uint16_t)((crc & 0x8000) ? (crc << 1) ^ 0x1021 : crc << 1);
  }
  return crc;
}
bool parse_sbp(const Bytes &b, std::vector<Sbp> &out, size_t *bad_at) {
  size_t i = 0;
  while (i < b.size()) {
    if (bad_at) *bad_at = i;
    if (b[i] != 0x55 || b.size() - i < 8) return false;
    size_t len = b[i + 5];
    if (b.size() - i < 8 + len) return false;
    uint16_t c = crc16(&b[i + 1], 5 + len);
    if ((c & 0xff) != b[i + 6 + len] || (c >> 8) != b[i + 7 + len]) return false;
    Sbp m;
    m.type = (uint16_t)(b[i + 1] | b[i + 2] << 8);
    m.sender = (uint16_t)(b[i + 3] | b[i + 4] << 8);
    m.p.assign(b.begin() + (long)i + 6, b.begin() + (long)(i + 6 + len));
    i += 8 + len;
    m.end = i;
    out.push_back(m);
  }
  return true;
}
Bytes frame_sbp(uint16_t type, uint16_t sender, const Bytes &p) {
  Bytes r = {0x55, (uint8_t)type, (uint8_t)(type >> 8), (uint8_t)sender, (uint8_t)(sender >> 8), (uint8_t)p.size()};
  r.insert(r.end(), p.begin(), p.end());
  uint16_t c = crc16(&r[1], r.size() - 1);
  r.push_back((uint8_t)c);
  r.push_back((uint8_t)(c >> 8));
  return r;
}
std::string show(const Sbp &m) { return fmt("type=0x%04x sender=0x%04x len=%zu payload=", m.type, m.sender, m.p.size()) + hex(m.p, 255); }

// ---------------------------------------------------------------- shared result
struct Slot { char name[56]; uint64_t n; };
static const int NSLOT = 192, NVIO = 8;
struct Shared {
  volatile int done;
  uint64_t hash, shape, evals;
  double simtime;
  char abandoned[64];
  Slot faults[NSLOT], probes[NSLOT];
  int nv;
  struct { char prop[8]; char key[160]; char text[3000]; } v[NVIO];
  uint8_t cov[1 << 17];
};
static Shared *S;  // of the current worker
static uint8_t *g_subdata;             // arena for sub-run output
static size_t *g_subused;
static const size_t SUBCAP = 24u << 20;

static void bump(Slot *s, const char *name, uint64_t n) {
  for (int i = 0; i < NSLOT; i++) {
    if (!s[i].name[0]) { snprintf(s[i].name, sizeof s[i].name, "%s", name); s[i].n = n; return; }
    if (!strcmp(s[i].name, name)) { s[i].n += n; return; }
  }
}
void Ctx::violate(const std::string &prop0, const std::string &key0, const std::string &text) {
  // A run that ends in a crash or never gives no result to judge, whatever is
  // being checked: it is not what the property asks for.
  bool end = prop0 == "C21" && !plan.focus.empty() && plan.focus != "C21" && plan.focus != "ALL";
  const std::string prop = end ? plan.focus : prop0, key = end ? "no result: " + key0 : key0;
  for (int i = 0; i < S->nv; i++) if (prop == S->v[i].prop) return;
  if (S->nv >= NVIO) return;
  auto &v = S->v[S->nv];
  snprintf(v.prop, sizeof v.prop, "%s", prop.c_str());
  snprintf(v.key, sizeof v.key, "%s", key.c_str());
  snprintf(v.text, sizeof v.text, "%s", text.c_str());
  S->nv++;
}
void Ctx::fault(const char *name, uint64_t n) { bump(S->faults, name, n); }
void Ctx::probe(const char *name, uint64_t n) { bump(S->probes, name, n); }
void Ctx::log(const void *p, size_t n) { S->hash = fnv(p, n, S->hash); }
void Ctx::shape(uint64_t v) { S->shape = fnv(&v, 8, S->shape); }
void Ctx::simtime(double s) { S->simtime += s; }
void Ctx::evals(uint64_t n) { S->evals += n; }
void Ctx::abandon(const char *why) { snprintf(S->abandoned, sizeof S->abandoned, "%s", why); }

static void merge_cov() {
  size_t o = 0;
  for (int m = 0; m < g_nmods; m++)
    for (uint8_t *p = g_mods[m].b; p < g_mods[m].e && o < sizeof S->cov; p++, o++) if (*p) S->cov[o] = 1;
}
static size_t cov_total() {
  size_t o = 0;
  for (int m = 0; m < g_nmods; m++) o += (size_t)(g_mods[m].e - g_mods[m].b);
  return o;
}

static int memfd(const char *n) { return (int)syscall(SYS_memfd_create, n, 0u); }
static std::string slurp_fd(int fd, size_t max = 60000) {
  std::string r(max, 0);
  ssize_t k = pread(fd, &r[0], max, 0);
  r.resize(k > 0 ? (size_t)k : 0);
  return r;
}
static std::string g_self;
static std::string symbolize(const std::string &addr) {
  static std::map<std::string, std::string> cache;
  auto it = cache.find(addr);
  if (it != cache.end()) return it->second;
  std::string cmd = "llvm-symbolizer-18 --obj=" + g_self + " --functions=short " + addr + " 2>/dev/null || llvm-symbolizer --obj=" + g_self + " " + addr + " 2>/dev/null";
  FILE *f = popen(cmd.c_str(), "r");
  std::string r;
  char line[512];
  if (f) {
    while (fgets(line, sizeof line, f)) { r += line; }
    pclose(f);
  }
  std::string fn = r.substr(0, r.find('\n'));
  std::string rest = r.size() > fn.size() ? r.substr(fn.size() + 1) : "";
  std::string loc = rest.substr(0, rest.find('\n'));
  cache[addr] = fn + " " + loc;
  return cache[addr];
}
// Turn a sanitizer/assert report into a stable key and a readable text.
static void describe(const std::string &err, int status, SubOut &o) {
  std::string head;
  std::istringstream is(err);
  std::string line;
  std::vector<std::string> frames;
  while (std::getline(is, line)) {
    size_t q;
    if (head.empty() && (q = line.find("ERROR: AddressSanitizer: ")) != std::string::npos) {
      head = line.substr(q + 25);
      head = "asan " + head.substr(0, head.find(' '));
    } else if (head.empty() && (q = line.find("WARNING: MemorySanitizer: ")) != std::string::npos) {
      head = "msan " + line.substr(q + 26);
    } else if (head.empty() && line.find("Uninitialized bytes in") != std::string::npos) {
      head = "msan uninitialised output";
    } else if (head.empty() && (q = line.find("runtime error: ")) != std::string::npos) {
      std::string t = line.substr(q + 15), u;
      for (char ch : t) if (!isdigit((unsigned char)ch)) u += ch;
      head = "ubsan " + u.substr(0, 60);
    } else if (head.empty() && line.find(" panicked at ") != std::string::npos) {
      head = "panic";  // Rust's way to end; what it could not do follows
      if (std::getline(is, line)) head += " " + line;
    } else if (head.empty() && (q = line.find(": Assertion `")) != std::string::npos) {
      size_t e = line.find("' failed", q);
      std::string fn = line.substr(0, q);
      size_t c = fn.find_last_of(' ');
      if (c != std::string::npos) fn = fn.substr(c + 1);
      // file:line: prefix dropped so that the key survives moved lines
      head = "assert " + line.substr(q + 13, (e == std::string::npos ? line.size() : e) - q - 13);
    }
    if ((line.find("    #") == 0) && frames.size() < 12) {
      size_t a = line.find("(");
      size_t p = line.find("+0x", a == std::string::npos ? 0 : a);
      if (p != std::string::npos) {
        std::string addr = line.substr(p + 1, line.find_first_of(") ", p) - p - 1);
        frames.push_back(addr);
      }
    }
  }
  std::string where, all;
  for (auto &a : frames) {
    std::string s = symbolize(a);
    all += "   at " + s + "\n";
    if (where.empty() && s.find("/repo/") != std::string::npos) where = s.substr(0, s.find(' '));
    else if (where.empty() && s.find("/c/") != std::string::npos && s.find("/verif/") == std::string::npos) where = s.substr(0, s.find(' '));
  }
  if (head.empty()) {
    if (WIFSIGNALED(status)) head = fmt("signal %d", WTERMSIG(status));
    else head = fmt("exit %d", WEXITSTATUS(status));
  }
  o.crash_key = head + (where.empty() ? "" : " in " + where);
  size_t pos = err.find("ERROR: AddressSanitizer");
  if (pos == std::string::npos) pos = err.find("WARNING: MemorySanitizer");
  if (pos == std::string::npos) pos = err.find("runtime error:");
  if (pos == std::string::npos) pos = err.find("Assertion");
  if (pos != std::string::npos) { size_t b = err.rfind('\n', pos); pos = b == std::string::npos ? 0 : b + 1; }
  o.crash_text = pos == std::string::npos ? head : err.substr(pos, err.find('\n', pos) - pos);
  o.crash_text += "\n" + all;
}

static int g_errfd = -1;
static double g_cpu_scale = 1.0;

SubOut Ctx::sub(const std::function<void(std::function<void(const void *, size_t)>)> &body, double cpu_s) {
  SubOut o;
  *g_subused = 0;
  if (g_errfd < 0) g_errfd = memfd("err");
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(g_errfd, 2);
    dup2(g_errfd, 1);
    rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    rlimit fs = {64u << 20, 64u << 20};
    setrlimit(RLIMIT_FSIZE, &fs);
    signal(SIGVTALRM, SIG_DFL);
    double t = cpu_s * g_cpu_scale;
    itimerval it = {};
    it.it_value.tv_sec = (long)t;
    it.it_value.tv_usec = (long)((t - (double)(long)t) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    alarm(300);
    auto sink = [](const void *p, size_t n) {
      if (*g_subused + n > SUBCAP) { _exit(99); }
      memcpy(g_subdata + *g_subused, p, n);
      *g_subused += n;
    };
    // so that exit() called by the code under test still records coverage
    atexit([] { merge_cov(); });
    libc_checks(true);
    body(sink);
    libc_checks(false);
    merge_cov();
    fflush(stdout);
    fflush(stderr);
    _exit(0);
  }
  if (pid < 0) { fprintf(stderr, "fork failed\n"); _exit(3); }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  o.status = st;
  o.data.assign(g_subdata, g_subdata + *g_subused);
  if (WIFEXITED(st)) {
    o.exited = true;
    o.code = WEXITSTATUS(st);
    if (o.code == 77) o.crashed = true;  // sanitizer
    if (o.code == 99) { o.hang = true; o.crash_key = "output without bound"; o.crash_text = "more than 24 MB written"; }
  } else if (WIFSIGNALED(st)) {
    if (WTERMSIG(st) == SIGVTALRM || WTERMSIG(st) == SIGALRM) {
      o.hang = true;
      o.crash_key = "hang";
      o.crash_text = fmt("no return within %.0f s of processor time", cpu_s);
    } else {
      o.crashed = true;
    }
  }
  if (o.crashed) {
    std::string err = slurp_fd(g_errfd);
    describe(err, st, o);
  } else if (o.exited && getenv("SIM_STDERR")) {
    std::string err = slurp_fd(g_errfd);
    fprintf(stderr, "--- sub stderr:\n%s---\n", err.c_str());
  }
  return o;
}

// ------------------------------------------------------------------ plan files
static std::string op_line(const Op &o) {
  std::string r = o.k;
  for (auto x : o.a) r += " " + std::to_string(x);
  if (!o.b.empty()) r += " x" + hex(o.b, o.b.size());
  return r;
}
static bool parse_op(const std::string &l, Op &o) {
  std::istringstream is(l);
  if (!(is >> o.k)) return false;
  std::string t;
  while (is >> t) {
    if (t[0] == 'x') {
      for (size_t i = 1; i + 1 < t.size(); i += 2) o.b.push_back((uint8_t)strtoul(t.substr(i, 2).c_str(), nullptr, 16));
    } else {
      o.a.push_back(strtoll(t.c_str(), nullptr, 10));
    }
  }
  return true;
}

struct RunResult {
  uint64_t hash = 0, shape = 0, evals = 0;
  double simtime = 0;
  std::vector<Violation> v;
  std::map<std::string, uint64_t> faults, probes;
  std::string abandoned;
  bool broken = false;
  std::string broken_text;
};

static Shared *make_shared_region() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  return (Shared *)p;
}

// run the whole simulated world of one plan in a child
static RunResult run_plan(Harness &h, const Plan &p, bool keepcov = true) {
  Shared *s = S;
  s->done = 0;
  s->hash = 1469598103934665603ull;
  s->shape = 1469598103934665603ull;
  s->evals = 0;
  s->simtime = 0;
  s->abandoned[0] = 0;
  s->nv = 0;
  memset(s->faults, 0, sizeof s->faults);
  memset(s->probes, 0, sizeof s->probes);
  if (!keepcov) memset(s->cov, 0, sizeof s->cov);
  RunResult r;
  static int errfd = -1;
  if (errfd < 0) errfd = memfd("worlderr");
  if (ftruncate(errfd, 0)) {}
  lseek(errfd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid == 0) {
    if (!getenv("SIM_STDERR")) dup2(errfd, 2);
    alarm(600);
    Ctx c(p);
    h.run(c);
    s->done = 1;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!s->done || !WIFEXITED(st) || WEXITSTATUS(st) != 0) {
    r.broken = true;
    r.broken_text = fmt("world process status 0x%x: ", st) + slurp_fd(errfd, 3000);
    return r;
  }
  r.hash = s->hash;
  r.shape = s->shape;
  r.evals = s->evals;
  r.simtime = s->simtime;
  r.abandoned = s->abandoned;
  for (int i = 0; i < s->nv; i++) r.v.push_back({s->v[i].prop, s->v[i].key, s->v[i].text});
  for (int i = 0; i < NSLOT && s->faults[i].name[0]; i++) r.faults[s->faults[i].name] = s->faults[i].n;
  for (int i = 0; i < NSLOT && s->probes[i].name[0]; i++) r.probes[s->probes[i].name] = s->probes[i].n;
  return r;
}
static const Violation *find(const RunResult &r, const std::string &prop) {
  for (auto &v : r.v) if (v.prop == prop) return &v;
  return nullptr;
}

static double now_s() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

static Plan minimise(Harness &h, Plan p, const std::string &prop, const std::string &key, double limit_s, uint64_t &tries) {
  double t0 = now_s();
  auto still = [&](const Plan &q) {
    tries++;
    RunResult r = run_plan(h, q);
    if (r.broken) return false;
    const Violation *v = find(r, prop);
    return v && v->key == key;
  };
  auto over = [&] { return now_s() - t0 > limit_s; };
  // ddmin on operations
  size_t n = 2;
  while (p.ops.size() >= 2 && !over()) {
    size_t len = std::max<size_t>(1, p.ops.size() / n);
    bool ok = false;
    for (size_t at = 0; at < p.ops.size() && !over(); at += len) {
      Plan q = p;
      q.ops.erase(q.ops.begin() + (long)at, q.ops.begin() + (long)std::min(p.ops.size(), at + len));
      if (still(q)) { p = q; ok = true; break; }
    }
    if (ok) { n = std::max<size_t>(2, n - 1); }
    else if (len == 1) break;
    else n = std::min(p.ops.size(), n * 2);
  }
  // shrink arguments
  bool prog = true;
  for (int round = 0; round < 3 && prog && !over(); round++) {
    prog = false;
    for (size_t i = 0; i < p.ops.size() && !over(); i++) {
      for (size_t j = 0; j < p.ops[i].a.size() && !over(); j++) {
        if (!h.arg_shrinkable(p.ops[i], j)) continue;
        int64_t cur = p.ops[i].a[j], fl = h.arg_floor(p.ops[i], j);
        if (cur <= fl) continue;
        for (int64_t cand : {fl, fl + 1, fl + (cur - fl) / 2, cur - 1}) {
          if (cand >= cur) continue;
          Plan q = p;
          q.ops[i].a[j] = cand;
          if (still(q)) { p = q; prog = true; break; }
        }
      }
    }
  }
  return p;
}

static void write_replay(const std::string &path, Harness &h, const Plan &p, const Violation &v, const RunResult &r) {
  std::ofstream f(path);
  f << "# replay of one simulated run; replay with: " << h.name() << " --replay " << path << "\n";
  f << "harness " << h.name() << "\nproperty " << v.prop << "\nfocus " << p.focus << "\nseed " << p.seed << "\nhash " << fmt("%016llx", (unsigned long long)r.hash) << "\n";
  f << "key " << v.key << "\n";
  std::istringstream is(v.text);
  std::string l;
  while (std::getline(is, l)) f << "# " << l << "\n";
  f << "ops\n";
  for (auto &o : p.ops) f << op_line(o) << "\n";
}
static bool read_replay(const std::string &path, Plan &p, std::string &prop, std::string &key, std::string &hash) {
  std::ifstream f(path);
  if (!f) return false;
  std::string l;
  bool ops = false;
  while (std::getline(f, l)) {
    if (l.empty() || l[0] == '#') continue;
    if (ops) { Op o; if (parse_op(l, o)) p.ops.push_back(o); continue; }
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "ops") ops = true;
    else if (k == "property") is >> prop;
    else if (k == "focus") is >> p.focus;
    else if (k == "seed") is >> p.seed;
    else if (k == "hash") is >> hash;
    else if (k == "key") { std::getline(is, key); if (!key.empty() && key[0] == ' ') key.erase(0, 1); }
  }
  return ops;
}

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c > 126) r += fmt("\\u%04x", c);
    else r += (char)c;
  }
  return r + "\"";
}

struct Known { std::string prop, pattern, text; };
static std::vector<Known> load_known(const std::string &path) {
  // lines: known: property=<id> key=<substring of the violation key> | description
  std::vector<Known> r;
  std::ifstream f(path);
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("known: property=", 0) != 0) continue;
    Known k;
    size_t a = 16, b = l.find(' ', a);
    k.prop = l.substr(a, b - a);
    size_t c = l.find("key=", b), d = l.find(" | ", c);
    if (c == std::string::npos || d == std::string::npos) continue;
    k.pattern = l.substr(c + 4, d - c - 4);
    k.text = l.substr(d + 3);
    r.push_back(k);
  }
  return r;
}

static uint64_t seed_of(uint64_t master, uint64_t i) {
  Rng r(master * 1000003ull + 17);
  uint64_t x = r.next() ^ (i * 0x9E3779B97F4A7C15ull);
  Rng q(x);
  return q.next() >> 1;
}

int sim_main(int argc, char **argv, Harness &h) {
  std::map<std::string, std::string> opt;
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i];
    if (k.rfind("--", 0) == 0) {
      if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) opt[k.substr(2)] = argv[++i];
      else opt[k.substr(2)] = "1";
    }
  }
  char self[512];
  ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
  g_self = sl > 0 ? std::string(self, (size_t)sl) : argv[0];
  size_t arena = SUBCAP;
  g_subdata = (uint8_t *)mmap(nullptr, arena, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  g_subused = (size_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  S = make_shared_region();

  if (opt.count("replay")) {
    Plan p;
    std::string prop, key, hash;
    if (!read_replay(opt["replay"], p, prop, key, hash)) { fprintf(stderr, "cannot read %s\n", opt["replay"].c_str()); return 3; }
    RunResult r = run_plan(h, p);
    if (r.broken) { fprintf(stderr, "%s\n", r.broken_text.c_str()); return 3; }
    const Violation *v = prop.empty() ? (r.v.empty() ? nullptr : &r.v[0]) : find(r, prop);
    if (!opt.count("quiet")) {
      printf("hash %016llx (recorded %s)\n", (unsigned long long)r.hash, hash.c_str());
      for (auto &x : r.v) printf("%s [%s]\n%s\n", x.prop.c_str(), x.key.c_str(), x.text.c_str());
      for (auto &f : r.faults) printf("fault %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
      for (auto &f : r.probes) printf("probe %s %llu\n", f.first.c_str(), (unsigned long long)f.second);
      if (!r.abandoned.empty()) printf("abandoned: %s\n", r.abandoned.c_str());
    }
    if (v && (key.empty() || v->key == key)) {
      printf("VIOLATION property=%s replay=%s\n", v->prop.c_str(), opt["replay"].c_str());
      printf("reproduced key=%s hash=%016llx\n", v->key.c_str(), (unsigned long long)r.hash);
      return 1;
    }
    printf("not reproduced\n");
    return 0;
  }
  if (opt.count("dump")) {  // print the plan of one seed
    Plan p = h.gen(strtoull(opt["dump"].c_str(), nullptr, 10), opt["check"]);
    for (auto &o : p.ops) printf("%s\n", op_line(o).c_str());
    return 0;
  }

  std::string prop = opt.count("check") ? opt["check"] : "";
  bool thorough = opt.count("tier") && opt["tier"] == "thorough";
  uint64_t master = opt.count("seed") ? strtoull(opt["seed"].c_str(), nullptr, 10) : 1;
  uint64_t budget = opt.count("runs") ? strtoull(opt["runs"].c_str(), nullptr, 10) : h.budget(prop, thorough);
  double limit = opt.count("limit") ? atof(opt["limit"].c_str()) : (thorough ? 600 : 60);
  int workers = opt.count("workers") ? atoi(opt["workers"].c_str()) : 8;
  std::string outdir = opt.count("out") ? opt["out"] : ".";
  std::vector<Known> known = load_known(opt.count("known") ? opt["known"] : "");
  double t0 = now_s();

  struct PerW { std::string file; pid_t pid; };
  std::vector<PerW> ws;
  std::string tmp = fmt("/tmp/sim.%s.%d", h.name(), (int)getpid());
  mkdir(tmp.c_str(), 0700);
  for (int w = 0; w < workers; w++) {
    std::string file = tmp + "/w" + std::to_string(w);
    pid_t pid = fork();
    if (pid == 0) {
      S = make_shared_region();
      g_subdata = (uint8_t *)mmap(nullptr, arena, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      g_subused = (size_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      g_errfd = -1;
      std::ofstream f(file);
      std::map<std::string, uint64_t> faults, probes, runs_with_fault, abandoned;
      uint64_t runs = 0, evals = 0, checked2 = 0, mism = 0, steps = 0;
      double simt = 0;
      int nviol = 0;
      std::map<std::string, int> perkey;
      bool hashes = opt.count("hashes") > 0;
      for (uint64_t i = (uint64_t)w; i < budget; i += (uint64_t)workers) {
        if (now_s() - t0 > limit) break;
        uint64_t sd = seed_of(master, i);
        Plan p = h.gen(sd, prop);
        p.seed = sd;
        p.focus = prop;
        RunResult r = run_plan(h, p);
        if (r.broken) { f << "B " << sd << " " << jstr(r.broken_text) << "\n"; continue; }
        runs++;
        steps += p.ops.size();
        evals += r.evals;
        simt += r.simtime;
        for (auto &x : r.faults) { faults[x.first] += x.second; runs_with_fault[x.first]++; }
        for (auto &x : r.probes) probes[x.first] += x.second;
        if (!r.abandoned.empty()) abandoned[r.abandoned]++;
        if (r.shape != 1469598103934665603ull) f << "S " << r.shape << "\n";
        if (hashes) f << "H " << i << " " << sd << " " << r.hash << "\n";
        if (i % 16 == 0) {  // determinism audit
          RunResult r2 = run_plan(h, p);
          checked2++;
          if (r2.hash != r.hash || r2.v.size() != r.v.size()) { mism++; f << "D " << sd << "\n"; }
        }
        for (auto &v : r.v) {
          if (v.prop != prop && prop != "ALL") { probes["other-property:" + v.prop]++; continue; }
          bool k = false;
          for (auto &kn : known) if (kn.prop == v.prop && v.key.find(kn.pattern) != std::string::npos) k = true;
          if (perkey[v.prop + v.key]++ < (k ? 1 : 3)) f << "V " << sd << " " << i << " " << v.prop << " " << jstr(v.key) << "\n";
          if (!k) nviol++;
        }
        if (nviol >= 5 && !opt.count("all")) break;
      }
      for (auto &x : faults) f << "F " << x.second << " " << runs_with_fault[x.first] << " " << x.first << "\n";
      for (auto &x : probes) f << "P " << x.second << " " << x.first << "\n";
      for (auto &x : abandoned) f << "A " << x.second << " " << x.first << "\n";
      f << "T " << runs << " " << evals << " " << fmt("%.3f", simt) << " " << checked2 << " " << mism << " " << steps << "\n";
      if (opt.count("all")) f << "N " << nviol << "\n";
      f << "C ";
      for (size_t i = 0; i < sizeof S->cov; i++) if (S->cov[i]) f << i << ",";
      f << "\n";
      f.close();
      _exit(0);
    }
    ws.push_back({file, pid});
  }
  for (auto &w : ws) { int st; while (waitpid(w.pid, &st, 0) < 0 && errno == EINTR) {} }

  std::map<std::string, uint64_t> faults, fruns, probes, abandoned;
  std::set<uint64_t> shapes;
  std::set<size_t> cov;
  uint64_t runs = 0, evals = 0, c2 = 0, mism = 0, broken = 0, steps = 0;
  double simt = 0;
  uint64_t nfail = 0;  // with --all
  struct Found { uint64_t seed, idx; std::string prop, key; };
  std::vector<Found> found;
  std::vector<std::string> hashlines;
  std::string broken_first;
  for (auto &w : ws) {
    std::ifstream f(w.file);
    std::string l;
    while (std::getline(f, l)) {
      std::istringstream is(l);
      std::string k;
      is >> k;
      if (k == "S") { uint64_t x; is >> x; shapes.insert(x); }
      else if (k == "F") { uint64_t n, m; is >> n >> m; std::string name; std::getline(is, name); name.erase(0, 1); faults[name] += n; fruns[name] += m; }
      else if (k == "P") { uint64_t n; is >> n; std::string name; std::getline(is, name); name.erase(0, 1); probes[name] += n; }
      else if (k == "A") { uint64_t n; is >> n; std::string name; std::getline(is, name); name.erase(0, 1); abandoned[name] += n; }
      else if (k == "T") { uint64_t a, b, c, d, e; double s; is >> a >> b >> s >> c >> d >> e; runs += a; evals += b; simt += s; c2 += c; mism += d; steps += e; }
      else if (k == "B") { broken++; if (broken_first.empty()) broken_first = l; }
      else if (k == "D") { if (broken_first.empty()) broken_first = "nondeterministic " + l; }
      else if (k == "N") { uint64_t n; is >> n; nfail += n; }
      else if (k == "H") hashlines.push_back(l);
      else if (k == "C") { std::string x; is >> x; std::istringstream cs(x); std::string t; while (std::getline(cs, t, ',')) cov.insert(strtoull(t.c_str(), nullptr, 10)); }
      else if (k == "V") {
        Found fd;
        is >> fd.seed >> fd.idx >> fd.prop;
        std::string key;
        std::getline(is, key);
        key.erase(0, 1);
        if (key.size() >= 2) key = key.substr(1, key.size() - 2);
        std::string u;
        for (size_t i = 0; i < key.size(); i++) { if (key[i] == '\\' && i + 1 < key.size()) i++; u += key[i]; }
        fd.key = u;
        found.push_back(fd);
      }
    }
    unlink(w.file.c_str());
  }
  rmdir(tmp.c_str());
  if (opt.count("all")) printf("violations: %llu\n", (unsigned long long)nfail);
  double search_s = now_s() - t0;
  if (opt.count("hashes")) {
    std::ofstream f(opt["hashes"]);
    for (auto &l : hashlines) f << l << "\n";
  }

  // confirm, minimise, replay in a fresh process
  std::sort(found.begin(), found.end(), [](const Found &a, const Found &b) { return a.idx < b.idx; });
  std::map<std::string, int> done;
  std::vector<std::string> vio_json;
  int rc = 0, confirmed = 0;
  std::set<std::string> kf;
  std::string samples_v;
  for (auto &fd : found) {
    bool isknown = false;
    for (auto &kn : known)
      if (kn.prop == fd.prop && fd.key.find(kn.pattern) != std::string::npos) {
        if (kf.insert(kn.prop + kn.pattern).second) printf("KNOWN-FINDING: property=%s %s\n", kn.prop.c_str(), kn.text.c_str());
        isknown = true;
      }
    if (isknown) continue;
    if (done[fd.prop + fd.key]++ || confirmed >= (thorough || opt.count("all") ? 12 : 3)) continue;
    Plan p = h.gen(fd.seed, prop);
    p.seed = fd.seed;
    p.focus = prop;
    RunResult a = run_plan(h, p), b = run_plan(h, p);
    const Violation *va = find(a, fd.prop), *vb = find(b, fd.prop);
    if (a.broken || b.broken || !va || !vb || a.hash != b.hash || va->key != vb->key) {
      fprintf(stderr, "seed %llu: not reproducible\n", (unsigned long long)fd.seed);
      broken++;
      continue;
    }
    uint64_t tries = 0;
    Plan q = opt.count("nomin") ? p : minimise(h, p, fd.prop, va->key, thorough ? 120 : 40, tries);
    RunResult m = run_plan(h, q);
    const Violation *vm = find(m, fd.prop);
    if (!vm) { q = p; m = a; vm = va; }
    mkdir(outdir.c_str(), 0777);
    std::string path = outdir + "/" + fd.prop + "-" + std::to_string(fd.seed) + ".replay";
    write_replay(path, h, q, *vm, m);
    std::string cmd = "'" + g_self + "' --replay '" + path + "' --quiet > /dev/null 2>&1";
    int rr = system(cmd.c_str());
    if (!WIFEXITED(rr) || WEXITSTATUS(rr) != 1) {
      fprintf(stderr, "%s does not reproduce in a fresh process\n", path.c_str());
      broken++;
      continue;
    }
    confirmed++;
    rc = 1;
    printf("VIOLATION property=%s replay=%s\n", fd.prop.c_str(), path.c_str());
    printf("  seed %llu (run %llu), %zu ops minimised to %zu in %llu runs\n  key: %s\n", (unsigned long long)fd.seed, (unsigned long long)fd.idx,
           p.ops.size(), q.ops.size(), (unsigned long long)tries, vm->key.c_str());
    std::istringstream is(vm->text);
    std::string l;
    while (std::getline(is, l)) printf("    %s\n", l.c_str());
    fflush(stdout);  // or the processes of later runs would print it again
    vio_json.push_back(fmt("{\"property\": %s, \"seed\": %llu, \"replay\": %s, \"what\": ", jstr(fd.prop).c_str(), (unsigned long long)fd.seed, jstr(path).c_str()) + jstr(vm->key + ": " + vm->text.substr(0, 600)) + "}");
  }
  fflush(stdout);
  // evidence
  double wall = now_s() - t0;
  if (opt.count("evidence")) {
    std::ofstream f(opt["evidence"]);
    auto m2j = [&](const std::map<std::string, uint64_t> &m) {
      std::string r = "{";
      for (auto &x : m) { if (r.size() > 1) r += ", "; r += jstr(x.first) + ": " + std::to_string(x.second); }
      return r + "}";
    };
    auto l2j = [&](const std::vector<std::string> &m) {
      std::string r = "[";
      for (auto &x : m) { if (r.size() > 1) r += ", "; r += jstr(x); }
      return r + "]";
    };
    std::vector<std::string> samples;
    for (uint64_t i = 0; i < 3; i++) {
      uint64_t sd = seed_of(master, i);
      Plan p = h.gen(sd, prop);
      std::string s = "seed " + std::to_string(sd) + ":";
      for (size_t k = 0; k < p.ops.size() && k < 25; k++) { std::string t = op_line(p.ops[k]); s += " | " + t.substr(0, 80); }
      if (p.ops.size() > 25) s += " | ... (" + std::to_string(p.ops.size()) + " steps)";
      samples.push_back(s);
    }
    std::string vs = "[";
    for (auto &x : vio_json) { if (vs.size() > 1) vs += ", "; vs += x; }
    vs += "]";
    f << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << (thorough ? "\"thorough\"" : "\"quick\"") << ",\n \"seed\": " << master
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << shapes.size()
      << ",\n  \"rule\": " << jstr(h.rule(prop)) << ",\n  \"samples\": " << l2j(samples)
      << ",\n  \"oracle_comparisons\": " << evals << ",\n  \"runs_and_seeds_per_hour\": " << (uint64_t)((double)runs / std::max(0.001, search_s) * 3600)
      << ",\n  \"schedule_steps\": " << steps
      << ",\n  \"simulated_seconds\": " << fmt("%.1f", simt) << ",\n  \"faults_injected\": " << m2j(faults) << ",\n  \"runs_with_fault\": " << m2j(fruns)
      << ",\n  \"probes\": " << m2j(probes) << ",\n  \"runs_abandoned\": " << m2j(abandoned)
      << ",\n  \"edges_reached\": " << cov.size() << ",\n  \"edges_total_linked\": " << cov_total()
      << ",\n  \"determinism_audit\": {\"runs_repeated\": " << c2 << ", \"hash_mismatches\": " << mism << "}"
      << ",\n  \"real_components\": " << l2j(h.real_components()) << ",\n  \"stubbed_components\": " << l2j(h.stub_components())
      << "\n },\n \"wall_s\": " << fmt("%.2f", wall) << ",\n \"assumptions\": " << l2j(h.assumptions()) << ",\n \"violations\": " << vio_json.size() << ",\n \"violations_found\": " << vs << "\n}\n";
  }
  printf("%s: %llu runs, %llu oracle evaluations, %zu distinct histories, %zu/%zu edges, %.0f simulated s, %.1f s wall, %llu broken, %llu nondeterministic\n",
         prop.c_str(), (unsigned long long)runs, (unsigned long long)evals, shapes.size(), cov.size(), cov_total(), simt, wall,
         (unsigned long long)broken, (unsigned long long)mism);
  if (opt.count("uncovered")) {  // addresses of edges no run reached, for llvm-symbolizer
    FILE *f = fopen(opt["uncovered"].c_str(), "w");
    unsigned long base = (unsigned long)&__executable_start;
    size_t o = 0;
    for (int k = 0; f && k < g_nmods; k++)
      for (size_t i = 0; i < (size_t)(g_mods[k].e - g_mods[k].b); i++, o++)
        if (k < g_npcs && !cov.count(o)) fprintf(f, "0x%lx\n", (unsigned long)g_pcs[k].b[2 * i] - base);
    if (f) fclose(f);
  }
  if (opt.count("verbose")) {
    for (auto &x : faults) printf("  fault %-40s %llu in %llu runs\n", x.first.c_str(), (unsigned long long)x.second, (unsigned long long)fruns[x.first]);
    for (auto &x : probes) printf("  probe %-40s %llu\n", x.first.c_str(), (unsigned long long)x.second);
    for (auto &x : abandoned) printf("  abandoned %-40s %llu\n", x.first.c_str(), (unsigned long long)x.second);
  }
  if (rc) return rc;
  if (broken || mism || runs == 0) { fprintf(stderr, "check error: %s\n", broken_first.c_str()); return 3; }
  return 0;
}

}  // namespace sim
