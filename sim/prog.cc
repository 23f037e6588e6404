// The stand-alone programs, C and Rust, inside the simulator: their main
// functions run for real, the system calls read and write (linked with --wrap)
// and the standard streams are the simulator's.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include "harness.h"
#include "tool.h"

// the C programs (compiled with -Dmain=<name>)
extern "C" {
int rtcm3tosbp_program(int, char **);
int ubx2sbp_program(int, char **);
int ixcom2sbp_program(int, char **);
int sbp2rtcm_program(int, char **);
// the Rust ones; each returns the status a program ends with
int rust_rtcm3tosbp();
int rust_ubx2sbp();
int rust_ixcom2sbp();
int rust_nov2sbp();
int rust_sbp2rtcm();
extern int64_t sim_clock;
}
int nov2sbp_program(int, char **);
int verif_main(int argc, char **argv);

using namespace sim;
namespace {
IO *g_io;
bool before[256];
int g_errno;
const char STALE[] = "what an earlier run left in the file";
bool g_wrote;
bool g_std_in, g_std_out;  // the program is to use the standard streams
const int SLOTS = 40;
char **g_argv;
int g_argc;
bool file(int fd) { return fd >= 3 && fd < 256 && !before[fd]; }
}  // namespace
extern "C" {
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!g_io || (fd != 0 && !file(fd))) return __real_read(fd, b, n);
  if (fd == 0 && !g_std_in) return 0;  // nothing there
  int64_t k = g_io->read((uint8_t *)b, n);
  if (k < 0) errno = EIO;
  return k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!g_io || (fd != 1 && !file(fd))) return __real_write(fd, b, n);
  if (fd == 1 && !g_std_out) return (ssize_t)n;  // nobody looks there
  if (fd != 1 && !g_wrote) {
    // what the output file held before the program must be gone
    struct stat st;
    if (!fstat(fd, &st) && st.st_size > 0) g_io->write((const uint8_t *)STALE, sizeof STALE);
  }
  g_wrote = true;
  int64_t k = g_io->write((const uint8_t *)b, n);
  if (k <= 0 && n) { errno = g_errno; return -1; }
  return k;
}
}
namespace {
// stdio on top of the same system calls
ssize_t c_read(void *, char *b, size_t n) { return __wrap_read(0, b, n); }
ssize_t c_write(void *, const char *b, size_t n) {
  size_t done = 0;
  while (done < n) { ssize_t k = __wrap_write(1, b + done, n - done); if (k <= 0) break; done += (size_t)k; }
  return (ssize_t)done;
}
void begin(IO &io, const Job &j, int kind) {
  g_std_in = kind < 2; g_std_out = kind < 3;
  sim_clock = j.clock;
  g_io = &io;
  static const int E[] = {ENOSPC, EPIPE, EIO};
  g_errno = E[j.rseed % 3];
  quiet_stderr();
  FILE *i = fopencookie(nullptr, "r", {c_read, nullptr, nullptr, nullptr}), *o = fopencookie(nullptr, "w", {nullptr, c_write, nullptr, nullptr});
  setvbuf(o, nullptr, _IOFBF, 4096);
  stdin = i; stdout = o;
  for (int fd = 0; fd < 256; fd++) before[fd] = fcntl(fd, F_GETFD) >= 0;
}
int tool_of(const Job &j) {
  static const char *N[] = {"rtcm3tosbp", "ubx2sbp", "ixcom2sbp", "nov2sbp", "sbp2rtcm"};
  for (int i = 0; i < 5; i++) if (j.tool == N[i]) return i;
  return -1;
}
Entry make(const Job &jj, int kind) {
  int t = tool_of(jj);
  if (t < 0) return nullptr;
  Job j = jj;
  j.main = j.api = nullptr; j.in.clear();
  return [j, t, kind](IO &io) {
    std::vector<std::string> a = j.argv;
    int ret;
    if (kind == 0) {
      static int (*const P[])(int, char **) = {rtcm3tosbp_program, ubx2sbp_program, ixcom2sbp_program, nov2sbp_program, sbp2rtcm_program};
      std::vector<char *> v;
      for (auto &s : a) v.push_back(&s[0]);
      v.push_back(nullptr);
      begin(io, j, kind);
      ret = P[t]((int)a.size(), v.data());
    } else {
      static int (*const P[])() = {rust_rtcm3tosbp, rust_ubx2sbp, rust_ixcom2sbp, rust_nov2sbp, rust_sbp2rtcm};
      int in = memfd_create("in", 0), out = memfd_create("out", 0);
      if (in < 0 || out < 0 || write(out, STALE, sizeof STALE) < 0) _exit(3);
      if (kind >= 2) a.push_back("/proc/self/fd/" + std::to_string(in));
      if (kind >= 3) a.push_back("/proc/self/fd/" + std::to_string(out));
      if ((int)a.size() >= g_argc) _exit(3);
      for (int i = 0; i <= (int)a.size(); i++) g_argv[i] = i < (int)a.size() ? strdup(a[(size_t)i].c_str()) : nullptr;
      begin(io, j, kind);
      ret = P[t]();
    }
    fflush(stdout);  // what the end of a program does, failing or not
    g_io = nullptr;
    return ret;
  };
}
}  // namespace

int main(int argc, char **argv) {
  // The Rust runtime keeps the argument vector of the process: make room in it.
  if (argc < SLOTS) {
    std::vector<char *> v(argv, argv + argc);
    static char pad[] = "--pad", no[] = "0";
    while (v.size() < SLOTS + 2) { v.push_back(pad); v.push_back(no); }
    v.push_back(nullptr);
    execv("/proc/self/exe", v.data());
    perror("execv"); return 3;
  }
  g_argv = argv; g_argc = argc;
  std::vector<char *> keep(argv, argv + argc);
  keep.push_back(nullptr);
  program = make;
  return verif_main(argc, keep.data());
}
