#include "tool.h"
#include <unistd.h>
namespace sim {
static ssize_t only_asserts(void *, const char *b, size_t n) {
  static const char A[] = "Assertion `";
  if (memmem(b, n, A, sizeof A - 1)) { if (write(2, b, n) < 0) {} }
  return (ssize_t)n;
}
void quiet_stderr() {
  static FILE *f;
  if (!f) {
    cookie_io_functions_t io = {nullptr, only_asserts, nullptr, nullptr};
    f = fopencookie(nullptr, "w", io);
    if (!f) return;
    setvbuf(f, nullptr, _IOLBF, 4096);
  }
  stderr = f;
}
Entry (*program)(const Job &, int kind) = nullptr;
void IO::_exit_hang() { _exit(98); }

ToolRun decode_run(const SubOut &so) {
  ToolRun r;
  r.so = so;
  size_t i = 0;
  while (i + 5 <= so.data.size()) {
    char t = (char)so.data[i];
    uint32_t n = (uint32_t)rd(so.data, i + 1, 4);
    i += 5;
    if (i + n > so.data.size()) break;
    const uint8_t *d = so.data.data() + i;
    if (t == 'O') r.out.insert(r.out.end(), d, d + n);
    else if (t == 'R') { uint64_t v[2]; memcpy(v, d, 16); r.reads.push_back({(size_t)v[0], (size_t)v[1]}); }
    else if (t == 'E') r.end_reads++;
    else if (t == 'W') r.wafter++;
    else if (t == 'F') r.wfailed = true;
    else if (t == 'X') { int32_t v; memcpy(&v, d, 4); r.ret = v; r.returned = true; }
    i += n;
  }
  if (so.exited && so.code == 98) { r.so.hang = true; r.so.crash_key = "reads again and again at end of input"; r.so.crash_text = "more than 200 read calls after the end of input or a read error was reported"; }
  return r;
}
ToolRun run_tool(Ctx &c, const IOPlan &p, const Entry &e, double cpu_s) {
  SubOut so = c.sub([&](std::function<void(const void *, size_t)> sink) {
    IO io(p, sink);
    int32_t ret = e(io);
    io.rec('X', &ret, 4);
  }, cpu_s);
  ToolRun r = decode_run(so);
  return r;
}
}  // namespace sim
