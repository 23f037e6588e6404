#include "harness.h"
#include <cstdio>
#include <fstream>
#include <sstream>
using namespace sim;

// The system clock and the allocator the converters see (linked with --wrap).
#include <ctime>
extern "C" {
int64_t sim_clock = 1700000000;
int sim_malloc_fail = 0;
void *__real_malloc(size_t n);
void *__wrap_malloc(size_t n) { return sim_malloc_fail ? nullptr : __real_malloc(n); }
time_t __wrap_time(time_t *t) { if (t) *t = (time_t)sim_clock; return (time_t)sim_clock; }
}

int verif_main(int argc, char **argv) {
  libc_checks(false);
  std::vector<Harness *> hs = {make_rtcm(), make_ubx(), make_ixcom(), make_nov(), make_sbprtcm(), make_nmea(), make_all()};
  std::string prop, want;
  for (int i = 1; i + 1 < argc; i++) {
    if (!strcmp(argv[i], "--check")) prop = argv[i + 1];
    if (!strcmp(argv[i], "--harness")) want = argv[i + 1];
    if (!strcmp(argv[i], "--replay")) {
      std::ifstream f(argv[i + 1]);
      std::string l, k;
      while (std::getline(f, l)) { std::istringstream is(l); is >> k; if (k == "harness") is >> want; if (k == "ops") break; }
    }
  }
  for (auto *h : hs) {
    if (!want.empty()) { if (want == h->name()) return sim_main(argc, argv, *h); continue; }
    for (auto &p : h->properties()) if (p == prop) return sim_main(argc, argv, *h);
  }
  fprintf(stderr, "no harness for property %s\n", prop.c_str());
  return 3;
}
