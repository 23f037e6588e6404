// Independent reading and writing of UBX frames.
#pragma once
#include <cmath>
#include "sim.h"
namespace sim {
inline void le(Bytes &b, uint64_t v, int n) { for (int i = 0; i < n; i++) b.push_back((uint8_t)(v >> (8 * i))); }
inline void lef(Bytes &b, float f) { uint32_t u; memcpy(&u, &f, 4); le(b, u, 4); }
inline void led(Bytes &b, double f) { uint64_t u; memcpy(&u, &f, 8); le(b, u, 8); }
inline void ubx_ck(const Bytes &b, size_t from, size_t to, uint8_t *a, uint8_t *k) { *a = *k = 0; for (size_t i = from; i < to; i++) { *a = (uint8_t)(*a + b[i]); *k = (uint8_t)(*k + *a); } }
inline Bytes ubx_frame(int cls, int id, const Bytes &pay) {
  Bytes b = {0xB5, 0x62, (uint8_t)cls, (uint8_t)id, (uint8_t)pay.size(), (uint8_t)(pay.size() >> 8)};
  b.insert(b.end(), pay.begin(), pay.end());
  uint8_t x, y; ubx_ck(b, 2, b.size(), &x, &y);
  b.push_back(x); b.push_back(y);
  return b;
}
struct UbxF { int cls, id; Bytes p; size_t at, end; };
// The frames in a stream: after the sync characters the header is consumed if
// its length cannot be right, and the claimed bytes if the checksum is wrong.
inline std::vector<UbxF> ubx_deframe(const Bytes &s) {
  std::vector<UbxF> out;
  size_t i = 0, n = s.size();
  while (i < n) {
    if (s[i] != 0xB5) { i++; continue; }
    size_t at = i;
    while (i < n && s[i] == 0xB5) { at = i; i++; }
    if (i >= n) break;
    if (s[i] != 0x62) { i++; continue; }
    i++;
    if (i + 4 > n) break;
    size_t len = s[i + 2] | (size_t)s[i + 3] << 8;
    if (len > 4090) { i += 4; continue; }
    if (i + 4 + len + 2 > n) break;
    uint8_t x, y; ubx_ck(s, i, i + 4 + len, &x, &y);
    size_t end = i + 6 + len;
    if (s[end - 2] == x && s[end - 1] == y) out.push_back({s[i], s[i + 1], Bytes(s.begin() + (long)i + 4, s.begin() + (long)(i + 4 + len)), at, end});
    i = end;
  }
  return out;
}
}  // namespace sim
