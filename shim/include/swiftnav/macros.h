#ifndef SHIM_SWIFTNAV_MACROS_H
#define SHIM_SWIFTNAV_MACROS_H
#define SWIFT_ATTR_PACKED __attribute__((packed))
#define SWIFT_ATTR_WEAK __attribute__((weak))
#define SWIFT_ATTR_DEPRECATED __attribute__((deprecated))
#define SWIFT_ATTR_FORMAT(str, first) __attribute__((format(printf, str, first)))
#ifndef MIN
#define MIN(x, y) (((x) < (y)) ? (x) : (y))
#endif
#ifndef MAX
#define MAX(x, y) (((x) > (y)) ? (x) : (y))
#endif
#ifndef CLAMP_DIFF
#define CLAMP_DIFF(a, b) (MAX((a), (b)) - (b))
#endif
#ifndef ARRAY_SIZE
#define ARRAY_SIZE(arr) (sizeof(arr) / sizeof((arr)[0]))
#endif
#ifndef MODULO
#define MODULO(val, mod) (((val) % (mod) + (mod)) % (mod))
#endif
#ifndef STRNCPY
#define STRNCPY(dst, src) strncpy(dst, src, sizeof(dst))
#endif
#define FOR_EACH_CONST(...)
#endif
