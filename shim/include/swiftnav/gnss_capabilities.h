#ifndef SHIM_SWIFTNAV_GNSS_CAPABILITIES_H
#define SHIM_SWIFTNAV_GNSS_CAPABILITIES_H
#include <swiftnav/signal.h>
/* BeiDou GEO satellites broadcast D2: C01..C05 and C59..C63 */
#define GNSS_CAPB_BDS_D2NAV (0x000000000000001fULL | (0x1fULL << 58))
#endif
