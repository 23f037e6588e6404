#ifndef SHIM_SWIFTNAV_CONSTANTS_H
#define SHIM_SWIFTNAV_CONSTANTS_H
#include <math.h>
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#define R2D (180.0 / M_PI)
#define D2R (M_PI / 180.0)
#define GPS_PI 3.1415926535898
#define GPS_C 299792458.0
#define GPS_F (-4.442807633e-10)
#define GPS_L1_HZ 1.57542e9
#define GPS_L2_HZ 1.22760e9
#define GPS_L5_HZ 1.17645e9
#define SBAS_L1_HZ GPS_L1_HZ
#define SBAS_L5_HZ GPS_L5_HZ
#define QZS_L1_HZ GPS_L1_HZ
#define QZS_L2_HZ GPS_L2_HZ
#define QZS_L5_HZ GPS_L5_HZ
#define GAL_E1_HZ GPS_L1_HZ
#define GAL_E5_HZ GPS_L5_HZ
#define GAL_E6_HZ 1.27875e9
#define GAL_E7_HZ 1.20714e9
#define GAL_E8_HZ 1.191795e9
#define BDS2_B11_HZ 1.561098e9
#define BDS2_B2_HZ 1.20714e9
#define BDS3_B1C_HZ GPS_L1_HZ
#define BDS3_B5_HZ GPS_L5_HZ
#define BDS3_B7_HZ 1.20714e9
#define BDS3_B3_HZ 1.26852e9
#define GLO_L1_HZ 1.602e9
#define GLO_L2_HZ 1.246e9
#define GLO_L1_DELTA_HZ 5.625e5
#define GLO_L2_DELTA_HZ 4.375e5
#define WGS84_A 6378137.0
#define WGS84_IF 298.257223563
#define WGS84_F (1 / WGS84_IF)
#define WGS84_E (sqrt(2 * WGS84_F - WGS84_F * WGS84_F))
#endif
