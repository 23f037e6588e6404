#ifndef SHIM_SWIFTNAV_PVT_RESULT_H
#define SHIM_SWIFTNAV_PVT_RESULT_H
#include <swiftnav/nav_meas.h>
#include <swiftnav/signal.h>
#define POSITION_MODE_MASK 0x7
#define VELOCITY_MODE_MASK 0x7
#define TIME_SOURCE_MASK 0x7
#define POSITION_MODE_NONE 0
#define POSITION_MODE_SPP 1
#define POSITION_MODE_DGNSS 2
#define POSITION_MODE_FLOAT 3
#define POSITION_MODE_FIXED 4
#define POSITION_MODE_DEAD_RECKONING 5
#define POSITION_MODE_SBAS 6
#define VELOCITY_MODE_NONE 0
#define VELOCITY_MODE_MEAS_DOPPLER 1
#define VELOCITY_MODE_COMP_DOPPLER 2
#define VELOCITY_MODE_DEAD_RECKONING 3
#endif
