// All harnesses linked into the `verif` binary.
#pragma once
#include "sim.h"
namespace sim {
Harness *make_rtcm();
Harness *make_ubx();
Harness *make_ixcom();
Harness *make_nov();
Harness *make_sbprtcm();
Harness *make_nmea();
Harness *make_all();
}
