#ifndef SHIM_SWIFTNAV_FLOAT_EQ_H
#define SHIM_SWIFTNAV_FLOAT_EQ_H
#include <float.h>
#include <math.h>
#include <stdbool.h>
#define FLOAT_EQUALITY_EPS FLT_EPSILON
static inline bool float_equal(double a, double b) { return fabs(a - b) < FLOAT_EQUALITY_EPS; }
static inline bool double_equal(double a, double b) { return fabs(a - b) < 1e-12; }
static inline bool double_within(double a, double b, double tol) { return fabs(a - b) < tol; }
#endif
