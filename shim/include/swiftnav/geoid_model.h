#ifndef SHIM_SWIFTNAV_GEOID_MODEL_H
#define SHIM_SWIFTNAV_GEOID_MODEL_H
#ifdef __cplusplus
extern "C" {
#endif
float get_geoid_offset(double lat_rad, double lon_rad);
#ifdef __cplusplus
}
#endif
#endif
