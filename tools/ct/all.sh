R=${1:-/repo}
for t in "rtcm3tosbp:check_rtcm3.c check_rtcm3_main.c check_rtcm3_ssr.c check_rtcm3_time.c" ubx2sbp:check_ubx2sbp.c ixcom2sbp:check_ixcom2sbp.c libubx:"check_main.c check_ubx.c" libixcom:"check_main.c check_ixcom.c" "gnss_converters:check_nmea.c check_nmea_gpths.c check_options.c check_time_truth.c check_gnss_converters_main.c"; do T=$R/c/${t%%:*}/test; fs=; for f in ${t#*:}; do fs="$fs $T/$f"; done; echo == $t; timeout 600 ./run.sh $R $fs 2>&1 | grep -v '^ok\|sat:\|checked\|SUMMARY' | cut -c1-220|  head -${N:-60}; done
