#!/bin/bash
# run.sh REPO testfile... : compile a check test with the shim
R=$1; shift
cd /tmp/ct; mkdir -p o
echo 'int ck_fail; const char*ck_cur="?";' > g.c
printf '#define RELATIVE_PATH_PREFIX "%s"\n' "$(dirname $1)" > inc/config.h
INC="-Iinc -I/verif/shim/include $(for d in gnss_converters gnss_converters_extra librtcm libubx libixcom nov2sbp rtcm3tosbp ubx2sbp ixcom2sbp sbp2rtcm; do for s in include src parser; do [ -d $R/c/$d/$s ] && echo -I$R/c/$d/$s; done; done)"
SR=$(find $R/c/{gnss_converters,gnss_converters_extra,librtcm,libubx,libixcom}/src $R/c/{rtcm3tosbp,ubx2sbp,ixcom2sbp,sbp2rtcm}/src -name '*.c' ! -name '*_main.c')
clang -w -Wno-incompatible-function-pointer-types -g -O1 -fsanitize=address,undefined -fno-sanitize=function,vla-bound,float-cast-overflow,shift $INC -I$(dirname $1) "$@" g.c $SR /verif/shim/src/*.c /verif/shim/gen/*.c -lm -lpthread -o o/t && ASAN_OPTIONS=detect_leaks=0 o/t
