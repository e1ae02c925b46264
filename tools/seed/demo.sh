#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
ninja -C _build libdlb_test.a >/dev/null 2>&1
if [ -f _build/libdlb_test.a ]; then L="_build/libdlb_test.a _build/libdlb_common.a"; else L="$(ls _build/libdlb.so.p/*.o) _build/libdlb_common.a"; fi
gcc -w -O1 -g -D_GNU_SOURCE -DHAVE_CONFIG_H -I_build -I_build/src -I_build/src/apis -Isrc -Isrc/apis -I"$D" "$D/demo.c" -o "$T/demo" -Wl,--start-group $L -Wl,--end-group $(cd _build && ninja -t commands libdlb.so 2>/dev/null | tail -1 | grep -o -- '[^ ]*lib\(hwloc\|papi\)[^ ]*\.so\|-l\(hwloc\|papi\)' | sort -u) -lpthread -lrt -ldl -lm >"$T/cc" 2>&1 || { head -20 "$T/cc"; exit 3; }
timeout 240 "$T/demo"
