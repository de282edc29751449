#!/bin/bash
# Builds the sources in the current directory's src with the demonstration, and runs it: 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -r "$t"' EXIT
FL="-m32 -std=c++17 -w -O0 -g -msse2 -mfpmath=sse -fno-rtti -fno-exceptions -fsingle-precision-constant -fsanitize=address -D_GNU_SOURCE -DCONFIG_C3P_CBOR -DCONFIG_C3P_M2M_SUPPORT -DCONFIG_C3P_IMG_SUPPORT -DCONFIG_C3P_TRACE_ENABLED -Isrc"
find src -name '*.cpp' | xargs -P8 -I@ sh -c 'g++ '"$FL"' -c @ -o "'"$t"'/$(echo @ | tr / _).o" 2>/dev/null || true'
ar rcs "$t/lib.a" "$t"/*.o || exit 3
g++ $FL -I"$here" "$here/demo.cpp" "$here/demo_plat.cpp" "$t/lib.a" -lm -o "$t/demo" || exit 3
ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 60 "$t/demo"
