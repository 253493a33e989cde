#!/bin/bash
# Compiles the library from the current directory together with demo.c and runs it: 0 means the property held.
set -u
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 99
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/gen/mbelib-neo"
sed 's/@[A-Za-z_]*@/9.9.9/g' include/mbelib-neo/version.h.in > "$w/gen/mbelib-neo/version.h"
[ -f "$here/flags" ] && flags=$(cat "$here/flags") || flags="-O1 -DPFFFT_SIMD_DISABLE=1"
srcs=$(find src -name '*.c' | sort)
gcc -g -w -ffp-contract=off $flags -DMBE_BUILDING -Iinclude -I"$w/gen" -Isrc/internal -Isrc/external/pffft -I"$here" \
    $srcs "$here/demo.c" -o "$w/demo" -lm -lpthread || exit 98
timeout 250 "$w/demo"
