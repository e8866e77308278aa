#!/bin/bash
# Builds the exporter from its committed source. Output: /verif/build (ignored by git).
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$D/build"
[ -x "$D/build/xport" ] && [ "$D/build/xport" -nt "$D/tool/xport.cpp" ] && exit 0
T="$D/build/xport.$$"
g++ -O1 -std=c++17 -fno-rtti -fno-exceptions -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$D/tool/xport.cpp" -o "$T" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$T" "$D/build/xport"
