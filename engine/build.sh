#!/bin/bash
# builds the engine: build.sh OUTDIR
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="$1"; mkdir -p "$O"
clang++ -std=c++20 -O2 -g1 -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$D/main.cpp" -o "$O/engine.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$O/engine.tmp" "$O/engine"
