#!/bin/bash
# Builds rsym into $1 (default /verif/.build/engine)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../.build/engine}"; mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
CXX="clang++-18"; command -v $CXX >/dev/null || CXX=g++
FL="-std=c++17 -O2 -g0 -w -I$D -I/usr/lib/llvm-18/include -I$Z/include -fno-rtti -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver main; do $CXX $FL -fexceptions -c "$D/$f.cpp" -o "$OUT/$f.o" & done; wait
$CXX -o "$OUT/rsym" "$OUT/expr.o" "$OUT/solver.o" "$OUT/main.o" -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18 "$Z/lib/libz3.so" -Wl,-rpath,$Z/lib -lpthread
