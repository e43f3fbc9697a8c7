#!/bin/bash
# builds the symx engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); OUT=${1:-$D/../build}; mkdir -p "$OUT"
INC=$(llvm-config-18 --includedir); LD=$(llvm-config-18 --libdir)
CXX=/usr/bin/g++
cd "$D/src"
F="-std=c++17 -O2 -fno-strict-aliasing -Wno-deprecated-declarations -I$INC -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
$CXX $F -c expr.cpp -o "$OUT/expr.o" & p1=$!
$CXX $F -c solver.cpp -o "$OUT/solver.o" & p2=$!
$CXX $F -fno-exceptions -c engine.cpp -o "$OUT/engine.o" & p3=$!
wait $p1; wait $p2; wait $p3
$CXX -o "$OUT/symx.new" "$OUT/expr.o" "$OUT/solver.o" "$OUT/engine.o" -L$LD -lLLVM-18 -lz3 -lpthread
mv "$OUT/symx.new" "$OUT/symx"
