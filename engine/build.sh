#!/bin/bash
# Builds the symbolic executor (symir) into /verif/build/ (or $1).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e "$Z/lib/libz3.so" ] && [ -e "$Z/include/z3++.h" ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
CF="-std=c++17 -O2 -ffp-contract=off -fno-fast-math -w -I/usr/lib/llvm-18/include -D__STDC_LIMIT_MACROS -D__STDC_CONSTANT_MACROS -fno-rtti"
cd "$here"
g++ $CF -frtti -c expr.cpp -o "$out/expr.o" & p1=$!
g++ $CF -frtti $ZI -c solver.cpp -o "$out/solver.o" & p2=$!
g++ $CF -frtti -c exec.cpp -o "$out/exec.o" & p3=$!
wait $p1; wait $p2; wait $p3
g++ "$out/expr.o" "$out/solver.o" "$out/exec.o" -o "$out/symir.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
mv "$out/symir.tmp" "$out/symir"
