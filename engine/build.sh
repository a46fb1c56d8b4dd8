#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
cd "$(dirname "$0")"
out=${1:-../build}; mkdir -p "$out"
CXXF="-std=c++17 -O2 -fno-rtti -fexceptions -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
p=()
g++ -std=c++17 -O2 -c expr.cpp -o "$out/expr.o" & p+=($!)
g++ -std=c++17 -O2 -c solver.cpp -o "$out/solver.o" & p+=($!)
g++ $CXXF -c exec.cpp -o "$out/exec.o" & p+=($!)
for q in "${p[@]}"; do wait $q; done
g++ "$out/expr.o" "$out/solver.o" "$out/exec.o" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -o "$out/symx.tmp"
mv "$out/symx.tmp" "$out/symx"
