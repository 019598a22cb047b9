#!/bin/bash
# builds the symbolic executor: build.sh OUTDIR
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:?}; mkdir -p "$O"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z/lib/libz3.so ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=""; ZL="-lz3"; fi
for f in engine expr solver; do g++ -std=c++17 -O2 -w -fexceptions $ZI -I/usr/lib/llvm-18/include -c $D/$f.cpp -o $O/$f.o & done; wait
g++ $O/engine.o $O/expr.o $O/solver.o -o $O/jsym -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL
rm -f $O/*.o
