#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
CXXF="-O2 -std=c++17 -fno-strict-aliasing -frounding-math -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -fexceptions"
Z3D=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3D/include/z3.h ] && [ -e $Z3D/lib/libz3.so ]; then ZI="-I$Z3D/include"; ZL="-L$Z3D/lib -Wl,-rpath,$Z3D/lib -lz3"; else ZI=""; ZL="-lz3"; fi
for f in expr solver exec; do clang++ $CXXF $ZI -c $D/$f.cpp -o $O/$f.o & done; wait
for f in expr solver exec; do [ -f $O/$f.o ]; done
clang++ $O/expr.o $O/solver.o $O/exec.o -o $O/vse.tmp $(llvm-config-18 --ldflags --libs core bitreader passes support demangle irreader) $ZL -lpthread
mv $O/vse.tmp $O/vse; rm -f $O/expr.o $O/solver.o $O/exec.o
