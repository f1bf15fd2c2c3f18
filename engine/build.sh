#!/bin/bash
# builds the engine into $1
set -e
cd "$(dirname "$0")"; mkdir -p "$1"
CF="$(llvm-config-18 --cxxflags | sed 's/-std=c++17//; s/-fno-exceptions//') -std=c++17 -O2 -g0 -fexceptions -Wno-unused"
for f in expr solver symx; do g++ $CF -c $f.cpp -o $1/$f.o & done; wait
g++ -o $1/symx.tmp $1/expr.o $1/solver.o $1/symx.o $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv $1/symx.tmp $1/symx
