#!/bin/bash
# builds llsym into /verif/build/llsym (or $1)
set -e
D="$(cd "$(dirname "$0")" && pwd)"; OUT="${1:-$D/../build}"; mkdir -p "$OUT"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
g++ -std=c++17 -O2 -w -fno-rtti -I"$Z/include" $(llvm-config-18 --cxxflags 2>/dev/null | sed 's/-fno-exceptions//;s/-std=[^ ]*//;s/-DNDEBUG//') -fexceptions "$D/llsym.cpp" -o "$OUT/llsym" \
  $(llvm-config-18 --ldflags) -lLLVM-18 -L"$Z/lib" -l:libz3.so -Wl,-rpath,"$Z/lib" -lgmpxx -lgmp -lgsl -lgslcblas -ldl
