#!/bin/bash
# Builds the extractor (LibTooling) into /verif/build.  Offline; uses only installed tools.
set -e
cd "$(dirname "$0")/.."
mkdir -p build
if [ ! -x build/cxx2json ] || [ extract/cxx2json.cpp -nt build/cxx2json ]; then
  T=build/cxx2json.$$
  clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cppflags 2>/dev/null || echo -I/usr/lib/llvm-18/include) extract/cxx2json.cpp -o $T -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv $T build/cxx2json
fi
