#!/bin/bash
# Builds the program extractor (a clang LibTooling program) from /verif/tool. Offline, ~40 s.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/extract ] || [ tool/extract.cpp -nt build/extract ]; then
  T=build/extract.$$
  clang++ -std=c++17 -O1 -fno-rtti -fno-exceptions $(llvm-config-18 --cppflags) tool/extract.cpp -o "$T" \
    -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv "$T" build/extract
fi
# precompiled third-party headers (nothing of /repo); without it the checks parse everything, only slower
if [ ! -f build/pre.pch ] || [ tool/pre.h -nt build/pre.pch ]; then
  clang++ -x c++-header -std=gnu++14 -mssse3 -DENABLE_TIMING=FALSE -DENABLE_STATISTICS=FALSE -Wno-everything \
    -isystem /usr/include/opencv4 -isystem /usr/include/eigen3 tool/pre.h -o build/pre.$$.pch && mv build/pre.$$.pch build/pre.pch \
    || rm -f build/pre.$$.pch
fi
echo "setup done"
