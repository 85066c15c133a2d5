#!/bin/bash
# builds the IR dumper used by every check
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ ! -x build/irdump ] || [ tool/irdump.cpp -nt build/irdump ]; then
  /usr/bin/clang++-18 -O1 $(/usr/bin/llvm-config-18 --cxxflags) -std=c++17 -fno-rtti tool/irdump.cpp -o build/irdump.tmp$$ \
    -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
  mv build/irdump.tmp$$ build/irdump
fi
