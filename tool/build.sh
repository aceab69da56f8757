#!/bin/bash
# builds /verif/tool/irdump (LLVM 18, C++17)
set -e
cd "$(dirname "$0")"
[ -x irdump ] && [ irdump -nt irdump.cpp ] && exit 0
c++ -O1 -std=c++17 -fno-rtti -Wno-comment $(llvm-config-18 --cppflags) irdump.cpp -o irdump.tmp $(llvm-config-18 --ldflags) -lLLVM-18 || \
clang++-18 -O1 -std=c++17 -fno-rtti $(llvm-config-18 --cppflags) irdump.cpp -o irdump.tmp $(llvm-config-18 --ldflags) -lLLVM-18
mv irdump.tmp irdump
