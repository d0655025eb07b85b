#!/bin/bash
# builds the IR lowering tool
set -e
cd "$(dirname "$0")"
mkdir -p ../build
g++ -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cppflags) irdump.cpp -o ../build/irdump.tmp $(llvm-config-18 --ldflags) -lLLVM-18
mv ../build/irdump.tmp ../build/irdump
