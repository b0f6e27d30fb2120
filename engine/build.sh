#!/bin/bash
# builds the exporter into /verif/.build (ignored by git)
set -e
D=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$D/.build"
CXXF=$(/usr/lib/llvm-18/bin/llvm-config --cxxflags | sed 's/-std=[^ ]*//;s/-DNDEBUG//')
/usr/bin/clang++ -O1 -std=c++17 -fno-rtti -w $CXXF "$D/engine/irdump.cpp" -o "$D/.build/irdump.tmp" $(/usr/lib/llvm-18/bin/llvm-config --ldflags) -lLLVM-18
mv "$D/.build/irdump.tmp" "$D/.build/irdump"
