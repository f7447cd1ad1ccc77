#!/bin/bash
# builds the effect analyser into $1 (default /verif/build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -w "$here/effects.cpp" -o "$out/effects.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18
mv "$out/effects.tmp.$$" "$out/effects"
