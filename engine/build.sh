#!/bin/bash
# builds the analyser into $1 (default /verif/build)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="${1:-$here/../build}"
mkdir -p "$out"
clang++-18 -O2 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -w "$here/absint.cpp" -o "$out/absint.tmp.$$" $(llvm-config-18 --ldflags) -lLLVM-18
mv "$out/absint.tmp.$$" "$out/absint"
