#!/bin/bash
# builds the IR analysis engine into /verif/build (git-ignored)
set -e
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$D/../build"
clang++-18 -std=c++17 -O1 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') "$D/sa_engine.cpp" -o "$D/../build/sa_engine.tmp" $(llvm-config-18 --ldflags) -lLLVM-18
mv "$D/../build/sa_engine.tmp" "$D/../build/sa_engine"
