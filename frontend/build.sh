#!/bin/bash
# Builds the extraction front end into $1 (about 15 s).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
clang++-18 -O0 -std=c++17 -fno-rtti $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-O[0-9]//') \
  "$here/cxxdump.cpp" -o "$out.tmp.$$" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so
mv "$out.tmp.$$" "$out"
