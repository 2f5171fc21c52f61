#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build/nzsym)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/nzsym}
mkdir -p "$(dirname "$out")"
tmp=$out.tmp.$$
g++ -O2 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE \
  "$here/nzsym.cpp" -o "$tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$tmp" "$out"
