#!/bin/sh
# builds the fact exporter: build.sh [OUT]
set -e
cd "$(dirname "$0")"
OUT=${1:-$PWD/bin/dlbfacts}
mkdir -p "$(dirname "$OUT")"
L=/usr/lib/llvm-18
g++ -O1 -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
   dlbfacts.cpp -o "$OUT.$$" /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -L$L/lib -lLLVM-18
mv "$OUT.$$" "$OUT"
