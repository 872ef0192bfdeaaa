#!/bin/bash
# Builds the extractor with the system clang 18 libraries. Output: $1
set -e
cd "$(dirname "$0")"
out="$1"
mkdir -p "$(dirname "$out")"
L=/usr/lib/llvm-18/lib
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  -I/usr/lib/llvm-18/include extract.cpp -o "$out.tmp.$$" "$L"/libclang-cpp.so.18.1 "$L"/libLLVM.so.1* -Wl,-rpath,"$L"
mv "$out.tmp.$$" "$out"
