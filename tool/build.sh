#!/bin/bash
# Builds the fact extractor into $1 (a file name).
set -eu
H=$(dirname "$(readlink -f "$0")")
L=/usr/lib/llvm-20
exec $L/bin/clang++ -O1 -std=c++17 -fno-rtti -fno-exceptions -w -I$L/include \
  -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$H/extract.cpp" -o "$1" $L/lib/libclang-cpp.so.20.1 $L/lib/libLLVM.so -Wl,-rpath,$L/lib
