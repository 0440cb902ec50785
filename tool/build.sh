#!/bin/bash
# Builds the source-model extractor from extract.cpp into /verif/build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
LLVM=/usr/lib/llvm-18
if [ -x "$out/extract" ] && [ "$out/extract" -nt "$here/extract.cpp" ]; then
    exit 0
fi
$LLVM/bin/clang++ -std=c++17 -O1 -fno-rtti -I$LLVM/include \
    -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
    "$here/extract.cpp" -o "$out/extract.tmp" \
    $LLVM/lib/libclang-cpp.so.18.1 $LLVM/lib/libLLVM.so.18.1 \
    -Wl,-rpath,$LLVM/lib
mv "$out/extract.tmp" "$out/extract"
