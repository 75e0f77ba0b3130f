#!/bin/bash
# Builds the analyser front end (mpdump) from the committed sources.
set -e
cd "$(dirname "$0")"
mkdir -p build
if [ build/mpdump -nt tool/mpdump.cpp ]; then exit 0; fi
T=build/mpdump.$$
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -o $T tool/mpdump.cpp \
  -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -Wl,-rpath,/usr/lib/llvm-18/lib -lLLVM-18
mv $T build/mpdump
