#!/bin/bash
# builds the exporter plugin; idempotent
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/build; mkdir -p $out
if [ ! -f $out/nlcgx.so ] || [ $here/export.cpp -nt $out/nlcgx.so ]; then
  clang++ -std=c++17 -O0 -fno-rtti -fPIC -shared -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS \
    $here/export.cpp -o $out/nlcgx.so.tmp.$$
  mv $out/nlcgx.so.tmp.$$ $out/nlcgx.so
fi
