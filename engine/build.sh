#!/bin/bash
# builds the symbolic executor into $1
set -e
out=${1:?output directory}; here=$(cd "$(dirname "$0")" && pwd); mkdir -p "$out"
CXXF="-std=c++17 -O2 -g0 $(llvm-config-18 --cppflags) -fexceptions -Wno-unused"
for f in expr symex bcwriter; do
  if [ ! "$out/$f.o" -nt "$here/$f.cpp" ] || [ -n "$(find "$here" -newer "$out/$f.o" -name '*.inc' -o -newer "$out/$f.o" -name '*.hpp')" ]; then clang++-18 $CXXF -I"$here" -c "$here/$f.cpp" -o "$out/$f.o" & fi
done
wait
clang++-18 -O2 "$out"/{expr,symex,bcwriter}.o -o "$out/symex.tmp" $(llvm-config-18 --ldflags) -lLLVM-18 -lz3
mv "$out/symex.tmp" "$out/symex"
