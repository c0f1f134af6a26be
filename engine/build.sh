#!/bin/bash
# Builds the symbolic executor into /verif/build (ignored by git).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
z3=$(python3-vt -c 'import z3,os;print(os.path.dirname(z3.__file__))')
CXX="g++ -std=c++17 -O2 -g0 -fno-rtti -w -I$z3/include -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -I/usr/lib/llvm-18/include"
CXX=${CXX/-fno-rtti /}
pids=()
for f in algebra expr symx; do
  if [ ! -f "$out/$f.o" ] || [ -n "$(find "$here" -newer "$out/$f.o" -name '*.*' | head -1)" ]; then
    $CXX -c "$here/$f.cc" -o "$out/$f.o.tmp$$" && mv "$out/$f.o.tmp$$" "$out/$f.o" &
    pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait "$p"; done
if [ ! -f "$out/rt.bc" ] || [ "$here/rt/rt.cc" -nt "$out/rt.bc" ]; then
  clang++ -O2 -std=c++17 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pic -w \
    -emit-llvm -c "$here/rt/rt.cc" -o "$out/rt.bc.tmp$$" && mv "$out/rt.bc.tmp$$" "$out/rt.bc"
fi
if [ ! -f "$out/symx" ] || [ -n "$(find "$out" -newer "$out/symx" -name '*.o' | head -1)" ]; then
  g++ "$out"/algebra.o "$out"/expr.o "$out"/symx.o -o "$out/symx.tmp$$" \
    -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$z3/lib" -lz3 -Wl,-rpath,"$z3/lib" \
    -Wl,-rpath,/usr/lib/llvm-18/lib -lgmpxx -lgmp -lpthread
  mv "$out/symx.tmp$$" "$out/symx"
fi
