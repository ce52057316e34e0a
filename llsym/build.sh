#!/bin/bash
# build.sh OUTDIR: builds the symbolic executor
set -e
cd "$(dirname "$0")"; o=$1; mkdir -p "$o"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-I$Z/include -std=c++17 -O2 -g0 -fno-rtti $(llvm-config-18 --cppflags)"
for f in expr solver sweep decode r1cs lemma main; do
  if [ ! -f "$o/$f.o" ] || [ $f.cpp -nt "$o/$f.o" ] || [ expr.h -nt "$o/$f.o" ] || [ exec.h -nt "$o/$f.o" ] || [ code.h -nt "$o/$f.o" ] || [ solver.h -nt "$o/$f.o" ]; then g++ $F -c $f.cpp -o "$o/$f.o.tmp" && mv "$o/$f.o.tmp" "$o/$f.o" & fi
done
wait
g++ -o "$o/llsym.tmp" "$o"/{expr,solver,sweep,decode,r1cs,lemma,main}.o $(llvm-config-18 --ldflags) -lLLVM-18 -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -lpthread
mv "$o/llsym.tmp" "$o/llsym"
