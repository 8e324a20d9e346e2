#!/bin/bash
# builds the symbolic executor; needs only the pre-installed LLVM-18 headers, gmp
set -e
cd "$(dirname "$0")"
OUT=${1:-../build/symex}
mkdir -p "$(dirname "$OUT")"
LC=$(command -v llvm-config-18 || echo /usr/lib/llvm-18/bin/llvm-config)
g++ -std=c++17 -O2 -w -I$($LC --includedir) symex.cpp -o "$OUT.tmp" $($LC --ldflags) -lLLVM-18 -lgmpxx -lgmp -lpthread
mv "$OUT.tmp" "$OUT"
