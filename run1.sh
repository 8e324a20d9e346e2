#!/bin/bash
# run1.sh harness.cpp entry [symex flags]   (developer helper)
H=$1; E=$2; shift 2
B=/verif/build/$(basename $H .cpp).bc
if [ "$NOC" = "" ]; then
clang++-18 -std=c++17 -O1 -g -fno-vectorize -fno-slp-vectorize -fno-math-errno -D_GLIBCXX_EXTERN_TEMPLATE=0 -w -Xclang -fno-access-control -pthread -emit-llvm -c $CF /verif/harness/$H -o $B || exit 9
fi
/verif/build/symex --bc $B --entry $E "$@"
