#!/bin/sh
# builds the engine: build.sh OUT   (links the newer z3 of the python tooling when it is there)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/vfse}
L=/usr/lib/llvm-18
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -e $Z/lib/libz3.so ] && [ -e $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="$Z/lib/libz3.so -Wl,-rpath,$Z/lib"; else ZI=; ZL=-lz3; fi
clang++ -std=c++17 -O2 -w $ZI -I$L/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS "$D/vfse.cpp" "$D/expr.cpp" -o "$O" -L$L/lib -lLLVM-18 $ZL -Wl,-rpath,$L/lib
