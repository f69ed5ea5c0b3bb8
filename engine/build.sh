#!/bin/bash
# Build the symbolic executor (offline; LLVM 18 from the system, z3 from the tools venv or the system).
set -e
cd "$(dirname "$0")"
mkdir -p ../build
sum=$(cat *.cpp *.h build.sh | sha256sum | cut -c1-16)
if [ -x ../build/psym ] && [ "$(cat ../build/psym.sum 2>/dev/null)" = "$sum" ]; then exit 0; fi
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -z "$PSYM_OLDZ3" ] && [ -f $Z/lib/libz3.so ] && [ -f $Z/include/z3.h ]; then ZI="-I$Z/include"; ZL="$(ls $Z/lib/libz3.so.* | head -1) -Wl,-rpath,$Z/lib"; else ZI=; ZL=-lz3; fi
O=../build/o.$$; mkdir -p $O
CXX="g++ -O2 -g1 -std=c++17 -fno-rtti -Wno-deprecated $ZI -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_LIMIT_MACROS"
$CXX -c expr.cpp -o $O/expr.o & p1=$!
$CXX -c solver.cpp -o $O/solver.o & p2=$!
$CXX -c psym.cpp -o $O/psym.o & p3=$!
wait $p1; wait $p2; wait $p3
g++ $O/expr.o $O/solver.o $O/psym.o -o $O/psym -L/usr/lib/llvm-18/lib -lLLVM-18 $ZL -lpthread
mv $O/psym ../build/psym
echo "$sum" > ../build/psym.sum
rm -f $O/expr.o $O/solver.o $O/psym.o; rmdir $O
