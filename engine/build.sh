#!/bin/bash
# builds the symbolic executor into $1 (default /verif/build)
set -e
D=$(cd "$(dirname "$0")" && pwd); O=${1:-$D/../build}; mkdir -p "$O"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
if [ -f $Z3/lib/libz3.so ]; then ZI=-I$Z3/include; ZL="$Z3/lib/libz3.so -Wl,-rpath,$Z3/lib"; else ZI=; ZL=-lz3; fi
CX="$(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//; s/-std=c++[0-9]*//; s/-DNDEBUG//')"
g++ -std=c++20 -O2 -w $CX -fexceptions $ZI -c $D/exec.cpp -o $O/exec.o &
g++ -std=c++20 -O2 -w $ZI -c $D/solver.cpp -o $O/solver.o &
g++ -std=c++20 -O2 -w -c $D/expr.cpp -o $O/expr.o &
wait %1; wait %2; wait %3
g++ $O/exec.o $O/solver.o $O/expr.o -o $O/hsx.tmp $(llvm-config-18 --ldflags --libs core irreader bitreader asmparser support binaryformat) $ZL -lpthread -ldl
mv $O/hsx.tmp $O/hsx
rm -f $O/exec.o $O/solver.o $O/expr.o
