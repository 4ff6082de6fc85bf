#!/bin/bash
# Builds the instrumenter, the symbolic runtime and the native replay runtime into /verif/build/engine.
set -e
cd "$(dirname "$0")"
OUT=${1:-../build/engine}; mkdir -p "$OUT"
Z3=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
stamp=$(cat instr.cpp runtime.cpp native.cpp vs.h build_engine.sh | sha256sum | cut -c1-32)
[ -f "$OUT/stamp" ] && [ "$(cat "$OUT/stamp")" = "$stamp" ] && [ -x "$OUT/vgsym-instr" ] && [ -f "$OUT/runtime.o" ] && [ -f "$OUT/native.o" ] && exit 0
T=$(mktemp -d "$OUT/tmp.XXXXXX")
clang++-18 -O1 -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-std=c++17//') -fexceptions instr.cpp -o "$T/vgsym-instr" $(llvm-config-18 --ldflags) -lLLVM-18 &
p1=$!
clang++-18 -O2 -std=c++17 -I$Z3/include -c runtime.cpp -o "$T/runtime.o" &
p2=$!
g++ -O1 -std=gnu++98 -c native.cpp -o "$T/native.o" &
p3=$!
wait $p1; wait $p2; wait $p3
# the runtime keeps its own copies of library templates: sharing them with the instrumented harness would execute the runtime symbolically
ld -r --force-group-allocation "$T/runtime.o" -o "$T/runtime1.o"
objcopy -w --localize-symbol='!_Zd[la]Pv*' --localize-symbol='_Z*' "$T/runtime1.o" "$T/runtime.o"; rm -f "$T/runtime1.o"
mv -f "$T/vgsym-instr" "$T/runtime.o" "$T/native.o" "$OUT/"; rmdir "$T"
echo "$stamp" > "$OUT/stamp"
