#!/bin/bash
# builds the engine into /verif/build (idempotent)
set -e
D=$(cd "$(dirname "$0")" && pwd)
B=${1:-$D/../build}
mkdir -p "$B"
H=$(cat "$D"/*.cpp "$D"/*.h | sha256sum | cut -c1-16)
if [ -x "$B/csym" ] && [ "$(cat "$B/csym.hash" 2>/dev/null)" = "$H" ]; then exit 0; fi
T=$(mktemp -d "$B/tmp.XXXXXX")
FL="$(llvm-config-18 --cxxflags | sed 's/-std=c++17//; s/-fno-exceptions//') -std=c++20 -fexceptions -O2 -w"
clang++-18 $FL -c "$D/expr.cpp" -o "$T/expr.o" &
clang++-18 $FL -c "$D/csym.cpp" -o "$T/csym.o"
wait
clang++-18 "$T/expr.o" "$T/csym.o" -o "$T/csym" $(llvm-config-18 --ldflags --libs core irreader bitreader support demangle) -lz3
mv "$T/csym" "$B/csym"
echo "$H" > "$B/csym.hash"
rm -rf "$T"
