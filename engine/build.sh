#!/bin/bash
# builds the symbolic executor into /verif/build (only if its sources changed)
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/../build; mkdir -p "$B"
H=$(cat "$D"/*.h "$D"/*.cc "$D"/build.sh | sha256sum | cut -c1-16)
if [ -x "$B/symx-$H" ]; then echo "$B/symx-$H"; exit 0; fi
T=$B/symx-$H.tmp.$$
clang++-18 -O2 -g1 -std=c++17 -fno-rtti -w $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') "$D/symx.cc" -o "$T" $(llvm-config-18 --ldflags --libs core irreader demangle) -lz3 -fexceptions 1>&2
mv "$T" "$B/symx-$H"
for f in "$B"/symx-*; do [ "$f" = "$B/symx-$H" ] || rm -f "$f"; done
echo "$B/symx-$H"
