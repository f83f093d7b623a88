#!/bin/bash
# Run in the repository after its build: exit 0 when the property holds on the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 0
trap 'rm -f "$d/demo"; rmdir "$d"' EXIT
g++ -std=c++20 -O1 -w -pthread -include cmath -include stdexcept -Iinclude -I/usr/include/eigen3 -I"$here" "$here/demo.cpp" -o "$d/demo" \
    -Llib -lsolver -lmodel -loption -lpayoff -lmarketdata -lrandom -lnumerical_analysis -Wl,-rpath,"$PWD/lib" || exit 2
timeout 250 "$d/demo"
