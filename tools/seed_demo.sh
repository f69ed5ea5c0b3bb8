#!/bin/sh
# run with cwd = the built repository; everything it writes is inside a scratch directory
here=$(cd "$(dirname "$0")" && pwd) || exit 4
R=$PWD
d=$(mktemp -d) || exit 4
trap 'rm -rf "$d"' EXIT
L=$R/_build/libparted/.libs
gcc -O1 -w -I"$R/include" -I"$R/_build/include" -I"$here" -o "$d/demo" "$here/demo.c" \
    -L"$L" -lparted -Wl,-rpath,"$L" || exit 4
timeout 120 "$d/demo" "$d"
