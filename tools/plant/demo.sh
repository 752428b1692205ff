#!/bin/bash
# Builds demo.cpp against the library that build.sh made and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
H=/usr/lib/x86_64-linux-gnu/hdf5/serial
g++ -std=c++17 -O1 -w -I"$repo/_build/include" -I/usr/include/hdf5/serial "$here/demo.cpp" "$repo/_build/liboxsx.a" \
    -o "$tmp/demo" -L$H -Wl,-rpath,$H -lhdf5_cpp -lhdf5 -larmadillo -lgsl -lgslcblas || exit 2
cd "$tmp" && timeout 200 ./demo
