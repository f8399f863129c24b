#!/bin/bash
# builds demo.cpp against the library built from /repo and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
g++ -std=c++17 -O1 -I/repo/source "$D/demo.cpp" -o "$W/demo" -L/repo/_build/source -lmoordyn -Wl,-rpath,/repo/_build/source || exit 3
cd "$W" && ./demo
