#!/bin/bash
# compiles the demonstration beside this file against the headers of the current directory; exit 0: as it should be
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -g -O0 -fsanitize=address,undefined -fno-sanitize-recover -Icode -Iv1compat/code -I"$D" "$D/demo.cpp" -o "$T/demo" || exit 3
timeout 100 "$T/demo"
