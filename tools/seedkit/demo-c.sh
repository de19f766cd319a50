#!/bin/bash
# compiles the demonstration beside this file against the headers of the current directory; exit 0: as it should be
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O0 -fsanitize=address,undefined -fno-sanitize-recover -Icode -Iv1compat/code -I"$D" "$D/demo.c" -o "$T/demo" || exit 3
timeout 100 "$T/demo"
