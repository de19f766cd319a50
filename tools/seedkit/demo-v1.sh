#!/bin/bash
# builds the library of the current directory and the demonstration beside this file; exit 0: as it should be
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="-g -O0 -pthread -Icode -Iv1compat/code -I$D/shim -I$D -fsanitize=address -fno-omit-frame-pointer"
{ ls code/dynamix/*.cpp code/dynamix/compat/pmr/*.cpp v1compat/code/dynamix/v1compat/*.cpp; echo "$D/demo.cpp"; } | xargs -P 8 -I{} sh -c 'g++ -std=c++17 '"$F"' -c "{}" -o '"$T"'/$(echo "{}" | tr "/." "__").o' || exit 3
gcc -std=c11 $F -c code/dnmx/mixin_common_funcs.c -o "$T/mcf.o" || exit 3
g++ $F "$T"/*.o -o "$T/demo" || exit 3
timeout 100 "$T/demo"
