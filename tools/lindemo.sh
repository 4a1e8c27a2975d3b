#!/bin/bash
# compiles and runs the program on Linux; it has to exit with status 0
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/repo/_build/inst/bin:$PATH
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cd "$d" || exit 2
cp "$here"/prog.c .
smlrcc -linux prog.c -o prog || exit 3
timeout 20 ./prog
