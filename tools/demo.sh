#!/bin/bash
# Compiles demo.c with the sources of the current directory (/repo) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "${t:?}"' EXIT
gcc -g -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -Iinclude -Imodules/utils/include -Imodules/collections/include -I_build -I_build/include \
  src/*.c modules/collections/src/*.c modules/utils/src/*.c "$here/demo.c" -o "$t/demo" -lm 2>&1 || exit 3
cd "$t" && ASAN_OPTIONS=${ASAN_OPTIONS:-detect_leaks=1} timeout 100 ./demo
