#!/bin/bash
# Builds and runs demo.c, in a scratch directory, against the library in ./_build
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
lib=$repo/_build/src/oifitslib
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
gcc -std=gnu99 -g -w -I"$repo/src/oifitslib" -I"$here" $(pkg-config --cflags cfitsio glib-2.0) -o "$tmp/demo" "$here/demo.c" \
  -L"$lib" -Wl,-rpath,"$lib" -loifits -loitable $(pkg-config --libs cfitsio glib-2.0) -lm || exit 3
cd "$tmp" || exit 3
ulimit -c 0
UTIL=$repo/_build/src/util timeout 100 ./demo > "$tmp/out" 2>&1
rc=$?
[ $rc = 0 ] || tail -5 "$tmp/out"
exit $rc
