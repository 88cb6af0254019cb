#!/bin/bash
# compiles demo.cc (beside this file) against /repo and its build, and runs it
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap '/bin/rm -rf "$T"' EXIT
cd /repo/_build || exit 2
find bazel-out -path '*_objs*' -name '*.o' | grep -v 'unittest\|/test/\|testing\|benchmark' > "$T/objs"
ar rcs "$T/libt.a" @"$T/objs" 2> "$T/ar.log" || { cat "$T/ar.log"; exit 2; }
g++ -std=c++17 -O2 -DNDEBUG -fPIC -pthread -w $(cat "$HERE/flags" 2>/dev/null) \
  -I. -Ibazel-out/k8-opt/bin -isystem /opt/vp/tachyon_build/include \
  "$HERE/demo.cc" -o "$T/demo" "$T/libt.a" -lglog \
  -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group \
  -lgmpxx -lgmp || exit 2
cd "$T" && ./demo
