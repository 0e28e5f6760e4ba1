#!/bin/bash
# Builds demo.cc against Ceres as it is in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cxx=/usr/bin/clang++; cc=/usr/bin/clang
[ -x $cxx ] || { cxx=g++; cc=gcc; }
cmake -G Ninja -S "$here/kit" -B "$work" -DREPO="$PWD" -DCMAKE_CXX_COMPILER=$cxx -DCMAKE_C_COMPILER=$cc > "$work/log" 2>&1 &&
  ninja -C "$work" demo >> "$work/log" 2>&1 || { tail -30 "$work/log"; exit 2; }
cd "$work" && timeout 100 ./demo
