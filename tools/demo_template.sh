#!/bin/bash
# Run with cwd = the phasar checkout, after its build. Compiles demo.cpp
# against the built libraries and runs it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
R=$PWD
LIBS=$(find "$R/_build/lib" -name 'libphasar_*.a' ! -name '*clang*' ! -name '*_pass.a')
clang++-14 -std=c++17 -O0 -w -D_GNU_SOURCE -I"$R/include" -I"$R/_build/include" -isystem /usr/lib/llvm-14/include \
  "$D/demo.cpp" -o "$T/demo" -fuse-ld=lld -rdynamic -Wl,--start-group $LIBS -Wl,--end-group \
  -Wl,-rpath,/usr/lib/llvm-14/lib -lstdc++fs -lsqlite3 -lboost_graph -lboost_regex \
  /usr/lib/llvm-14/lib/libLLVM-14.so.1 -lz3 -lpthread -ldl > "$T/log" 2>&1 || { tail -20 "$T/log"; exit 2; }
cp "$D"/*.ll "$T" 2>/dev/null
cd "$T" && timeout 120 ./demo
