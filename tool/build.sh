#!/bin/bash
# Builds the IR extractor into /verif/.build (git-ignored).
set -e
D="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$D/.build"
SRC="$D/tool/irx.cpp"; OUT="$D/.build/irx"
H=$(sha256sum "$SRC" | cut -d' ' -f1)
if [ -x "$OUT" ] && [ "$(cat "$D/.build/irx.sha" 2>/dev/null)" = "$H" ]; then exit 0; fi
FLAGS=$(/usr/bin/llvm-config-18 --cxxflags | sed 's/-fno-exceptions//')
T="$OUT.$$"
/usr/bin/clang++-18 -std=c++17 -O1 $FLAGS "$SRC" -o "$T" $(/usr/bin/llvm-config-18 --ldflags) -lLLVM-18
mv -f "$T" "$OUT"; echo "$H" > "$D/.build/irx.sha"
