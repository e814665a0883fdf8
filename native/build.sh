#!/bin/bash
# native/build.sh SRC CFG OUT [defs...]   build the native version of a harness file from /repo's current tree
src=$1; cfg=$2; out=$3; shift 3
V=$(cd "$(dirname "$0")/.." && pwd); R=${LV_REPO:-/repo}; N=-DNDEBUG; case " $* " in *ASSERTS*) N=;; esac
S="$R/src/system.cpp"; grep -q "include .system.cpp" "$src" && S=
F="-std=c++14 -O1 -g -w -fno-omit-frame-pointer -fno-builtin -fsanitize=address,signed-integer-overflow,integer-divide-by-zero,shift-exponent,bounds,unreachable -fno-sanitize-recover=all $N -I$V/stubs/cfg_$cfg -I$V/harness -I$V/stubs -I$R/src"
clang++-18 $F $* "$src" "$V/native/native.cpp" $S -o "$out" -ldl -lpthread
