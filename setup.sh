#!/bin/bash
# builds the symbolic executor and the runtime-model bitcode into /verif/build (git-ignored); idempotent
set -e
D=$(cd "$(dirname "$0")" && pwd); B=$D/build; mkdir -p $B
( flock 9
  H=$(cat $D/engine/*.cpp $D/engine/*.h $D/engine/build.sh $D/rt/*.cpp | sha256sum | cut -d' ' -f1)
  if [ ! -x $B/jsym ] || [ ! -f $B/rt.bc ] || [ "$(cat $B/stamp 2>/dev/null)" != "$H" ]; then
    bash $D/engine/build.sh $B
    clang++ -std=c++20 -O1 -fno-builtin -U__SSE2__ -fno-vectorize -fno-slp-vectorize -gline-tables-only -emit-llvm -c $D/rt/rt.cpp -o $B/rt0.bc
    clang++ -std=c++20 -O1 -w -fno-builtin -D__NO_INLINE__ -U__SSE2__ -fno-vectorize -fno-slp-vectorize -gline-tables-only -emit-llvm -c $D/rt/libc.cpp -o $B/libc.bc
    llvm-link-18 $B/rt0.bc $B/libc.bc -o $B/rt.bc
    echo $H > $B/stamp
  fi ) 9>$B/lock
