#!/bin/bash
# Builds the engine, the environment model and the native replay runtime into /verif/build (offline, from committed files).
set -e
cd "$(dirname "$0")"
mkdir -p build
B=build
./engine/build.sh "$B" &
p1=$!
clang++ -std=c++20 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -c engine/rt.cpp -Iengine -o $B/rt.bc.tmp &
p2=$!
clang++ -std=c++20 -O1 -c engine/replay.cpp -Iengine -o $B/replay.o.tmp &
p3=$!
wait $p1; wait $p2; wait $p3
mv $B/rt.bc.tmp $B/rt.bc; mv $B/replay.o.tmp $B/replay.o
cat engine/*.cpp engine/*.h | sha256sum > $B/stamp
echo "setup ok"
