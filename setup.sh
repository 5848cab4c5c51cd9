#!/bin/bash
# Builds the symbolic execution engine and the /repo-independent guest runtime into /verif/build.
set -e
cd "$(dirname "$0")"
mkdir -p build
LL=/usr/lib/llvm-18
key=$(cat engine/* rt/* setup.sh | sha256sum | cut -c1-32)
if [ -x build/vse ] && [ -f build/rt.bc ] && [ "$(cat build/key 2>/dev/null)" = "$key" ]; then exit 0; fi
rm -f build/key
g++ -std=c++17 -O2 -w engine/main.cpp -I$LL/include -L$LL/lib -lLLVM-18 -lz3 -o build/vse.tmp & p1=$!
$LL/bin/clang++ -std=c++17 -DNDEBUG -DVF_GUEST -w -Irt -O1 -fno-vectorize -fno-slp-vectorize -fno-builtin -emit-llvm -c rt/rt.cpp -o build/rt.bc.tmp & p2=$!
$LL/bin/clang++ -std=c++17 -w -Irt -O1 -g -c rt/native.cpp -o build/native.o.tmp & p3=$!
wait $p1; wait $p2; wait $p3
mv build/vse.tmp build/vse; mv build/rt.bc.tmp build/rt.bc; mv build/native.o.tmp build/native.o
echo "$key" > build/key
