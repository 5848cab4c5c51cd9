# build harness bitcode into /tmp/w/<h>.bc
h=$1; mkdir -p /tmp/w; cd /tmp/w; L=/usr/lib/llvm-18/bin
[ -f lib.bc ] || { for f in /repo/src/lib/*.cpp; do $L/clang++ -std=c++17 -DNDEBUG -DVF_GUEST -w -O1 -fno-pic -fno-vectorize -fno-slp-vectorize -emit-llvm -c -I/repo -I/repo/include $f -o $(basename $f).bc & done; $L/clang -DNDEBUG -DVF_GUEST -w -O1 -fno-vectorize -fno-slp-vectorize -emit-llvm -c -I/repo -I/repo/include /repo/src/lib/fpconv/fpconv.c -o fpconv.c.bc; wait; $L/llvm-link *.cpp.bc fpconv.c.bc -o lib.bc; }
$L/clang++ -std=c++17 -DNDEBUG -DVF_GUEST -w -O1 -fno-pic -fno-vectorize -fno-slp-vectorize -emit-llvm -c -I/repo -I/repo/include -I/verif/rt -I/verif/harness /verif/harness/$h.cpp -o $h.h.bc && $L/llvm-link lib.bc /verif/build/rt.bc $h.h.bc -o $h.bc
