# dev_nat.sh harness hexinput k=v... : replay natively
h=$1; hex=$2; shift 2; mkdir -p /tmp/w; cd /tmp/w
NF="-std=c++17 -DNDEBUG -DVF_NATIVE -w -O1 -g -fsanitize=address -fno-omit-frame-pointer -I/repo -I/repo/include -I/verif/rt -I/verif/harness"
clang++ $NF /verif/harness/$h.cpp /repo/src/lib/*.cpp -x c++ /verif/rt/native.cpp -x none /tmp/w/fpc.o -o nat_$h 2>/dev/null || { clang -w -O1 -g -fsanitize=address -c -I/repo/include /repo/src/lib/fpconv/fpconv.c -o fpc.o; clang++ $NF /verif/harness/$h.cpp /repo/src/lib/*.cpp /verif/rt/native.cpp fpc.o -o nat_$h; }
printf '%s\n%s\n' "$hex" "$*" > in_$h; ASAN_OPTIONS=detect_leaks=0 ./nat_$h in_$h
