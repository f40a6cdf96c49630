#!/bin/bash
# builds the kernel (842.h + decompress.cl, as the library does) for this machine and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cat /repo/src/common/842.h /repo/src/ocl/decompress.cl > "$t/k.cl"
clang-18 -x cl -cl-std=CL1.2 -Xclang -finclude-default-header -target x86_64-pc-linux-gnu -w -O1 -D CL842_CHUNK_SIZE=8192 -D CL842_CHUNK_STRIDE=8192 -D EINVAL=22 -D ENOSPC=28 -c "$t/k.cl" -o "$t/k.o" || exit 2
gcc -O1 -g -I"$d" -o "$t/demo" "$d/demo.c" "$t/k.o" || exit 2
cd "$t" && timeout 120 ./demo
