#!/bin/bash
# build.sh OUT: builds the Valgrind tool "flow" into the folder OUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1
lib=$(dirname "$(find /usr/lib /usr/libexec -name libcoregrind-amd64-linux.a | head -1)")
exe=$(dirname "$(find /usr/lib /usr/libexec -name memcheck-amd64-linux | head -1)")
mkdir -p "$out"
gcc -m64 -O2 -g0 -fomit-frame-pointer -fno-stack-protector -fno-strict-aliasing -fno-builtin -fno-pie \
  -DVGA_amd64=1 -DVGO_linux=1 -DVGP_amd64_linux=1 -I/usr/include/valgrind -c "$here/flow.c" -o "$out/flow.o"
gcc -m64 -O2 -static -nodefaultlibs -nostartfiles -u _start -no-pie -Wl,--build-id=none -Wl,-Ttext-segment=0x58000000 \
  -o "$out/flow-amd64-linux" "$out/flow.o" "$lib/libcoregrind-amd64-linux.a" "$lib/libvex-amd64-linux.a" -lgcc "$lib/libgcc-sup-amd64-linux.a"
ln -sf "$exe"/vgpreload_core-amd64-linux.so "$exe"/default.supp "$out/"
