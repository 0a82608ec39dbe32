#!/bin/sh
# Exit 0: on a 32-bit machine of either byte order (interpreted, mips.h) the library in the current directory gives the
# results it gives on this one.  Builds only in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
src=$(ls "$repo"/*.c | grep -v -E '/(test_[^/]*|ramspace|get_space2?|stack)\.c$')
mkdir "$tmp/inc" "$tmp/n" "$tmp/g"
for h in string stdlib stdio assert; do cp "$here/guest_$h.h" "$tmp/inc/$h.h"; done
cd "$tmp/n" && gcc -O2 -std=gnu11 -w -c $src || exit 2
cp "$here/mips.h" "$here/lib_abi.h" "$tmp/"; cp "$here/emu.cpp.txt" "$tmp/emu.cpp"
g++ -O2 -std=c++17 -w -fpermissive -I "$repo" -I "$tmp" -o "$tmp/demo" "$tmp/emu.cpp" "$tmp"/n/*.o || exit 2
for t in ${TARGETS:-mips mipsel}; do
    cd "$tmp/g" && clang-18 -O2 --target=$t-linux-gnu -march=mips32r2 -mabi=32 -mno-abicalls -fno-pic -G0 -msoft-float -ffreestanding -nostdlibinc -std=gnu11 -w -DSIM_GUEST -fno-builtin -I "$tmp/inc" -I "$repo" -I "$here" -c $src "$here/shim.c" "$here/rt.c" || exit 2
    ld.lld-18 -e sim_abi --image-base=0x100000 -o "$tmp/$t.elf" "$tmp"/g/*.o || exit 2
    timeout 120 "$tmp/demo" "$tmp/$t.elf" $(cat "$here/sets") || exit 1
done
exit 0
