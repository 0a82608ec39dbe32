#!/bin/sh
# Exit 0: the guarantee holds in the library in the current directory.  Builds only in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
src=$(ls "$repo"/*.c | grep -v -E '/(test_[^/]*|ramspace|get_space2?|stack)\.c$')
cc=gcc; [ -f "$here/cc" ] && cc=$(cat "$here/cc")
extra=""; [ -f "$here/flags" ] && extra=$(cat "$here/flags")
if [ -f "$here/ref.cpp" ]; then
    cd "$tmp" && gcc -O2 -g -std=gnu11 -w -I "$repo" $extra -c $src || exit 2
    g++ -O2 -g -std=c++17 -w -fpermissive -I "$repo" -I "$here" $extra -o demo -x c++ "$here/demo.c" "$here/ref.cpp" -x none "$tmp"/*.o || exit 2
else
    $cc -O2 -g -std=gnu11 -w -I "$repo" -I "$here" $extra -o "$tmp/demo" "$here/demo.c" $src || exit 2
fi
ASAN_OPTIONS=detect_leaks=0 timeout 250 "$tmp/demo"
