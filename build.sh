#!/bin/bash
# Provides build/vx, the fact extractor.  prebuilt/vx.gz is the same program compiled
# from extractor/vx.cpp (prebuilt/vx.hash is the hash of that source); it is used when
# the source is unchanged and it runs here, otherwise the source is compiled (offline).
set -e
cd "$(dirname "$0")"
mkdir -p build
src=extractor/vx.cpp
h=$(sha256sum $src | cut -c1-16)
if [ -x build/vx ] && [ "$(cat build/vx.hash 2>/dev/null)" = "$h" ]; then exit 0; fi
tmp=build/vx.$$
if [ "$(cat prebuilt/vx.hash 2>/dev/null)" = "$h" ] && gzip -dc prebuilt/vx.gz > $tmp 2>/dev/null \
   && chmod +x $tmp && $tmp --version >/dev/null 2>&1; then
	mv $tmp build/vx; echo $h > build/vx.hash; exit 0
fi
clang++ -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include $src -o $tmp \
	/usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv $tmp build/vx
echo $h > build/vx.hash
if [ "$1" = "--update-prebuilt" ]; then
	cp build/vx build/vx.strip; strip build/vx.strip
	gzip -9nc build/vx.strip > prebuilt/vx.gz; rm "$PWD/build/vx.strip"
	echo $h > prebuilt/vx.hash
fi
