#!/bin/bash
# Compiles /repo's sources with demo.cpp (minio-cpp replaced by the in-memory stand-in in minio/) and runs it in a
# scratch directory. Exits 0 when the property holds.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
flags="-std=c++20 -O1 -g1 -w -include string -DACQUIRE_ZARR_API_VERSION=__FILE__ -I$here -I$here/minio -I/repo/include -I/repo/src/streaming -I/repo/src/logger $DEMO_FLAGS"
export here work flags
ls /repo/src/streaming/*.cpp /repo/src/logger/*.cpp "$here"/minio/*.cpp "$here"/demo.cpp |
    xargs -P 8 -I{} bash -c 'g++ $flags -c "$1" -o "$work/$(basename "$1").o"' _ {} || exit 2
g++ $DEMO_FLAGS "$work"/*.o -o "$work/demo" -lblosc -lpthread -ldl || exit 2
mkdir "$work/run" && cd "$work/run" || exit 2
timeout -k 5 100 "$work/demo"
