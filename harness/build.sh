#!/bin/bash
# build.sh REPO SCRATCH: compile the working tree of REPO into SCRATCH/freud
set -e
R="$1"; S="$2"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p "$S/src" "$S/b" "$S/freud"
cp -a "$R/freud" "$R/CMakeLists.txt" "$R/CMake" "$R/extern" "$S/src/" 2>/dev/null || true
for f in "$R"/*; do b=$(basename "$f"); case "$b" in build|tests|doc|benchmarks|freud|CMake|CMakeLists.txt|extern) ;; *) cp -a "$f" "$S/src/" ;; esac; done
rm -f "$S"/src/freud/*.so
cmake -G Ninja -S "$S/src" -B "$S/b" -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_FLAGS_RELEASE="-O1 -DNDEBUG" \
  -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DPython_EXECUTABLE=/opt/venv/bin/python \
  -DCMAKE_PROJECT_freud_INCLUDE=/opt/vp/cmake/partial.cmake -DCMAKE_LIBRARY_OUTPUT_DIRECTORY="$S/freud"
ninja -C "$S/b" -j 8 $(cd "$S/b" && ninja -t targets all | sed -n "s#^\(_[a-z]*\): phony.*#\1#p" | sort -u)
cp "$S"/src/freud/*.py "$S/freud/"
