#!/bin/bash
# Builds the program under test from /repo's working tree and the simulated machine, both under /verif/build.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
mkdir -p "$here/build"
exec 9>"$here/build/.lock"
flock 9
export CCACHE_DIR="$here/build/ccache" CCACHE_MAXSIZE=2G
launcher=()
if command -v ccache >/dev/null; then launcher=(-DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache); fi
bd="$here/build/peridigm"
cmake -S /repo -B "$bd" -G Ninja -DCMAKE_BUILD_TYPE=Release -DCMAKE_CXX_COMPILER=mpicxx -DCMAKE_C_COMPILER=mpicc \
    -DHAVE_YAML=ON -DCMAKE_CXX_FLAGS=-DUSE_YAML "-DCMAKE_CXX_STANDARD_LIBRARIES=-lexoIIv2c -lnetcdf" \
    -DCMAKE_PROJECT_Peridigm_INCLUDE=/opt/vp/peridigm_omit.cmake "${launcher[@]}" >"$here/build/cmake.log" 2>&1 || { tail -30 "$here/build/cmake.log" >&2; exit 2; }
ninja -C "$bd" src/Peridigm >"$here/build/ninja.log" 2>&1 || { tail -30 "$here/build/ninja.log" >&2; exit 2; }
make -s -C "$here/sim" OUT="$here/build/sim" >"$here/build/sim.log" 2>&1 || { tail -30 "$here/build/sim.log" >&2; exit 2; }
