#!/bin/bash
# build.sh WORLD -> prints the path of the built binary. Cached by content under /verif/.build.
set -e
here=$(cd "$(dirname "$0")" && pwd)
world=$1
repo=${SIM_REPO:-/repo}
bdir=${SIM_BUILD:-$here/../.build}
mkdir -p "$bdir"
bdir=$(cd "$bdir" && pwd)
key=$( (cd "$repo/ndt_gslam" && find include src msg -type f | LC_ALL=C sort | xargs sha256sum; cd "$here" && find . -type f | LC_ALL=C sort | xargs sha256sum) | sha256sum | cut -c1-24)
out="$bdir/$world-$key"
if [ -x "$out" ]; then echo "$out"; exit 0; fi
tmp="$out.tmp.$$"
mkdir -p "$tmp"
trap 'rm -rf "$tmp"' EXIT
CXX=g++-11
BASE="-std=c++17 -g1 -fopenmp -w -DNDT_GSLAM_SIM -I$repo/ndt_gslam/include -I/usr/include/eigen3 -I/usr/include/suitesparse"
WRAP="-Wl,--wrap=malloc"
ASAN="-fsanitize=address,undefined -fno-sanitize=vptr,float-divide-by-zero,float-cast-overflow -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS -fno-omit-frame-pointer"
S=$repo/ndt_gslam/src
comp() { # src obj flags...
  local src=$1 obj=$2; shift 2
  $CXX $BASE "$@" -c "$src" -o "$tmp/$obj" 2>"$tmp/$obj.log" || { cat "$tmp/$obj.log" >&2; exit 1; }
}
case $world in
graphworld|gridworld|cellworld|ndtgridworld)
  comp "$here/core/main.cpp" main.o -O1 $ASAN & p1=$!
  comp "$here/worlds/$world.cpp" w.o -O1 $ASAN -I"$here/shim" -I$repo/ndt_gslam -include algorithm -include sstream -include vector & p2=$!
  wait $p1; wait $p2
  $CXX $BASE $ASAN $WRAP "$tmp"/*.o -o "$out.bin" ;;
robustworld)
  comp "$here/core/main.cpp" main.o -O1 $ASAN & ps="$!"
  comp "$here/worlds/$world.cpp" w.o -O1 $ASAN & ps="$ps $!"
  for f in switchable_constraints/edge_se2Switchable switchable_constraints/edge_switchPrior switchable_constraints/vertex_switchLinear max_mixture/edge_se2_mixture max_mixture/edge_se2_pointxy_mixture max_mixture/edge_se3_mixture; do
    comp "$S/slam_optimizer/$f.cpp" "$(basename $f).o" -O1 $ASAN -include "$here/compat/g2o_names.h" & ps="$ps $!"
  done
  for p in $ps; do wait $p; done
  $CXX $BASE $ASAN $WRAP "$tmp"/*.o -o "$out.bin" -Wl,--no-as-needed -lg2o_types_slam3d -lg2o_types_slam2d -lg2o_solver_eigen -lg2o_solver_csparse -lg2o_core -lg2o_stuff -Wl,--unresolved-symbols=ignore-in-shared-libs ;;
backendworld|nodeworld)
  light=""
  if [ $world = nodeworld ]; then
    comp "$here/core/main.cpp" main.o -O1 $ASAN & p1=$!
    if $CXX $BASE -DLIGHT -O1 $ASAN -I"$here/shim" -I$repo/ndt_gslam -include algorithm -include sstream -include vector -c "$here/worlds/$world.cpp" -o "$tmp/w.o" 2>"$tmp/light.log" &&
       wait $p1 && $CXX $BASE $ASAN $WRAP "$tmp"/main.o "$tmp"/w.o -o "$out.bin" 2>>"$tmp/light.log"; then light=1; fi
    [ $light ] || rm -f "$tmp"/*.o
  fi
  if [ ! $light ]; then
  comp "$here/core/main.cpp" main.o -O1 $ASAN & ps="$!"
  comp "$here/worlds/$world.cpp" w.o -O1 $ASAN -I"$here/shim" -I$repo/ndt_gslam -include algorithm -include sstream -include vector & ps="$ps $!"
  for f in switchable_constraints/edge_se2Switchable switchable_constraints/edge_switchPrior switchable_constraints/vertex_switchLinear max_mixture/edge_se2_mixture max_mixture/edge_se2_pointxy_mixture; do
    comp "$S/slam_optimizer/$f.cpp" "$(basename $f).o" -O1 $ASAN & ps="$ps $!"
  done
  for p in $ps; do wait $p; done
  $CXX $BASE $ASAN $WRAP "$tmp"/*.o -o "$out.bin" -Wl,--no-as-needed -lg2o_types_slam2d -lg2o_solver_eigen -lg2o_solver_csparse -lg2o_core -lg2o_stuff -Wl,--unresolved-symbols=ignore-in-shared-libs
  fi ;;
matchworld)
  comp "$here/core/main.cpp" main.o -O1 & ps="$!"
  comp "$here/core/gomp.cpp" gomp.o -O2 & ps="$ps $!"
  comp "$here/worlds/$world.cpp" w.o -O2 -fsanitize=thread -I"$here/shim" -I$repo/ndt_gslam -include algorithm -include sstream -include vector & ps="$ps $!"
  for p in $ps; do wait $p; done
  $CXX ${BASE/-fopenmp/} $WRAP "$tmp"/*.o -o "$out.bin" ;;
slamworld)
  comp "$here/core/main.cpp" main.o -O1 & ps="$!"
  comp "$here/core/gomp.cpp" gomp.o -O2 & ps="$ps $!"
  comp "$here/worlds/$world.cpp" w.o -O2 -I"$here/shim" -I$repo/ndt_gslam -include algorithm -include sstream -include vector & ps="$ps $!"
  for f in switchable_constraints/edge_se2Switchable switchable_constraints/edge_switchPrior switchable_constraints/vertex_switchLinear max_mixture/edge_se2_mixture max_mixture/edge_se2_pointxy_mixture; do
    comp "$S/slam_optimizer/$f.cpp" "$(basename $f).o" -O1 & ps="$ps $!"
  done
  for p in $ps; do wait $p; done
  $CXX ${BASE/-fopenmp/} $WRAP "$tmp"/*.o -o "$out.bin" -Wl,--no-as-needed -lg2o_types_slam2d -lg2o_solver_eigen -lg2o_solver_csparse -lg2o_core -lg2o_stuff -Wl,--unresolved-symbols=ignore-in-shared-libs ;;
*) echo "unknown world $world" >&2; exit 2 ;;
esac
mv "$out.bin" "$out"
# keep the cache small: newest 3 builds of a world
ls -t "$bdir/$world-"* 2>/dev/null | grep -v '\.tmp' | tail -n +4 | xargs -r rm -f
echo "$out"
