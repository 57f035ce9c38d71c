#!/bin/bash
# check.sh <property id> [quick|thorough]     build the check from the current sources and run it
# check.sh <property id> replay <file>        run one saved case again
# check.sh --build-all                        build every check
# REPO (default /repo) and VERIF_BUILD (default /verif/build) may be set to check another tree.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
export VERIF_ROOT=$here
build=${VERIF_BUILD:-$here/build}
repo=${REPO:-/repo}
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$build"
exec 9>"$build/.lock"
flock 9
log=$build/build_$id.log
{
  cmake -S "$here" -B "$build" -G Ninja -DREPO="$repo" -DCMAKE_BUILD_TYPE= &&
    if [ "$id" = --build-all ]; then
      ninja -C "$build" $(cat "$here/cmake/checks.cmake" | sed -n 's/^[a-z_]*check(\([A-Z0-9]*\).*/\1/p')
    else
      ninja -C "$build" "$id"
    fi
} >"$log" 2>&1 9>&-
rc=$?
flock -u 9
if [ $rc -ne 0 ]; then
  echo "check $id: the build failed (see $log)" >&2
  tail -40 "$log" >&2
  exit 2
fi
[ "$id" = --build-all ] && exit 0
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0
export TSAN_OPTIONS=halt_on_error=1:exitcode=99:report_signal_unsafe=0
export OMP_NUM_THREADS=1
exec "$build/$id" "$tier" $3
