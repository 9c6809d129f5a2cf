#!/bin/bash
# usage: run.sh <property id> <quick|thorough> | run.sh <property id> --replay FILE
# Rebuilds the code under test from /repo's working tree, then runs the check exhaustively.
set -u
cd "$(dirname "$0")"
id=$1; shift
flavour=release
grep -q '^// *flavour: *asan' checks/$id.cpp && flavour=asan
mkdir -p build
if ! make -s -f lib/build.mk -j"$(nproc)" build_dir=x /verif/build/$flavour/$id.check >build/$id.log 2>&1; then
  if [ ! -f build/$id.log ] || ! tail -50 build/$id.log; then :; fi
  echo "build failed (see above)" >&2; exit 3
fi
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_abort=1
export TZ=UTC LC_ALL=C
case "${1:-quick}" in
  quick|thorough) t=$1; shift; exec build/$flavour/$id.check --dir /verif --tier "$t" "$@";;
  *) exec build/$flavour/$id.check --dir /verif "$@";;
esac
