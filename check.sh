#!/bin/bash
# usage: check.sh ID [quick|thorough] [extra harness arguments]
# Builds the harness against /repo's working tree and runs the check of one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
shift; [ $# -gt 0 ] && shift
bash "$here/build.sh" || { echo "BUILD FAILED for $id" >&2; exit 2; }
bin=$here/target/debug/harness
export VERIF_DIR=$here
# errors of the library would capture a backtrace each
export RUST_BACKTRACE=0 RUST_LIB_BACKTRACE=0
# an allocation without bound fails in the process instead of filling the machine
ulimit -v 25165824
"$bin" "$id" --tier "$tier" "$@"
rc=$?
[ $rc -le 3 ] || [ $rc -eq 137 ] && exit $rc
# The process died (abort, stack overflow): run again with every
# case on disk while it runs, and replay the cases that were in flight to find which one does it.
echo "harness ended with $rc; tracing" >&2
dir=$here/replay/trace-$id
mkdir -p "$dir"
find "$dir" -name '*.json' -delete
HARNESS_TRACE=$dir "$bin" "$id" --tier "$tier" "$@"
rc=$?
[ $rc -le 3 ] && { echo "the abnormal end did not come back" >&2; exit $rc; }
for f in "$dir"/*.json; do
  [ -f "$f" ] || continue
  timeout 130 "$bin" "$id" --replay "$f"
  r=$?
  if [ $r -eq 134 ] || [ $r -eq 139 ] || [ $r -eq 1 ]; then
    out=$here/replay/$id-abnormal.json
    cp "$f" "$out"
    [ $r -ne 1 ] && echo "VIOLATION property=$id replay=$out"
    exit 1
  fi
done
exit 2
