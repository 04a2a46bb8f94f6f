#!/bin/bash
# check.sh <ID> [quick|thorough]   decide one property on /repo's current working tree
# check.sh replay <FILE>           replay a saved case
# check.sh all [quick|thorough]    every property, one after another
here=$(cd "$(dirname "$0")" && pwd); cd "$here" || exit 2
export LC_ALL=C
id=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}
variant_of() { case $1 in C19) echo asan ;; C20) echo exe ;; C23) echo ngen ;; *) echo plain ;; esac; }
run() {
  local d; d=$(./build.sh "$(variant_of "$1")") || { echo "check.sh: build failed" >&2; return 2; }
  mkdir -p evidence replays
  export ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1" UBSAN_OPTIONS="print_stacktrace=0"
  [ -f known_findings.txt ] && grep "^KNOWN-FINDING: property=$1 " known_findings.txt
  "$d/runner" run "$1" --tier "$2" --seed "$seed" --evidence "$here/evidence/$1.json" --replays "$here/replays" --regress "$here/regress" --exe "$d/lasam" "${@:3}"
}
case $id in
  replay) f=$(readlink -f "$2"); p=$(sed -n 's/^prop //p' "$f" | head -1); d=$(./build.sh "$(variant_of "$p")") || exit 2; ASAN_OPTIONS="detect_leaks=0:abort_on_error=1" "$d/runner" replay "$f" --exe "$d/lasam" ;;
  all) rc=0; for p in $(sed -n 's/.*"id": *"\(C[0-9]*\)".*/\1/p' properties.jsonl); do run "$p" "$tier" || rc=1; done; exit $rc ;;
  *) run "$id" "$tier" "${@:3}" ;;
esac
