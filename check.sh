#!/bin/bash
# check.sh <property id> [--tier quick|thorough] [--replay FILE]
# Rebuilds the monitor against /repo's working tree and runs it.
# exit 0: held on everything observed; 1: VIOLATION line(s); 2: no answer (build failure, watchdog, nothing observed)
set -u
cd "$(dirname "$0")" || exit 2
export DVE_ROOT="$PWD" CARGO_NET_OFFLINE=true
id=${1:?property id}; shift
. tools/build.sh
vs="parallel plain"
[ "$id" = C17 ] && vs="parallel serial std plain tsan"
pids=
for v in $vs; do build_variant $v & pids="$pids $v:$!"; done
for p in $pids; do
  wait "${p#*:}" || { echo "INCONCLUSIVE $id: the ${p%%:*} build of the monitor against /repo failed"; tail -40 "harness/target/build-${p%%:*}.log"; exit 2; }
done
run() {
  "$@"
  local rc=$?
  case $rc in
    134|136|139)
      # the monitor catches panics; an abort, a stack overflow or a bad access comes from what it called
      mkdir -p replays evidence
      f=replays/$id-crash.json
      printf '{"property":"%s","what":"the process running the workload died of signal %s","replay":"./check.sh %s"}\n' "$id" $((rc - 128)) "$id" >"$f"
      echo "VIOLATION property=$id replay=$PWD/$f"
      exit 1 ;;
    0) ;;
    *) exit $rc ;;
  esac
}
run harness/target/parallel/release/dvemon "$id" "$@"
# a smaller second pass on other inputs, in the serial build without debug assertions and overflow checks
[ "$id" = C17 ] || run harness/target/plain/plain/dvemon "$id" "$@"
exit 0
