#!/bin/bash
# tryseed.sh ID...: in a scratch copy: the patch applies, builds, keeps the stable tests, and the demo tells the trees apart
# then applies it to /repo, runs the property's quick check, and undoes it
here=$(cd "$(dirname "$0")/.." && pwd)
export CARGO_NET_OFFLINE=true
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for id in "$@"; do
  s=$here/seeded/$id
  if [ -z "$ONLY_CHECK" ]; then
    rm -rf /tmp/seedtry; mkdir /tmp/seedtry; git -C /repo archive HEAD | tar x -C /tmp/seedtry; cp /repo/Cargo.lock /tmp/seedtry; git -C /tmp/seedtry init -q
    ( cd /tmp/seedtry
      git apply "$s/patch.diff" || { echo "$id: does not apply"; exit; }
      CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_TARGET_DIR=/tmp/seedtgt cargo test --offline >/tmp/seedtry.log 2>&1; echo "$id: tests $(grep -c '^test .* ok' /tmp/seedtry.log) ok, $(grep -c '^test .* FAILED' /tmp/seedtry.log) failed $(grep -m1 -E '^error' /tmp/seedtry.log)"
      CARGO_TARGET_DIR=/tmp/seeddemo bash "$s/demo.sh" >/tmp/seedtry.demo 2>&1; echo "$id: demo on the patched tree: $? $(tail -1 /tmp/seedtry.demo | cut -c1-200)" )
    ( cd /repo && CARGO_TARGET_DIR=/tmp/seeddemo bash "$s/demo.sh" >/tmp/seedtry.demo 2>&1; echo "$id: demo on the clean tree: $? $(tail -1 /tmp/seedtry.demo| cut -c1-200)" )
    rm -rf /tmp/seedtry
  fi
  p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply "$s/patch.diff" || continue
  for c in ${CHECKS:-$p}; do
    "$here/check.sh" "$c" >/tmp/seedcheck.log 2>&1; echo "$id: check $c exit $? $(grep -B1 -m1 VIOLATION /tmp/seedcheck.log | head -1 | cut -c1-220)"
  done
  git -C /repo checkout -- .
done
