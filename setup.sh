#!/bin/bash
# builds every variant of the monitor once, so that the checks only have to rebuild what changed in /repo
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
. tools/build.sh
for v in parallel serial std plain tsan; do
  build_variant $v || { tail -40 "$BUILD_LOG"; exit 1; }
done
