#!/bin/bash
# builds everything once, so that the checks only rebuild what changed in /repo
set -eu
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$D/target"
mkdir -p "$D/target" "$D/evidence" "$D/replays"
for H in harness-elusiv harness-warden; do
  [ -d "$D/$H" ] || continue
  (cd "$D/$H" && cargo build --release --offline --locked) || echo "$H does not build, the checks will say more"
  (cd "$D/$H" && cargo build --profile checked --offline --locked) || true
done
