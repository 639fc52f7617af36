#!/bin/bash
# check.sh <property>: rebuilds the harness against /repo's working tree and decides one property.
# exit 0 held, 1 violation, otherwise inconclusive
set -u
ID=$1
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_TARGET_DIR="$D/target"
mkdir -p "$D/target" "$D/evidence" "$D/replays"
case "$ID" in
  W*) H=harness-warden ;;
  *) H=harness-elusiv ;;
esac
LOG="$D/target/build-$ID.log"
run_cargo() { (cd "$D/$1" && shift && cargo build --offline --locked "$@") >"$LOG" 2>&1; }
PARTS="bytes hash inputs null proof queue setup token vkey"
FEATURES=
# builds a harness; monitors of components that do not fit the tree's Rust interface any more are left out
build() {
  run_cargo "$@" $FEATURES && return
  if [ "$1" = harness-elusiv ]; then
    for _ in 1 2 3 4 5; do
      # only errors in files that can be left out
      OTHER=$(awk '/^error/ {e=1} /^warning/ {e=0} e && /--> src\// {print $2; e=0}' "$LOG" | cut -d: -f1 | sed 's,src/x_\(.*\)\.rs,\1,' | sort -u)
      REST=
      for p in $PARTS; do echo "$OTHER" | grep -qx "$p" || REST="$REST $p"; done
      [ -n "$OTHER" ] && [ "$(echo $REST)" != "$(echo $PARTS)" ] || break
      PARTS=$(echo $REST)
      FEATURES="--no-default-features --features=$(echo $PARTS | tr ' ' ',')"
      run_cargo "$@" $FEATURES && return
    done
  fi
  tail -40 "$LOG"; echo "INCONCLUSIVE property=$ID build failed"; exit 3
}
build $H --release
if [ "$ID" = O01 ]; then
  # the same histories in two builds, for both programs
  build $H --profile checked
  FEATURES=
  build harness-warden --release
  build harness-warden --profile checked
fi
exec "$D/target/release/$H" "$ID" "$D"
