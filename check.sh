#!/bin/bash
# usage: check.sh ID quick|thorough   run the check of one property against /repo's working tree
#        check.sh replay FILE         re-run a saved counterexample
#        check.sh setup               build everything once
# Exit: 0 held, 1 violated, anything else: no answer (build failure, resource limit, ...).
set -u
root=$(cd "$(dirname "$0")" && pwd)
export VH_ROOT=$root
export RUSTUP_TOOLCHAIN=nightly-2026-05-14
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=$root/work/target
export RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
: "${VERIF_SEED:=1}"
export VERIF_SEED

group_of() {
  case $1 in
    C01|C02|C03|C04|C05|C06|C18) echo codec ;;
    C07) echo derive ;;
    C11|C12) echo core ;;
    C08|C09|C10|C17|C19|C20) echo client ;;
    C13|C14|C15|C16) echo server ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}
build() { # group
  mkdir -p "$root/work"
  if [ -e "$root/harness/$1/gen.py" ]; then
    python3 "$root/harness/$1/gen.py" "$root/work/gen-$1" || exit 2
  fi
  ( cd "$root/harness/$1" && flock "$root/work/build.lock" cargo build --offline --locked -q ) \
    >"$root/work/build-$1.log" 2>&1 || {
      tail -n 60 "$root/work/build-$1.log" >&2
      echo "ERROR harness '$1' does not build against /repo" >&2
      exit 2
    }
}
case ${1:-} in
  setup)
    for g in core codec derive client server; do
      [ -e "$root/harness/$g/Cargo.toml" ] && build $g
    done
    exit 0 ;;
  replay)
    id=$(sed -n 's/^property //p' "$2")
    VERIF_SEED=$(sed -n 's/^seed //p' "$2")
    export VH_EXTRA=$(sed -n 's/^extra //p' "$2")
    g=$(group_of "$id") || exit 2
    build $g
    exec "$CARGO_TARGET_DIR/debug/vh-$g" replay "$2" ;;
  "") sed -n 2,5p "$0"; exit 2 ;;
esac
id=$1
tier=${2:-${VERIF_TIER:-quick}}
g=$(group_of "$id") || exit 2
if [ "$id" = C07 ]; then # how many random type definitions
  if [ "$tier" = thorough ]; then export VH_EXTRA=600; else export VH_EXTRA=150; fi
fi
t0=$(date +%s.%N)
build $g
export VH_BUILD_S=$(awk "BEGIN{print $(date +%s.%N)-$t0}")
exec "$CARGO_TARGET_DIR/debug/vh-$g" run "$id" "$tier"
