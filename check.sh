#!/bin/bash
# check.sh <property>: rebuild from /repo's working tree and explore.
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
id="$1"
case "$id" in
  C0*) crate=wasp-mc ;;
  C1*) crate=merge-mc ;;
  C2*|C3*) crate=core/core-mc ;;
  C45|C52) crate=core/cli-mc ;;
  C4*) crate=core/lang-mc ;;
  C5*) crate=core/static-mc ;;
  *) echo "no check for $id" >&2; exit 3 ;;
esac
log=$(mktemp)
trap 'rm -f "$log"' EXIT
if ! (cd "$crate" && cargo build --release --offline --locked) >"$log" 2>&1; then
  cat "$log" >&2
  echo "building $crate against /repo failed" >&2
  exit 3
fi
"target/release/${crate##*/}" "$id"
