#!/bin/bash
# Build the harness for one property from /repo's working tree and run it.
#   check.sh <property> [--replay FILE | --case PART INDEX]
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT="$PWD"
id="$1"
case "$id" in
  C0[1-5]|C08) feat="" ;;
  C06) feat="raw" ;;
  C07) feat="telnet" ;;
  C1*) feat="hislip" ;;
  C2*) feat="vxi" ;;
  *) feat="all" ;;
esac
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET
tgt="${VERIF_TARGET_DIR:-$PWD/harness/target}/${feat:-device}"
log="$(mktemp)"
if ! cargo build --quiet --offline --manifest-path harness/Cargo.toml --no-default-features --features "$feat" --target-dir "$tgt" >"$log" 2>&1; then
  cat "$log" >&2; rm -f "$log"
  echo "$id: the harness does not build against this tree" >&2
  exit 2
fi
rm -f "$log"
exec "$tgt/debug/lxi-verif" "$@"
