#!/bin/bash
# check.sh <property> <quick|thorough>   decide one property on /repo's current tree
# check.sh replay <file>                 show one recorded case again
# check.sh build                         only build
# Exit: 0 holds, 1 violated, 2 the check itself could not run.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true MC_ROOT="$here" RUST_BACKTRACE=0
unset RUSTFLAGS
log="$here/target/build.$$.log"
mkdir -p "$here/target" "$here/evidence"
(cd "$here/mc" && cargo build --release --offline) >"$log" 2>&1 || {
  grep -A12 "^error" "$log" >&2 || cat "$log" >&2; rm -f "$log"; echo "check.sh: build failed" >&2; exit 2; }
rm -f "$log"
scratch="$(mktemp -d "${TMPDIR:-/tmp}/mcs.XXXXXX")" || exit 2
if [ -d /dev/shm ] && s="$(mktemp -d /dev/shm/mcs.XXXXXX 2>/dev/null)"; then rmdir "$scratch"; scratch="$s"; fi
trap 'rm -rf "$scratch"' EXIT
export MC_SCRATCH="$scratch"
case "$1" in
  build) exit 0 ;;
  replay) "$here/target/release/mc" replay "$2" ;;
  *) "$here/target/release/mc" check "$1" "${2:-quick}" ;;
esac
exit $?
