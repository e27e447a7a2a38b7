#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds from /repo's working tree, then runs one property.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
log="$(mktemp)"; trap 'rm -f "$log"' EXIT
build() {(cd "$here/harness" && cargo build --offline --locked >"$log" 2>&1)}
build || { tail -60 "$log" >&2; echo "the harness does not build against /repo" >&2; exit 3; }
case "$id" in
  P17|P18|P19|P20|P28|P29|P30)
    (cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_INCREMENTAL=false CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cli" \
      cargo build --offline --locked --bin url-cleaner --features commands,custom >"$log" 2>&1) || { tail -60 "$log" >&2; echo "the CLI does not build" >&2; exit 3; }
    export UCH_CLI="$CARGO_TARGET_DIR/cli/debug/url-cleaner";;
esac
UCH_DIR="$here" exec "$CARGO_TARGET_DIR/debug/uch" "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" ${UCH_ARGS:-}
