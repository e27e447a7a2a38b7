#!/bin/bash
# Builds the harness and the CLI once, offline.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
(cd "$here/harness" && cargo build --offline --locked)
(cd /repo && CARGO_PROFILE_DEV_OPT_LEVEL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_INCREMENTAL=false CARGO_TARGET_DIR="$CARGO_TARGET_DIR/cli" cargo build --offline --locked --bin url-cleaner --features commands,custom)
