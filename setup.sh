#!/bin/bash
# Pre-builds the check binaries (dependencies included); every check rebuilds what changed.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
export CARGO_TARGET_DIR=$HERE/target
mkdir -p "$CARGO_TARGET_DIR"
(cd "$HERE/mc" && cargo build --offline --locked --bins) && (cd "$HERE/cli" && cargo build --offline --locked --bins)
