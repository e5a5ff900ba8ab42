#!/bin/bash
# check.sh <property> [quick|thorough]: build the check against /repo's working tree and run it.
# exit 0: held on everything explored; 1 (and a VIOLATION line): broken; other: error of the check.
HERE=$(cd "$(dirname "$0")" && pwd)
ID=$1
TIER=${2:-${VERIF_TIER:-quick}}
. "$HERE/env.sh"
export CARGO_TARGET_DIR=$HERE/target VERIF_DIR=$HERE VERIF_TIER=$TIER
BIN=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p "$HERE/target" "$HERE/evidence"
LOG=$HERE/target/build-$BIN.log
build() { # dir args...
    (cd "$HERE/$1" && shift && cargo build --offline --locked "$@") >"$LOG" 2>&1 || {
        tail -n 60 "$LOG" >&2
        echo "check $ID: build failed" >&2
        exit 2
    }
}
case $ID in
C09) build cli --bins ;;
esac
build mc --bin "$BIN"
LIMIT=840
[ "$TIER" = thorough ] && LIMIT=${VERIF_THOROUGH_S:-7200}
run() { timeout --signal=KILL "$LIMIT" "$HERE/target/debug/$BIN" "$TIER"; }
run
rc=$?
if [ $rc -gt 128 ] && [ $rc -ne 137 ]; then
    # the code under test killed the process (stack overflow, abort): believed only if it repeats
    run
    rc2=$?
    if [ $rc2 -eq $rc ]; then
        mkdir -p "$HERE/replay"
        echo "the process of check $ID ends by signal $((rc - 128)) on every run of: $HERE/target/debug/$BIN $TIER" >"$HERE/replay/$ID.txt"
        echo "VIOLATION property=$ID replay=$HERE/replay/$ID.txt"
        exit 1
    fi
    rc=$rc2
fi
exit $rc
