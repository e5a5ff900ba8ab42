#!/bin/bash
# seedrun.sh <seed id> <check id>...: apply the patch to /repo, run the checks, undo.
id=$1; shift
git -C /repo apply /verif/seeded/$id/patch.diff || exit 3
for c in "$@"; do
    /verif/check.sh $c quick >/tmp/seedrun.out 2>/tmp/seedrun.err; rc=$?
    echo "$id: $c rc=$rc $(grep -m1 '^key:' /tmp/seedrun.err | cut -c1-200) $(tail -1 /tmp/seedrun.err | cut -c1-100)"
done
git -C /repo checkout -- .
