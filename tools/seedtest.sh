#!/bin/bash
# seedtest.sh <id>...: in a scratch copy of /repo, run the demo without and with the patch.
for id in "$@"; do
    S=/verif/seeded/$id
    W=$(mktemp -d /tmp/seedtest.XXXXXX)
    git -C /repo worktree list >/dev/null
    mkdir "$W/repo" && git -C /repo archive HEAD | tar -x -C "$W/repo"
    cp -r "$S" "$W/demo"
    (cd "$W/repo" && bash "$W/demo/demo.sh" >"$W/a" 2>&1); a=$?
    (cd "$W/repo" && git init -q . && git apply "$S/patch.diff") || echo "$id: patch does not apply"
    (cd "$W/repo" && bash "$W/demo/demo.sh" >"$W/b" 2>&1); b=$?
    echo "$id: clean=$a patched=$b :: $(tail -n 1 "$W/a") :: $(grep -v '^note' "$W/b" | tail -n 2 | tr '\n' ' ' | cut -c1-300)"
    rm -rf "$W"
done
