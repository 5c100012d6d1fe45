#!/bin/bash
# usage: tools/try_seeds.sh [ID...]  Applies each planted bug to /repo, runs its property's check, undoes it.
# Prints: id property caught|MISSED|?rc seconds first-line-of-reason
root=$(cd "$(dirname "$0")/.." && pwd)
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 1; }
[ $# -gt 0 ] || set -- $(ls "$root/seeded")
for s in "$@"; do
    p=${CHECK:-$(sed -n 's/.*"property": "\([^"]*\)".*/\1/p' "$root/seeded/$s/meta.json")}
    git -C /repo apply "$root/seeded/$s/patch.diff" || { echo "$s DOES NOT APPLY"; continue; }
    t=$SECONDS
    out=$(bash "$root/check.sh" "$p" 2>&1)
    rc=$?
    git -C /repo checkout -q -- .
    case $rc in 1) v=caught ;; 0) v=MISSED ;; *) v="?$rc" ;; esac
    echo "$s $p $v $((SECONDS - t))s $(echo "$out" | grep -A2 VIOLATION | tail -1 | cut -c1-160)"
done
