#!/bin/bash
# Runs the checks against a copy of /repo with each of the patches beside this file applied; they must all stay quiet.
# usage: tools/refactor/run.sh [PATCH.diff] [P01 ...]
here=$(dirname "$(realpath "$0")")
verif=$(dirname "$(dirname "$here")")
sel="$here/*.diff"
case "$1" in *.diff) sel=$(realpath "$1"); shift;; esac
[ $# -gt 0 ] || set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('$verif/MANIFEST.json'))['checks']])")
for patch in $sel; do
    work=/tmp/refactor.$(basename "$patch" .diff)
    rm -rf "$work"; mkdir "$work"; cp -a /repo "$work/repo"; cp -a "$verif" "$work/verif"
    git -C "$work/repo" apply "$patch" || exit 1
    for p in "$@"; do
        s=$(date +%s)
        (cd "$work/verif"; PODO_REPO="$work/repo" timeout 900 python3-vt check.py "$p" > "$work/out.$p" 2>&1)
        rc=$?
        echo "$(basename "$patch") $p rc $rc $(($(date +%s) - s)) s $(grep -m1 -h 'VIOLATION\|NO VERDICT' "$work/out.$p" | cut -c1-200)"
    done
done
