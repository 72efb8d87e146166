#!/bin/bash
# mut.sh PATCH CHECK [tier]: run a check against a scratch copy of /repo with a patch applied
p=$(readlink -f "$1"); d=$(mktemp -d /tmp/mut.XXXXXX); trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar -x -C "$d"
( cd "$d" && git init -q . 2>/dev/null; git apply "$p" ) || { echo "patch does not apply"; exit 9; }
cd /verif && VP_REPO=$d python3 check.py "$2" ${3:-quick}; echo "exit $?"
