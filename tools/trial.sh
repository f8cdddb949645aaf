#!/bin/bash
# development aid: trial.sh PATCH ID...  runs checks against a scratch copy of /repo with PATCH applied
p=$(realpath "$1"); shift
d=$(mktemp -d /tmp/trial.XXXXXX); cp -a /repo "$d/repo"
git -C "$d/repo" apply "$p" || { echo "PATCH DOES NOT APPLY"; rm -rf "$d"; exit 3; }
(cd "$d/repo" && gcc -fsyntax-only -Wall *.c -w) || { echo "DOES NOT COMPILE"; rm -rf "$d"; exit 4; }
for i in "$@"; do
  VX_REPO="$d/repo" timeout 900 python3-vt "$(dirname "$0")/../check.py" "$i" --tier quick 2>&1 | sed "s/^/[$i] /" | cut -c1-260 | grep -v '^\[C..\]   not decided' | head -${LINES_MAX:-8}
done
rm -rf "$d"
