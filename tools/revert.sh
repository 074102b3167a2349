#!/bin/bash
# usage: tools/revert.sh COMMIT PROPERTY...   - the checks must report a reverted fix again
set -u
d=$(mktemp -d /tmp/vp-revert-XXXX)
git clone -q /repo "$d/repo"
rsync -a --exclude .git --ignore-existing /repo/ "$d/repo/" 2>/dev/null || cp -an /repo/. "$d/repo/" 2>/dev/null
cd "$d/repo" && git revert -n "$1" >/dev/null 2>&1 || echo "revert failed"
c=$1; shift
for p in "$@"; do
  cd /verif && VERIF_REPO="$d/repo" ./check $p > "$d/log" 2>&1; rc=$?
  echo "$c $p rc=$rc $(grep -c VIOLATION "$d/log")"
  git -C /verif status --short >/dev/null
done
rm -rf "$d"
