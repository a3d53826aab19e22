#!/bin/bash
# tools/mutant.sh (PATCH | -r COMMIT | -b) ID...: run checks against a scratch copy of /repo
# with a patch applied, a commit reverted, or at the base commit.
set -e
d=$(mktemp -d /tmp/mut.XXXXXX)
trap 'rm -rf "$d"' EXIT
cp -a /repo "$d/repo"
case "$1" in
  -r) git -C "$d/repo" revert --no-commit "$2" >/dev/null; shift 2;;
  -b) git -C "$d/repo" checkout -q e8c389b; shift;;
  *) git -C "$d/repo" apply "$1"; shift;;
esac
for p in "$@"; do
  VP_REPO="$d/repo" VP_NOEVIDENCE=1 timeout 900 python3 "$(dirname "$0")/../run.py" check "$p" 2>&1 | cut -c1-600 | tail -4 || true
done
