#!/bin/bash
# try_patch.sh PATCH PROP...   run checks against a scratch copy of /repo with PATCH applied (-R REV to revert a commit)
set -e
patch=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/skbmut.XXXXXX)
trap 'rm -rf "$d"' EXIT
git -C /repo archive HEAD | tar x -C "$d"
(cd "$d" && git init -q . && git apply ${REV:+-R} "$patch")
for p in "$@"; do SKB_REPO=$d python3 "$(dirname "$0")/../check.py" $p ${ARGS} 2>&1 | cut -c1-600; done
