#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: stores the uncommitted diff of the scratch worktree /tmp/w as a planted bug, resets it
set -e
s=/verif/seeded/$1; mkdir -p $s
git -C /tmp/w diff > $s/patch.diff
git -C /tmp/w checkout -q -- .
python3 - "$s/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
P
wc -l $s/patch.diff
