#!/bin/bash
# Run each planted bug's property check against a scratch copy of /repo with the bug. usage: catch.sh [-j N] [id ...]
cd /verif
J=1; [ "$1" = "-j" ] && { J=$2; shift 2; }
one() {
  d=$1; R=/tmp/catch_repo_$d
  rm -rf "$R"; cp -a /repo "$R"; git -C "$R" checkout -q -- .
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C "$R" apply "/verif/seeded/$d/patch.diff" || { echo "$d APPLY-FAILED"; rm -rf "$R"; return; }
  VERIF_REPO=$R VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check "$p" quick > "/tmp/catch_$d.txt" 2>&1; rc=$?
  rm -rf "$R"
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " "/tmp/catch_$d.txt"; then echo "$d $p caught"; else echo "$d $p MISSED rc=$rc"; fi
}
export -f one
ls seeded > /tmp/catch_ids; [ $# -gt 0 ] && printf '%s\n' "$@" > /tmp/catch_ids
xargs -a /tmp/catch_ids -P "$J" -I{} bash -c 'one {}'
