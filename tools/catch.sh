#!/bin/bash
# catch.sh [-c Cxx] [-t tier] SID...: for each planted bug, run the check of its property (or Cxx) on a patched
# copy of /repo, in a mount namespace of its own: neither /repo nor /verif is touched. Not used by any check.
tier=quick
while getopts c:t: o; do case $o in c) C=$OPTARG;; t) tier=$OPTARG;; esac; done
shift $((OPTIND-1))
for s in "$@"; do
  d=/verif/seeded/$s
  [ -d "$d" ] || d=$s
  p=${C:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
  w=$(mktemp -d /tmp/catch.XXXXXX)
  mkdir "$w/repo" "$w/verif"
  git -C /repo archive HEAD | tar -x -C "$w/repo"
  cp /repo/Cargo.lock "$w/repo/" 2>/dev/null
  (cd /verif && tar -c --exclude=./.git --exclude=./seeded --exclude=./evidence --exclude=./build . ) | tar -x -C "$w/verif"
  (cd "$w/repo" && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm base && git apply "$d/patch.diff") || { echo "$s NOAPPLY"; rm -rf "$w"; continue; }
  t0=$(date +%s)
  unshare -m bash -c "mount --bind $w/repo /repo && mount --bind $w/verif /verif && cd /verif && mkdir -p evidence && timeout 900 python3 check.py $p --tier $tier" > "$w/out" 2>&1; rc=$?
  t1=$(date +%s)
  echo "$s $p rc=$rc $((t1-t0))s $(grep -m1 '^VIOLATION' "$w/out")"
  [ $rc = 1 ] || { tail -5 "$w/out"; cp "$w/out" /tmp/catch.last; }
  rm -rf "$w"
done
