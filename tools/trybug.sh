#!/bin/bash
# trybug.sh BUG [PROPERTY...]: runs checks on a scratch copy with the bug.
V="$(cd "$(dirname "$0")/.." && pwd)"; b=$1; shift
props=${*:-$(python3 -c "import json;print(json.load(open('$V/seeded/$b/meta.json'))['property'])")}
w=$(mktemp -d /tmp/try-XXXXXX); cp -a /repo $w/repo
git -C $w/repo checkout -q -- . ; git -C $w/repo apply $V/seeded/$b/patch.diff || exit 9
for p in $props; do
  DST_REPO=$w/repo DST_OUT=$w timeout 900 $V/check $p quick > $w/out.$p 2>&1; rc=$?
  echo "$b $p rc=$rc $(grep -m1 -A1 VIOLATION $w/out.$p | tr '\n' ' ' | cut -c1-300)"
  [ $rc -ge 2 ] && tail -5 $w/out.$p
done
find "$w" -delete
