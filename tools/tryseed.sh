#!/bin/bash
# tryseed.sh SEED [PROPERTY...] : run the checks against a planted change, then undo it
s=$1; shift; V=${VERIF:-/verif}; R=${REPO:-/repo}; d=$V/seeded/$s
ps=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C $R apply "$d/patch.diff" || exit 1
trap 'git -C $R checkout -q -- .' EXIT
for p in $ps; do
  out=$($V/run.sh $p quick 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations; $(echo "$out" | tail -1)"
  echo "$out" | grep -A5 -m1 ^VIOLATION | sed 's/^/    /' | cut -c1-200
done
