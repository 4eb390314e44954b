#!/bin/bash
# try_seed.sh SEED [CHECK...]: runs the checks (default: the one of its property) on a scratch copy of /repo with the planted bug applied
cd "$(dirname "$0")/.." || exit 2
PWD0=$PWD; d=seeded/$1; shift
p=${*:-$(/opt/venv/bin/python -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/tryseed.XXXXXX)
trap 'rm -rf "$t"' EXIT
git -C /repo archive HEAD | tar -x -C "$t" && (cd "$t" && git init -q . && git apply "$PWD0/$d/patch.diff") || exit 2
for c in $p; do
  CAPYSIM_TREE=$t timeout 900 ./check.py "$c" --tier quick > /tmp/try_$c.log 2>&1; rc=$?
  echo "$d $c rc=$rc $(grep -m1 '^VIOLATION' /tmp/try_$c.log | cut -c1-150) $(grep -m2 'class\|message' /tmp/try_$c.log | tr '\n' ' ' | cut -c1-200)"
done
