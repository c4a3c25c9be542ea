#!/bin/bash
# bash tools/seed_check.sh ID [tests|notests] [PROP...]
# Validate one planted bug in a scratch copy: applies, demo both ways, tests, checks.
id=$1; tests=${2:-tests}; shift 2
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
s=$(mktemp -d /tmp/seedck.XXXXXX)
cp -a /repo "$s/repo"; cp -a "$d" "$s/demo"
trap 'rm -rf "$s"' EXIT
cd "$s/repo" || exit 1
git checkout -q -- . 
( timeout 300 bash "$s/demo/demo.sh" >"$s/d0.log" 2>&1 ); r0=$?
git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
( timeout 300 bash "$s/demo/demo.sh" >"$s/d1.log" 2>&1 ); r1=$?
echo "$id: demo unpatched=$r0 patched=$r1"
[ $r0 != 0 ] && tail -5 "$s/d0.log"
[ $r1 = 0 ] && echo "$id: DEMO DOES NOT FAIL"
tail -1 "$s/d1.log" | cut -c1-200
if [ "$tests" = tests ]; then
  PYTHONPATH="$s/repo" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --timeout=300 >"$s/t.log" 2>&1
  echo "$id: tests rc=$? $(tail -1 "$s/t.log")"; grep -E '^(FAILED|ERROR)' "$s/t.log" | head -5
fi
if [ $# = 0 ]; then set -- $(/usr/bin/python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); fi
cd "$here"
for p in "$@"; do
  VERIF_REPO="$s/repo" VERIF_SEED=1 timeout 900 /opt/venv/bin/python run.py $p --tier quick >"$s/c.log" 2>&1; rc=$?
  echo "$id: check $p rc=$rc $(grep -m1 VIOLATION "$s/c.log" | cut -c1-200)"
done
