#!/bin/bash
# confirm.sh ID [--check [Cxx]]: types/tests/demos a planted change in a scratch copy of /repo (/tmp/seedwt); with --check runs the property's check on it
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
W=/tmp/seedwt
[ -d $W ] || cp -a /repo $W
cd $W; git checkout -q -- .; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
trap 'git -C /tmp/seedwt checkout -q -- .' EXIT
types() { node_modules/.bin/tsc --noEmit -p tsconfig.lib.json | grep -c 'error TS'; }
[ -f /tmp/seedwt.types ] || types > /tmp/seedwt.types
timeout 300 "$D/demo.sh" >/tmp/demo0.out 2>&1 || { echo "$1: DEMO FAILS ON CLEAN TREE"; head -20 /tmp/demo0.out; exit 1; }
git apply "$D/patch.diff" || exit 1
[ "$(types)" -le "$(cat /tmp/seedwt.types)" ] || echo "$1: (types differ)"
/verif/tools/stable.sh $W || { echo "$1: TESTS FAIL"; exit 1; }
timeout 300 "$D/demo.sh" >/tmp/demo1.out 2>&1 && { echo "$1: DEMO DOES NOT FAIL WITH PATCH"; exit 1; }
grep -m1 -E "Error|timed out" /tmp/demo1.out
if [ "$2" = --check ]; then
  cd /verif; VERIF_REPO=$W VERIF_SEED=1 node bin/check.mjs ${3:-$P} --tier quick >/tmp/c.out 2>&1; rc=$?
  echo "$1: confirmed; check ${3:-$P} -> $rc"; grep -m3 -A1 VIOLATION /tmp/c.out | cut -c1-300; [ $rc = 3 ] && tail -5 /tmp/c.out
else echo "$1: confirmed"; fi
exit 0
