#!/bin/bash
# usage: seedtest.sh ID...   confirms a planted change: applies, builds, keeps the stable tests passing, demo 0 without / nonzero with; then runs the property's check
V=$(cd "$(dirname "$0")/.."; pwd)
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  S=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  T=$(mktemp -d); cp "$S"/* "$T"/ 2>/dev/null; rm -f "$T"/*.diff "$T"/meta.json
  (cd /repo && bash "$T/demo.sh" >"$T/clean.log" 2>&1); c=$?
  git -C /repo apply "$S/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >"$T/build.log" 2>&1; b=$?
  [ -n "$NOTEST" ] || bash /opt/vp/test.sh "$T/t.json" >"$T/test.log" 2>&1
  t=$([ -n "$NOTEST" ] && echo skipped || python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('$T/t.json'))['passed']);print('ok' if set(b)<=p else 'BROKEN %s'%(set(b)-p))")
  (cd /repo && timeout 300 bash "$T/demo.sh" >"$T/patched.log" 2>&1); d=$?
  [ -n "$NOCHECK" ] || { (cd $V && python3 check.py $P >"$T/check.log" 2>&1); k=$?; }
  git -C /repo checkout -- .
  echo "$id ($P): demo clean=$c patched=$d build=$b tests=$t check=$k $(grep -h '  key:' $T/check.log 2>/dev/null | head -3 | tr '\n' ' ')"
  [ "$c" = 0 ] || tail -5 "$T/clean.log"
  [ "$b" = 0 ] || tail -5 "$T/build.log"
  [ -n "$SHOW" ] && tail -3 "$T/patched.log"
  rm -rf "$T"
done
bash /opt/vp/build.sh >/dev/null 2>&1
[ -z "$(git -C /repo status --porcelain)" ] || echo "WARNING /repo not clean"
