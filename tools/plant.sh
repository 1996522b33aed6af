#!/bin/bash
# tools/plant.sh ID [CHECK-ID]: confirms a planted bug in a scratch copy: patch applies, demo passes before and fails after,
# builds, stable tests pass; then runs the check of its property against the patched copy.
# Options by environment: SKIP_TESTS=1, SKIP_CHECK=1, TIME=seconds of search
set -u
ID=$1; S=/verif/seeded/$ID
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
W=/tmp/plant-$ID
rm -rf "$W"; mkdir -p $W
cp -a /repo $W/repo; cp -a /opt/vp $W/vp
sed -i "s#/opt/vp#$W/vp#g; s#^REPO=/repo#REPO=$W/repo#" $W/vp/*.sh $W/vp/*.py
git -C $W/repo checkout -q -- .
mkdir $W/demo; cp -r $S/. $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo
if [ -z "${SKIP_DEMO:-}" ]; then
t=$(date +%s); timeout 300 bash $W/demo/demo.sh > $W/demo0.out 2>&1; rc=$?; echo "demo unpatched: rc $rc ($(( $(date +%s)-t )) s)"; [ $rc -ne 0 ] && tail -5 $W/demo0.out
fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash $W/vp/build.sh > $W/build.out 2>&1 || { echo "BUILD FAILED"; tail -5 $W/build.out; }
if [ -z "${SKIP_DEMO:-}" ]; then
t=$(date +%s); timeout 300 bash $W/demo/demo.sh > $W/demo1.out 2>&1; rc=$?; echo "demo patched: rc $rc ($(( $(date +%s)-t )) s)"; tail -3 $W/demo1.out
fi
if [ -z "${SKIP_TESTS:-}" ]; then
  bash $W/vp/test.sh $W/t.json > $W/test.out 2>&1
  python3 - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('$W/t.json'))['passed'])
print('stable tests: %d of %d pass' % (len(b&t), len(b))); print(sorted(b-t)[:5])
PY
fi
if [ -z "${SKIP_CHECK:-}" ]; then
  cd /verif && HILA_REPO=$W/repo python3 check.py $P --time ${TIME:-40} 2>&1 | tail -4; echo "check rc ${PIPESTATUS[0]}"
fi
rm -rf "$W/repo" "$W/vp"
