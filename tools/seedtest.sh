#!/bin/bash
# seedtest.sh ID [PROP...]   Confirms a planted change in a scratch copy (applies, builds, passes the stable
# tests, demo 0 without / nonzero with it) and runs the named checks against the copy.
# NOTEST=1 skips the test suite.
id=$1; shift
W=/tmp/wt; V=/tmp/wtvp
if [ ! -d $W ]; then cp -a /repo $W; rm -rf $W/_build/cmake; mkdir -p $V; cp /opt/vp/* $V/ 2>/dev/null; sed -i "s#/repo#$W#g; s#/opt/vp#$V#g" $V/*.sh $V/*.py; fi
git -C $W fetch -q /repo HEAD && git -C $W checkout -q -f FETCH_HEAD && git -C $W clean -fdq
bash $V/build.sh > $V/b.log 2>&1 || { echo "base build failed"; exit 1; }
S=/verif/seeded/$id; D=/tmp/seeddemo-$id; mkdir -p $D; cp $S/* $D/; rm -f $D/*.diff $D/meta.json
(cd $W && timeout 300 bash $D/demo.sh > $V/demo0.log 2>&1); echo "demo without: $?"
git -C $W apply $S/patch.diff || exit 1
bash $V/build.sh > $V/b.log 2>&1 || { tail -20 $V/b.log; echo "build failed"; exit 1; }
(cd $W && timeout 300 bash $D/demo.sh > $V/demo1.log 2>&1); echo "demo with: $?"; tail -3 $V/demo1.log
if [ -z "$NOTEST" ]; then
  bash $V/test.sh $V/out.json > $V/t.log 2>&1
  python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); s=set(b['stable']); o=json.load(open('$V/out.json'))
print('stable tests lost:', sorted(s-set(o['passed']))[:5], len(s-set(o['passed'])))
P
fi
for p in "$@"; do echo "== $p"; (cd /verif && VERIF_REPO=$W VERIF_EVID=/tmp/seedevid python3 check.py $p quick 2>&1 | grep -E "VIOL|^   |rc|incon|failed|cases" | cut -c1-260 | head -${LINES_MAX:-8}); done
rm -rf $D
