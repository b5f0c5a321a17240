#!/bin/bash
# development helper: confirms one planted change in a scratch copy. usage: seedtest.sh ID [PROP...]
set -u
ID=$1; shift
W=/tmp/seedwt_$ID; V=/tmp/seedvp_$ID
rm -rf "$W" "$V"
mkdir "$W" && (cd /repo && tar c --exclude=./_build .) | tar x -C "$W"; cp -a /opt/vp "$V"
sed -i "s#/repo#$W#g; s#/opt/vp#$V#g" $V/*.sh $V/*.py
git -C "$W" checkout -q -- . 
S=/verif/seeded/$ID
cp -a $S "$V/demo"; rm -f $V/demo/*.diff $V/demo/meta.json
fail=0
(cd $W && timeout 300 bash $V/build.sh > $V/b0.log 2>&1) || { echo "clean build failed"; fail=1; }
(cd $W && timeout 300 bash $V/demo/demo.sh > $V/d0.log 2>&1); d0=$?
git -C "$W" apply $S/patch.diff || { echo "patch does not apply"; fail=1; }
(cd $W && timeout 300 bash $V/build.sh > $V/b1.log 2>&1) || { echo "patched build failed"; tail -n 5 $V/b1.log; fail=1; }
(cd $W && timeout 300 bash $V/demo/demo.sh > $V/d1.log 2>&1); d1=$?
(cd $W && timeout 600 bash $V/test.sh $V/t.json > $V/t.log 2>&1)
left=$(python3 -c "
import json;t=json.load(open('$V/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(len(set(b['stable'])-set(t['passed'])))")
echo "$ID: demo clean=$d0 patched=$d1 stable-tests-broken=$left"
[ $d0 = 0 ] && [ $d1 != 0 ] && [ "$left" = 0 ] || { fail=1; tail -n 5 $V/d0.log $V/d1.log; }
for p in "$@"; do
  (cd /verif && PICSAR_REPO=$W DV_OUT=$V timeout 880 ./check $p quick) 2>&1 | grep -v '^  *$' | tail -4 | cut -c1-220
done
rm -rf "$W" "$V"
exit $fail
