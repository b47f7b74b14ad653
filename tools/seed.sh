#!/bin/bash
# seed.sh ID: validates /verif/seeded/ID in a scratch copy: applies, builds, stable tests pass, demo 0 on clean / nonzero with patch.
S=/verif/seeded/$1; W=$(mktemp -d /tmp/seedw.XXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; mkdir $W/demo; cp $S/* $W/demo/; rm -f $W/demo/*.diff $W/demo/meta.json
cd $W/repo && git checkout -q -- . 
demo() { (cd $W/repo && timeout 300 bash $W/demo/demo.sh >$W/out 2>&1); }
demo; a=$?
[ $a = 0 ] || { echo "$1: demo fails on clean tree ($a)"; tail -5 $W/out; exit 1; }
git apply $S/patch.diff || { echo "$1: does not apply"; exit 1; }
demo; b=$?
[ $b != 0 ] || { echo "$1: demo passes with patch"; exit 1; }
sed "s#cd /repo#cd $W/repo#; s#/opt/vp/work#$W/work#" /opt/vp/test.sh > $W/test.sh
(cd $W/repo && . /opt/vp/env.sh && go build ./... ) || { echo "$1: does not build"; exit 1; }
mkdir -p $W/work; bash $W/test.sh $W/r.json >/dev/null 2>&1
python3 - $W/r.json <<'P'
import json,sys
r=json.load(open(sys.argv[1]));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
p=set(r['passed'] if 'passed' in r else r['pass'])
print('stable', len(b), 'missing', sorted(b-p)[:5]); sys.exit(1 if b-p else 0)
P
t=$?
[ $t = 0 ] || { echo "$1: TESTS FAIL"; exit 1; }
echo "$1: demo clean=$a patched=$b tests=ok"
