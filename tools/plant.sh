#!/bin/bash
# plant.sh ID: validate seeded/ID in a scratch copy: applies, builds, stable tests pass, demo 0 without / nonzero with
id=$1; d=/verif/seeded/$id; c=/tmp/plant
[ -d $c/repo ] || { mkdir -p $c; cp -a /repo $c/repo; }
git -C $c/repo fetch -q /repo HEAD && git -C $c/repo checkout -q -f FETCH_HEAD
[ -f $d/demo.sh ] || cp /verif/tools/demo.sh $d/demo.sh
(cd $c/repo && bash $d/demo.sh >/tmp/plant/clean.log 2>&1); a=$?
git -C $c/repo apply $d/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
(cd $c/repo && bash $d/demo.sh >/tmp/plant/bug.log 2>&1); b=$?
t=$(sed "s#/repo#$c/repo#g" /opt/vp/test.sh >/tmp/plant/test.sh; sed "s#cd /repo#cd $c/repo#" /opt/vp/env.sh >/tmp/plant/env.sh; sed -i "s#/opt/vp/env.sh#/tmp/plant/env.sh#g" /tmp/plant/test.sh; bash /tmp/plant/test.sh /tmp/plant/out.json >/tmp/plant/test.log 2>&1; python3 - <<'P'
import json
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/plant/out.json'))
b=set(base['passing'] if 'passing' in base else base.get('stable',base.get('passed',[]))); p=set(out.get('passed',out.get('passing',[])))
print(len(b),'missing',len(b-p),sorted(b-p)[:3])
P
)
git -C $c/repo checkout -q -f .
echo "$id: demo clean=$a bug=$b tests: $t"; tail -2 /tmp/plant/bug.log
