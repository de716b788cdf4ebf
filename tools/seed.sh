#!/bin/bash
# seed.sh ID...: confirm planted bugs in a scratch copy (/tmp/w), then run their property's check
# against /repo with the patch applied, and undo it.
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
w=/tmp/w
[ -d $w ] || { mkdir $w && (cd /repo && git archive HEAD | tar -x -C $w) && cp /repo/Cargo.lock $w/ && (cd $w && git init -q && git add -A && git commit -qm base); }
head=$(git -C /repo rev-parse HEAD)
if [ "$(cat $w/.git/srchead 2>/dev/null)" != "$head" ]; then (cd $w && git ls-files -z | xargs -0 rm -f; cd /repo && git archive HEAD | tar -x -C $w; cd $w && git add -A && git commit -qm "$head" ; echo $head >$w/.git/srchead); fi
if [ ! -f $w/.git/vp/test.sh ]; then mkdir -p $w/.git/vp; for f in common build test; do sed "s#cd /repo#cd $w#; s#/opt/vp/common.sh#$w/.git/vp/common.sh#" /opt/vp/$f.sh >$w/.git/vp/$f.sh; done; cp /opt/vp/results.py $w/.git/vp/; sed -i "s#/opt/vp/results.py#$w/.git/vp/results.py#" $w/.git/vp/test.sh; fi
git -C $w checkout -q -- .
(cd $w && timeout 300 bash $d/demo.sh >/tmp/seed.demo 2>&1); c=$?
git -C $w apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
b=skip;t=skip
if [ -z "$QUICK" ]; then
bash $w/.git/vp/build.sh >/tmp/seed.build 2>&1; b=$?
bash $w/.git/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
exp=set(b.get('stable',b.get('passed',[])) or [])
print(sorted(exp-set(o.get('passed',[])))[:3] or 'ok')
P
)
fi
(cd $w && timeout 300 bash $d/demo.sh >/tmp/seed.demo2 2>&1); p=$?
git -C $w checkout -q -- .
r=skip
if [ -z "$NOCHECK" ]; then
git -C /repo apply $d/patch.diff && (cd /verif && bash check.sh $prop quick >/tmp/seed.check 2>&1); r=$?; git -C /repo checkout -q -- .
fi
echo "$id $prop: demo clean=$c (0) build=$b tests=$t demo patched=$p (nonzero) check=$r (1) $(grep -m1 VIOLATION /tmp/seed.check)"
done
