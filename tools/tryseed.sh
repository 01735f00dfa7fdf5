#!/bin/bash
# tryseed.sh ID [tests]: demo on the clean tree and with the patch, the property's check with the patch, optionally the tests
# (everything in a scratch copy of /repo except the stable tests, which test.sh only runs on /repo)
id=$1; D=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 2; }
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
( cd /repo && bash "$D/demo.sh" >/tmp/seed.$id.clean 2>&1 ); a=$?
git -C /repo apply "$D/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.$id.build 2>&1; bld=$?
( cd /repo && timeout 300 bash "$D/demo.sh" >/tmp/seed.$id.bug 2>&1 ); b=$?
c=-
for p in $prop $3; do ( cd /verif && ./run $p quick > /tmp/seed.$id.check.$p 2>&1 ); c="$c $p=$?"; done
t=skipped
if [ "$2" = tests ]; then bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
t=$(/opt/venv/bin/python - <<E2
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seed.$id.json'))
p=r.get('passed'); p=set(p) if p is not None else {k for k,v in r.items() if v in ('passed','pass',True)}
print('missing', sorted(b-p)[:3] if b-p else 0)
E2
)
fi
git -C /repo checkout -q -- .
echo "$id: build=$bld demo clean=$a bug=$b check:$c tests=$t"
