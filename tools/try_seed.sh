#!/bin/bash
# tools/try_seed.sh ID [notest]: confirms a planted bug of seeded/ID in a scratch copy: demo, tests, and the check of its property
id=$1
here=$(cd "$(dirname "$0")/.." && pwd)
d=$here/seeded/$id
s=/tmp/seed_$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
export PYTHONDONTWRITEBYTECODE=1
(cd /repo && bash "$d/demo.sh" >/tmp/seed_$id.out 2>&1); a=$?
cp -a /repo "$s"
(cd "$s" && git checkout -q -- . && git apply "$d/patch.diff") || { echo "$id: patch does not apply"; rm -rf "$s"; exit 1; }
sed "s#/repo#$s#g" $d/demo.sh > /tmp/seed_$id.demo.sh
mkdir -p /tmp/seed_$id.d && cp $d/* /tmp/seed_$id.d/ && (cd "$s" && PYTHONPATH=$s bash /tmp/seed_$id.d/demo.sh >>/tmp/seed_$id.out 2>&1); b=$?
t=skipped
if [ "$2" != notest ]; then
  sed "s#cd /repo#cd $s#; s#PYTHONPATH=/opt/vp#PYTHONPATH=$s:/opt/vp#; s#report=/opt/vp/report.xml#report=/tmp/seed_$id.xml#" /opt/vp/test.sh > /tmp/seed_$id.test.sh
  PYTHONPATH=$s:/opt/vp bash /tmp/seed_$id.test.sh /tmp/seed_$id.json > /tmp/seed_$id.log 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed_$id.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k])
    return {k for k,v in d.get('tests',d).items() if v in ('passed','pass',True)}
m=passed(b)-passed(o)
print('tests:', len(passed(o)), 'passed; stable tests missing:', sorted(m)[:5])
P
)
fi
VERIF_REPO=$s timeout 900 "$here/check.sh" $prop --no-evidence > /tmp/seed_$id.check 2>&1; c=$?
echo "$id ($prop): demo clean=$a patched=$b; $t; check exit=$c $(grep -c '^VIOLATION' /tmp/seed_$id.check) violation(s)"
rm -rf "$s" /tmp/seed_$id.d
