#!/bin/bash
# tools/plant.sh ID [check...]: validates seeded/ID against /repo and runs its property's check (or the given ones) on it.
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
tmp=$(mktemp -d); cp -r "$d" "$tmp/x"; rm -f "$tmp/x/patch.diff" "$tmp/x/meta.json"
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo "$id: clean build failed"; exit 2; }
timeout 300 bash "$tmp/x/demo.sh" >/tmp/demo.clean 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1; b=$?
timeout 300 bash "$tmp/x/demo.sh" >/tmp/demo.bug 2>&1; c=$?
t=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1; t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/plant.json'))['passed'])
print(len(b-o))"); fi
res=""
for k in ${@:-$prop}; do VERIF_SEED=${VERIF_SEED:-1} node /verif/harness/run.mjs $k >/tmp/plant.check.$k 2>&1; res="$res $k=$?"; done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf "$tmp"
ok=OK; [ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ] && { [ "$t" = 0 ] || [ "$t" = skip ]; } || ok=BAD
echo "$id $ok clean-demo=$a build=$b bug-demo=$c tests-broken=$t checks:$res"
