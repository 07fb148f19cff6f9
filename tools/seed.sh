#!/bin/bash
# seed.sh <id> [check]: confirms a planted bug in a scratch copy: applies, builds, stable tests pass, demo discriminates;
# with "check", also runs the quick check of its property against it.
id=$1; S=/verif/seeded/$id; W=/tmp/seedwt-$id
. /opt/vp/env.sh
rm -rf "/tmp/seedwt-$id"; git -C /repo worktree prune; git -C /repo worktree add -q --detach "$W" HEAD || exit 1
trap 'git -C /repo worktree remove --force "/tmp/seedwt-$id"; rm -f "/tmp/seed-$id.json"' EXIT
cd "$W" || exit 1
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash "$S/demo.sh" >/tmp/seed-$id.log 2>&1; o=$?
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
bash "$S/demo.sh" >>/tmp/seed-$id.log 2>&1; d=$?
echo "$id ($prop): demo original=$o patched=$d"
if [ "$2" != "nocheck" ]; then
 go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed-$id.gojson 2>/dev/null
 python3 /opt/vp/results.py /tmp/seed-$id.json gojson:/tmp/seed-$id.gojson >/dev/null 2>&1
 python3 - "$id" <<'PY'
import json,sys
i=sys.argv[1]
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed-%s.json'%i))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if isinstance(x.get(k),list): return set(x[k])
    return set()
base=names(b); got=names(r)
print(i,'stable tests missing:',sorted(base-got)[:5], len(base), len(got))
PY
 rm -f /tmp/seed-$id.gojson
fi
if [ "$2" = "check" ]; then cd /verif && VERIF_REPO=$W ./check $prop quick | tail -4; echo "check rc=${PIPESTATUS[0]}"; fi
