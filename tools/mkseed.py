#!/usr/bin/env python3
"""mkseed.py <id>: reads /verif/tools-free spec from stdin (python): builds seeded/<id> from (file, old, new) edits and a demo test body."""
import sys, json, os, subprocess
def make(id, prop, needs, breaks, edits, demo_go, run="TestDemo", race=False, pkg="lens"):
    W = "/tmp/mkseed"
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W], capture_output=True)
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", W, "HEAD"])
    try:
        for f, old, new, *first in edits:
            p = os.path.join(W, f); s = open(p).read()
            assert s.count(old) == 1 or first, (id, f, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new, 1))
        subprocess.check_call(["gofmt", "-l", "-w", os.path.join(W, "lens")], stdout=subprocess.DEVNULL)
        d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", W])
    S = "/verif/seeded/" + id
    os.makedirs(S, exist_ok=True)
    open(S + "/patch.diff", "w").write(d)
    open(S + "/demo_test.go.txt", "w").write(demo_go)
    open(S + "/demo.sh", "w").write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated case, nonzero when it is broken
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d /tmp/demo.XXXXXX)
trap 'chmod -R u+w "$tmp"; rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
printf '{"Replace": {"%%s/%s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$tmp" > "$tmp/ov.json"
export TMPDIR="$tmp"
go test -vet=off -count=1 -timeout 200s%s -overlay "$tmp/ov.json" -run '^%s$' ./%s
''' % (pkg, " -race" if race else "", run, pkg))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(S + "/meta.json", "w"), indent=1)
