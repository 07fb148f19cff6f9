#!/usr/bin/env python3
"""try.py <property> <file> <old> <new> [tier]: runs a check on a scratch copy with one textual change (development aid).
TRY_BASE names the tree to start from (default /repo)."""
import subprocess, sys, os, shutil, tempfile
pid, f, old, new = sys.argv[1:5]
base = os.environ.get("TRY_BASE", "/repo")
wt = tempfile.mkdtemp(prefix="try-", dir="/tmp") + "/r"
subprocess.run(["cp", "-a", base, wt], check=True)
try:
    p = os.path.join(wt, f); s = open(p).read()
    if old not in s: sys.exit("text not found")
    open(p, "w").write(s.replace(old, new, 1))
    r = subprocess.run(["./check", pid, sys.argv[5] if len(sys.argv) > 5 else "quick"], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, VERIF_REPO=wt), capture_output=True, text=True)
    o = r.stdout
    print("rc", r.returncode, o if len(o) < 1400 else o[:700] + "\n....\n" + o[-700:], r.stderr[-300:])
finally:
    shutil.rmtree(os.path.dirname(wt))
