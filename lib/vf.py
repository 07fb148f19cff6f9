"""Shared driver for all checks: runs TLC, builds the Go harness from /repo's working tree through an
overlay, runs it, validates traces, writes evidence and decides the exit status.

Exit status: 0 property held on everything explored, 1 VIOLATION on real code, 2 no answer."""
import threading, resource
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOT_BIN = "/opt/veriftools/go1.25.14/bin"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class NoAnswer(Exception):
    pass

def go_env(extra=None):
    env = dict(os.environ)
    for k in ("GOFLAGS", "GOROOT", "GOPATH", "GOWORK", "GOENV"):
        env.pop(k, None)
    env.setdefault("HOME", "/root")
    env["PATH"] = GOROOT_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=os.path.join(VERIF, ".build", "gocache"))
    if extra:
        env.update(extra)
    return env

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        base = os.path.join("/tmp", "vf-scratch")
        os.makedirs(base, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []      # list of dict(what, replay)
        self.known_hits = []
        self.notes = {}
        self.assumptions = []
        self.models = []
        self.known = load_known(pid)
        self.verif = VERIF

    # ---------- TLC ----------
    def tlc(self, module, cfg=None, workers="auto", simulate=None, depth=None, env=None, timeout=600,
            extra=(), label=None, seed=None, heap="6g", dfs=False, expect_ok=True, count=True):
        """Runs TLC on spec/<module>.tla with spec/<cfg>. Returns dict(stdout, generated, distinct, ok)."""
        wd = os.path.join(self.scratch, "tlc-" + (label or module) + "-%d" % len(self.models) + "-%d" % threading.get_ident())
        shutil.copytree(os.path.join(VERIF, "spec"), wd)
        cfg = cfg or module + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-Xmx" + heap, "-Xss16m"]
        if dfs:
            cmd += ["-Dtlc2.tool.queue.IStateQueue=StateDeque"]
        cmd += ["-cp", CP, "tlc2.TLC", "-noTE", "-deadlock" , "-workers", str(workers), "-metadir", os.path.join(wd, "states"),
                "-config", cfg]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(self.seed if seed is None else seed)]
        if depth:
            cmd += ["-depth", str(depth)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise NoAnswer("TLC timeout on %s/%s" % (module, cfg))
        out = p.stdout
        res = {"stdout": out, "rc": p.returncode, "ok": p.returncode == 0, "wall": time.time() - t, "dir": wd}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            res["generated"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            n = int(m[-1].replace(",", "")) if m else 0
            res["generated"] = res["distinct"] = n
        if expect_ok and p.returncode != 0:
            raise NoAnswer("TLC failed on %s/%s (rc %d):\n%s" % (module, cfg, p.returncode, out[-1500:]))
        if count:
            self.states += res["distinct"]
            self.transitions += res["generated"]
        self.models.append({"model": module, "cfg": cfg, "distinct": res["distinct"], "generated": res["generated"],
                            "mode": "simulate" if simulate else "exhaustive", "wall_s": round(res["wall"], 1)})
        return res

    def gen(self, module, cfg=None, **kw):
        """Runs a generating model that writes one JSON document per line to the file named by env OUT.
        Simulations run as parallel single-worker processes with seeds of their own (the workers of one TLC
        process draw the same random elements); simulate= is the number of behaviours per process."""
        path = os.path.join(self.scratch, "cases-%s-%d.ndjson" % (module, len(self.models)))
        env = dict(kw.pop("env", None) or {})
        if kw.get("simulate"):
            import concurrent.futures
            procs = kw.pop("procs", 8)
            def one(i):
                e = dict(env, OUT="%s.%d" % (path, i))
                open(e["OUT"], "w").close()
                self.tlc(module, cfg, env=e, workers=1, seed=self.seed * 1000 + i, label="%s-%d" % (module, i), heap="2g", **kw)
            with concurrent.futures.ThreadPoolExecutor(procs) as ex:
                for f in [ex.submit(one, i) for i in range(procs)]:
                    f.result()
            lines = []
            for i in range(procs):
                lines += open("%s.%d" % (path, i)).read().splitlines()
                os.remove("%s.%d" % (path, i))
            uniq = list(dict.fromkeys(lines))
            if len(lines) >= 50 and len(uniq) * 5 < len(lines):
                raise NoAnswer("model %s: only %d of %d generated cases differ" % (module, len(uniq), len(lines)))
            with open(path, "w") as f:
                f.write("".join(l + "\n" for l in uniq))
            n = len(uniq)
        else:
            env["OUT"] = path
            open(path, "w").close()
            self.tlc(module, cfg, env=env, **kw)
            n = sum(1 for _ in open(path))
        if n == 0:
            raise NoAnswer("model %s generated no case" % module)
        return path, n

    # ---------- Go harness ----------
    def build(self, files, name="h", race=False, pkg="lens", keep_repo_tests=False):
        """Compiles the in-package harness (harness/common_test.go + files) against the working tree."""
        rep = {}
        pdir = os.path.join(REPO, pkg)
        if not keep_repo_tests:
            for f in glob.glob(os.path.join(pdir, "*_test.go")):
                rep[f] = ""
        for f in files:
            src = f if os.path.isabs(f) else os.path.join(VERIF, "harness", f)
            f = os.path.basename(f)
            if not os.path.exists(src):
                raise NoAnswer("missing harness file " + src)
            rep[os.path.join(pdir, "zz_verif_" + f)] = src
        ov = os.path.join(self.scratch, name + "-overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        binp = os.path.join(self.scratch, name + ".test")
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", binp] + (["-race"] if race else []) + ["./" + pkg]
        p = subprocess.run(cmd, cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0 or not os.path.exists(binp):
            raise NoAnswer("harness does not build:\n" + p.stdout[-4000:])
        return binp

    def run(self, binp, test, env=None, timeout=600, cwd=None, allow_fail=False, limit_gb=None):
        """Runs one harness test. It writes {"checked":n,"violations":[..],"samples":[..],"stats":{}} to VF_OUT."""
        out = os.path.join(self.scratch, "out-%s-%d.json" % (test, int(time.time() * 1e6)))
        wd = cwd or tempfile.mkdtemp(dir=self.scratch)
        e = go_env({"VF_OUT": out, "VF_SEED": str(self.seed), "VF_TIER": self.tier, "VF_SCRATCH": tempfile.mkdtemp(dir=self.scratch),
                    "VF_KNOWN": json.dumps([k["match"] for k in self.known])})
        e["VF_GOCACHE"] = e["GOCACHE"]
        e["VF_REPO"] = REPO
        e["VF_HARNESS"] = os.path.join(VERIF, "harness")
        e["GOCACHE"] = os.path.join(self.scratch, "gocache-child")
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run([binp, "-test.run", "^" + test + "$", "-test.timeout", "%ds" % (timeout + 30), "-test.v"],
                               cwd=wd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout + 60,
                               preexec_fn=(lambda: resource.setrlimit(resource.RLIMIT_AS, (limit_gb << 30, limit_gb << 30))) if limit_gb else None)
        except subprocess.TimeoutExpired:
            raise NoAnswer("harness %s timed out" % test)
        if os.path.exists(out):
            res = json.load(open(out))
        else:
            if self.crash_verdict(p.stdout, test):
                return {"crash": p.stdout, "rc": p.returncode, "classified": True}
            if allow_fail:
                return {"crash": p.stdout, "rc": p.returncode}
            raise NoAnswer("harness %s died (rc %d):\n%s" % (test, p.returncode, p.stdout[:1500] + "\n...\n" + p.stdout[-1500:]))
        res["stdout"] = p.stdout
        return res

    def absorb(self, res, traces=None):
        """Takes over the verdicts of a harness run."""
        self.traces += res.get("checked", 0) if traces is None else traces
        for s in (res.get("samples") or [])[:3]:
            if len(self.samples) < 8:
                self.samples.append(s)
        for k, v in (res.get("stats") or {}).items():
            self.notes[k] = self.notes.get(k, 0) + v if isinstance(v, (int, float)) else v
        for v in res.get("violations") or []:
            self.violation(v.get("what", "?"), v)

    def violation(self, what, detail):
        for k in self.known:
            if re.search(k["match"], what):
                if k["what"] not in self.known_hits:
                    self.known_hits.append(k["what"])
                return
        self.violations.append({"what": what, "detail": detail})

    def validate(self, module, path, n, cfg=None, timeout=600, env=None):
        """Trace validation: returns {trace number: furthest line} for the traces the specification rejects."""
        e = {"TRACES": path}
        e.update(env or {})
        r = self.tlc(module, cfg, workers=1, env=e, timeout=timeout, dfs=True)
        m = re.search(r'<<\s*"REJECTED",(.*?)>>\s*$', r["stdout"], re.S | re.M)
        if not m:
            raise NoAnswer("no acceptance verdict from %s:\n%s" % (module, r["stdout"][-3000:]))
        body = m.group(1).strip()
        bad = {}
        if body.startswith("("):
            for a, b in re.findall(r"(\d+) :> (\d+)", body):
                bad[int(a)] = int(b)
        elif body.startswith("<<"):
            nums = re.findall(r"\d+", body)
            bad = {i + 1: int(x) for i, x in enumerate(nums)}
        self.traces += n
        return bad

    def crash_verdict(self, out, test, pkg="lens"):
        """An unrecovered panic or a runtime fatal error raised inside the code under test (not in the harness)."""
        m = re.search(r"^(fatal error: (?!all goroutines)[^\n]*|runtime: goroutine stack exceeds[^\n]*|panic: [^\n]*)", out, re.M)
        if not m or "test timed out" in m.group(1) or "harness panic" in m.group(1):
            return False
        g = re.search(r"^goroutine \d+[^\n]*\[running[^\n]*\]:\n(.*?)(\n\n|\Z)", out[m.start():], re.S | re.M)
        if not g:
            return False
        for f in re.findall(r"^\t(\S+\.go):\d+", g.group(1), re.M):
            if "/src/runtime/" in f or "/src/internal/" in f or "/src/sync/" in f or "/src/testing/" in f or f.endswith("/panic.go"):
                continue
            if "zz_verif_" in f or "/verif/harness/" in f:
                return False
            if ("/%s/" % pkg) in f and "/pkg/mod/" not in f:
                self.violation("%s: process died in the code under test: %s" % (test, m.group(1)), out[m.start():m.start() + 4000])
                return True
        return False

    def race_verdict(self, res, what, pkg="lens"):
        """A data race or a runtime fatal error inside the code under test is a violation."""
        if res.get("classified"): return
        out = res.get("crash") or res.get("stdout") or ""
        frames = re.compile(r"/%s/(?!zz_verif)[a-z_]+\.go:\d+" % pkg)
        for m in re.finditer(r"WARNING: DATA RACE\n(.*?)\n==================", out, re.S):
            tops = re.findall(r"(?:Write|Read|Previous write|Previous read) at .*?\n((?:  .*\n){1,14})", m.group(1) + "\n")
            if any(frames.search(t) for t in tops):
                self.violation("%s: data race in the code under test" % what, m.group(1)[:3000])
                return
        m = re.search(r"fatal error: (concurrent map[^\n]*|all goroutines are asleep[^\n]*)", out)
        if m and frames.search(out[m.start():m.start() + 4000]):
            self.violation("%s: %s in the code under test" % (what, m.group(1)), out[m.start():m.start() + 3000])
            return
        if "crash" in res and not self.violations:
            raise NoAnswer("harness died:\n" + out[-3000:])

    # ---------- end ----------
    def finish(self, level="model_checking"):
        # known findings are printed when they still reproduce
        for w in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, w))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], "models": self.models, "harness": self.notes}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
            json.dump(self.violations[:20], open(rp, "w"), indent=1, default=str)
            for v in self.violations[:5]:
                print("  " + v["what"][:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" %
              (self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - self.t0))
        return 0

    def cleanup(self):
        # module cache copies made by the code under test may be read-only
        for root, dirs, _ in os.walk(self.scratch):
            for d in dirs:
                try: os.chmod(os.path.join(root, d), 0o755)
                except OSError: pass
        shutil.rmtree(self.scratch, ignore_errors=True)

def load_known(pid):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

def main(argv):
    if len(argv) < 3 or argv[2] not in ("quick", "thorough"):
        print("usage: check <property> quick|thorough"); return 2
    pid, tier = argv[1], argv[2]
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = __import__(pid.lower())
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
        if ctx.traces == 0 and not ctx.violations:
            raise NoAnswer("nothing was checked against the implementation")
        return ctx.finish()
    except NoAnswer as e:
        if ctx.violations:   # a real-code violation found before the failure still counts
            return ctx.finish()
        print("NO ANSWER property=%s: %s" % (pid, e)); return 2
    finally:
        if not os.environ.get("VF_KEEP"):
            ctx.cleanup()
        else:
            print("kept " + ctx.scratch)
