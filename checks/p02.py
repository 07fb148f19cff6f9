import os, re, json
CHUNK = 100
def run(ctx):
    ctx.tlc("Store")
    ctx.tlc("MCStoreDisk")
    ctx.tlc("StoreConc")
    rounds = 1500 if ctx.thorough else 250
    for race in (False, True):
        b = ctx.build(["common_test.go", "p02_test.go"], name="race" if race else "plain", race=race)
        tr = os.path.join(ctx.scratch, "traces-%s.ndjson" % race)
        res = ctx.run(b, "TestVerifP02", {"VF_TRACES": tr, "VF_ROUNDS": rounds // 4 if race else rounds}, allow_fail=race)
        if race:
            ctx.race_verdict(res, "store")
        if "crash" in res:
            continue
        ctx.absorb(res, traces=0)
        lin(ctx, tr, "StoreLin")

def lin(ctx, path, module):
    lines = open(path).read().splitlines()
    for i in range(0, len(lines), CHUNK):
        p = os.path.join(ctx.scratch, "chunk.ndjson")
        part = lines[i:i + CHUNK]
        open(p, "w").write("\n".join(part) + "\n")
        bad = ctx.validate(module, p, len(part))
        for j, at in bad.items():
            t = json.loads(part[j - 1])
            ctx.violation("history of concurrent operations has no linearization: stuck at event %d %s" % (at, json.dumps(t[at - 1] if at <= len(t) else None)), {"history": t})
