import os
def run(ctx):
    cases, n = ctx.gen("MonitorGen", simulate=1500 if ctx.thorough else 250, depth=18)
    traces = os.path.join(ctx.scratch, "mon-traces.ndjson")
    b = ctx.build(["common_test.go", "wirerec_test.go", "p07_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP07", {"VF_CASES": cases, "VF_TRACES": traces}))
    if ctx.violations: return
    lines = open(traces).read().splitlines()
    bad = ctx.validate("MonitorCheck", traces, 0)
    for i in sorted(bad)[:5]:
        ctx.violation("concurrent: an event is lost, repeated, misplaced or out of its goroutine's order", lines[i - 1])
    if ctx.violations: return
    # the same program under the race detector
    few = os.path.join(ctx.scratch, "few.ndjson")
    with open(few, "w") as f: f.write("\n".join(open(cases).read().splitlines()[:1500 if ctx.thorough else 300]) + "\n")
    rb = ctx.build(["common_test.go", "wirerec_test.go", "p07_test.go"], name="race", race=True)
    res = ctx.run(rb, "TestVerifP07", {"VF_CASES": few, "VF_DIRECT": "1"}, allow_fail=True)
    ctx.race_verdict(res, "monitor")
    if "checked" in res: ctx.absorb(res)
