import os
F = ["common_test.go", "model_test.go", "p21_test.go"]
def run(ctx):
    ctx.tlc("HelpersMC")
    cases, n = ctx.gen("HelpersGen", simulate=4000 if ctx.thorough else 500, depth=4)
    for race in (False, True):
        b = ctx.build(F, name="race" if race else "plain", race=race)
        tr = os.path.join(ctx.scratch, "h-%s.ndjson" % race)
        res = ctx.run(b, "TestVerifP21", {"VF_CASES": cases, "VF_TRACES": tr}, allow_fail=race)
        if race: ctx.race_verdict(res, "helpers")
        if "crash" in res: continue
        ctx.absorb(res)
        if ctx.violations: return
        lines = open(tr).read().splitlines()
        bad = ctx.validate("HelpersCheck", tr, 0)
        for i in sorted(bad)[:5]:
            ctx.violation("recorded execution is not one of the specification's: stuck at event %d" % bad[i], lines[i - 1])
        if ctx.violations: return
    ctx.absorb(ctx.run(b, "TestVerifP21Exec"))
