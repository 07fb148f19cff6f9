import os
def run(ctx):
    cases, n = ctx.gen("WireGen", simulate=8000 if ctx.thorough else 1200, depth=5)
    # the table of concrete values is shared with the capturing program
    src = open(os.path.join(ctx.verif, "harness", "wire_values.go.txt")).read().replace("package PKG", "package lens", 1)
    extra = os.path.join(ctx.scratch, "wire_values_test.go")
    open(extra, "w").write(src)
    b = ctx.build(["common_test.go", "wirerec_test.go", "p05_test.go", extra])
    traces = os.path.join(ctx.scratch, "wire-traces.ndjson")
    res = ctx.run(b, "TestVerifP05", {"VF_CASES": cases, "VF_TRACES": traces})
    ctx.absorb(res)
    if not ctx.violations:
        lines = open(traces).read().splitlines()
        bad = ctx.validate("WireCheck", traces, 0)
        for i in sorted(bad)[:5]:
            ctx.violation("the specification rejects a delivered capture as a rendering of what was captured", lines[i - 1])
