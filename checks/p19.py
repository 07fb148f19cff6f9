def run(ctx):
    cases, n = ctx.gen("TempCopyGen", simulate=2500 if ctx.thorough else 250, depth=25)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p19_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP19", {"VF_CASES": cases}, timeout=800))
