def run(ctx):
    cases, n = ctx.gen("GoModsGen", simulate=8000 if ctx.thorough else 500, depth=16)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p15_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP15", {"VF_CASES": cases}, timeout=800))
