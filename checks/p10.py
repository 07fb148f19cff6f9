def run(ctx):
    ctx.tlc("Engine")
    cases, n = ctx.gen("EngineGen", workers=1)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP10", {"VF_CASES": cases}))
