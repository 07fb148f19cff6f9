def run(ctx):
    r = ctx.tlc("RestoreMC", timeout=300)
    b = ctx.build(["common_test.go", "model_test.go", "wirerec_test.go", "p10_test.go", "p19_test.go", "p11_test.go"])
    cases, n = ctx.gen("RestoreGen", simulate=250 if ctx.thorough else 40, depth=45)
    ctx.absorb(ctx.run(b, "TestVerifP11", {"VF_CASES": cases}, timeout=420))
    ups, n = ctx.gen("UpdateGen", simulate=80 if ctx.thorough else 12, depth=25)
    ctx.absorb(ctx.run(b, "TestVerifP11Update", {"VF_UPDATES": ups}, timeout=420))
