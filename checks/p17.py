def run(ctx):
    if ctx.thorough:
        ctx.tlc("MutateMC", timeout=700)
    else:
        ctx.tlc("MutateMC", "MutateQuick.cfg", timeout=300)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p15_test.go", "p19_test.go", "p16_test.go", "p17_test.go"])
    cases, n = ctx.gen("MutateGen", simulate=60 if ctx.thorough else 9, depth=62)
    ctx.absorb(ctx.run(b, "TestVerifP17", {"VF_CASES": cases, "VF_REAL_EVERY": 24 if ctx.thorough else 18}, timeout=600))
