def run(ctx):
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p15_test.go", "p19_test.go", "p16_test.go"])
    cases, n = ctx.gen("ChangedGen", simulate=250 if ctx.thorough else 15, depth=32)
    ctx.absorb(ctx.run(b, "TestVerifP16Diff", {"VF_CASES": cases}, timeout=800))
    cases, n = ctx.gen("PulledGen", simulate=150 if ctx.thorough else 12, depth=4)
    ctx.absorb(ctx.run(b, "TestVerifP16Pull", {"VF_CASES": cases}, timeout=800))
