def run(ctx):
    n = 8000 if ctx.thorough else 700
    cases, _ = ctx.gen("CompareGen", simulate=n, depth=40, timeout=800)
    b = ctx.build(["common_test.go", "model_test.go", "concrete_test.go", "compare_test.go", "p09_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP09", {"VF_CASES": cases}))
