def run(ctx, prop="P12"):
    b = ctx.build(["common_test.go", "model_test.go", "wirerec_test.go", "p12_test.go"])
    cases, n = ctx.gen("ProgGen", simulate=600 if ctx.thorough else 60, depth=4)
    ctx.absorb(ctx.run(b, "TestVerifP12", {"VF_CASES": cases, "VF_PROP": prop}, timeout=800))
