def run(ctx):
    cases, n = ctx.gen("CodecGen", simulate=1500 if ctx.thorough else 200, depth=10)
    b = ctx.build(["common_test.go", "wirerec_test.go", "p06_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP06", {"VF_CASES": cases}, limit_gb=10))
