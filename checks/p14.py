def run(ctx):
    ctx.tlc("ReachMC", timeout=300)
    b = ctx.build(["common_test.go", "proxy_test.go", "p14_test.go"])
    cases, n = ctx.gen("ReachGen", simulate=200 if ctx.thorough else 20, depth=45)
    ctx.absorb(ctx.run(b, "TestVerifP14", {"VF_CASES": cases}, timeout=500))
