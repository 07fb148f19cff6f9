def run(ctx):
    ctx.tlc("ReportMC", timeout=600)
    cases, _ = ctx.gen("ReportGen", simulate=1500 if ctx.thorough else 60, depth=60, timeout=800)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p18_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP18", {"VF_CASES": cases}, timeout=800))
