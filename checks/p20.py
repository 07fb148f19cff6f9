def run(ctx):
    cases, n = ctx.gen("ConfigGen", simulate=20000 if ctx.thorough else 900, depth=18)
    b = ctx.build(["common_test.go", "model_test.go", "p10_test.go", "p20_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP20", {"VF_CASES": cases}, timeout=800))
    cases, n = ctx.gen("FlagsGen", simulate=20000 if ctx.thorough else 600, depth=12)
    b = ctx.build(["p20_cmd_test.go"], name="flags", pkg="lens/cmd")
    ctx.absorb(ctx.run(b, "TestVerifP20Flags", {"VF_CASES": cases}, timeout=800))
