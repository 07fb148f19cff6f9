def run(ctx):
    trees, _ = ctx.gen("FieldsGen")
    res, _ = ctx.gen("ResultsGen", simulate=3000 if ctx.thorough else 250, depth=16)
    if ctx.thorough:
        big, _ = ctx.gen("FieldsGen", "FieldsGenBig.cfg")
    b = ctx.build(["common_test.go", "model_test.go", "p03_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP03", {"VF_TREES": trees, "VF_RESULTS": res, "VF_STRIDE": 1 if ctx.thorough else 3}))
    if ctx.thorough:
        ctx.absorb(ctx.run(b, "TestVerifP03", {"VF_TREES": big, "VF_RESULTS": res, "VF_STRIDE": 7}))
