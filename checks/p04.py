def run(ctx):
    trees, _ = ctx.gen("FieldsGen", "FieldsGenBig.cfg" if ctx.thorough else "FieldsGenPlain.cfg")
    odd, _ = ctx.gen("FieldsGen", "FieldsGenOdd.cfg")
    nested, _ = ctx.gen("FieldsGen", "FieldsGenEmpty.cfg")
    b = ctx.build(["common_test.go", "model_test.go", "p04_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP04", {"VF_TREES": trees, "VF_NESTED": nested, "VF_ODD": odd}))
