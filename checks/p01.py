def run(ctx):
    ctx.tlc("Store")
    ctx.tlc("MCStoreDisk")
    exh, n1 = ctx.gen("StoreGen", "StoreGenExh.cfg")
    sim, n2 = ctx.gen("StoreGen", "StoreGenSim.cfg", simulate=100 if ctx.thorough else 8, depth=64)
    b = ctx.build(["common_test.go", "p01_test.go"])
    ctx.absorb(ctx.run(b, "TestVerifP01", {"VF_EXH": exh, "VF_SIM": sim}))
    ctx.notes["behaviours_exhaustive"], ctx.notes["behaviours_simulated"] = n1, n2
