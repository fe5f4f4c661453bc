"""M05: the adjacency protocol of a face; exhaustive model, one test per transition, long walks."""
def run(ctx):
    fut = ctx.pool.submit(ctx.compile, "m05", "m05.cpp")
    ctx.model_check("CellAdj")
    tests = ctx.generate("CellAdjGen")
    walks = ctx.generate("CellAdjGen", "CellAdjSim.cfg", simulate=(300 if ctx.quick else 6000, 31))
    if ctx.quick: walks = ctx.rng.sample(walks, min(2500, len(walks)))
    exe = fut.result()
    ncfg = 20
    scen = []
    ctx.extra["transition_tests"] = len(tests)
    ctx.extra["walks"] = len(walks)
    for k, h in enumerate(tests + walks):
        cfgs = [ctx.rng.randrange(ncfg)] if ctx.quick else range(ncfg)
        for cfg in cfgs:
            sc = []
            for op in h:
                a = [op[0]] + ([str(cfg)] if op[0] == "new" else []) + [str(x) for x in op[1:]]
                sc.append((" ".join(a), {"op": op, "cfg": cfg} if op[0] == "new" else {"op": op}))
            scen.append(sc)
    tr = ctx.replay(exe, scen)
    ctx.validate("CellAdjTrace", tr, cfg="CellAdjTrace.cfg")
    if not ctx.violations:
        def bad(t): t[-1]["s"][0] = 1 - t[-1]["s"][0]
        ctx.binding_demo("CellAdjTrace", tr[len(tr) // 2], bad, cfg="CellAdjTrace.cfg")
    ctx.extra["index_types"] = ["size_t", "unsigned", "unsigned short", "int", "long long"]
    ctx.assumptions.append("a cell is never put on both sides of one face")
