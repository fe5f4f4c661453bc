"""D01: histories of allocations, accesses and copies of data containers of ten layouts."""


def run(ctx):
    rng = ctx.rng
    drv = ctx.pool.submit(ctx.compile, "d01", "d01.cpp", (), ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"))
    ctx.model_rejects("DataContGen", "DataContGen_weak.cfg")
    hs = ctx.generate("DataContGen", "DataContGen%s.cfg" % ("" if ctx.quick else "_deep"), workers=6, heap="6g")
    ctx.extra["histories_enumerated"] = len(hs)
    hs = [h for h in hs if len(h["ops"]) > 1]
    # every operation after every kind of first operation; the rest of the budget at random
    per = {}
    for h in hs:
        per.setdefault((h["l"],) + tuple(o[0] for o in h["ops"]), []).append(h)
    n = 3 if ctx.quick else 60
    hs = [h for k in sorted(per) for h in rng.sample(per[k], min(n, len(per[k])))]
    sim = ctx.generate("DataContGen", "DataContGen_sim.cfg", simulate=(400 if ctx.quick else 6000, 13), count=False)
    hs += rng.sample(sim, min(len(sim), 1200 if ctx.quick else 15000))
    ctx.extra["histories_replayed"] = len(hs)
    scen = [[("new %s" % h["l"], {"op": ["new"], "l": h["l"]})] + [(" ".join(map(str, o)), {"op": o, "l": h["l"]}) for o in h["ops"]] for h in hs]
    tr = ctx.replay(drv.result(), scen)
    ctx.validate("DataContTrace", tr, timeout=900)
    if not ctx.violations:
        t = next(t for t in tr if any(x["op"][0] == "set" and x["err"] == 0 for x in t[1:]))
        k = next(k for k, x in enumerate(t) if x["op"][0] == "set" and x["err"] == 0)
        def bad(x):
            for v in x[k]["s"][x[k]["op"][1] - 1]["p"]:
                for q in v:
                    for j in range(len(q)): q[j] = 0
        ctx.binding_demo("DataContTrace", t, bad, name="written value lost")
