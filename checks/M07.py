"""M07: all histories on sub-element lists of every small capacity; files in many storage configurations."""
import loadlib, meshgen as g, funlib


def run(ctx):
    rng = ctx.rng
    fl = ctx.pool.submit(ctx.compile, "m07", "m07.cpp")
    fc = {d: ctx.pool.submit(ctx.compile, "m07cfg%d" % d, "m07cfg.cpp", ("DIM=%d" % d,)) for d in (3, 4)}
    hs = ctx.generate("SubListGen", "SubListGen%s.cfg" % ("" if ctx.quick else "_deep"), workers=4)
    ctx.extra["histories_enumerated"] = len(hs)
    hs = rng.sample(hs, min(len(hs), 2500 if ctx.quick else 60000))
    for _ in range(100 if ctx.quick else 3000):      # longer random ones, larger capacities
        cap = rng.choice([0, 2, 3, 6, 40]); n = 0; ops = []
        for _ in range(rng.randint(10, 70)):
            if rng.random() < (.8 if cap == 40 else .6):
                ops.append([rng.choice(["add", "push"]), rng.randrange(1000)])
            else:
                ops.append(["rem", rng.randrange(0, 12) if rng.random() < .9 else rng.choice([40, 200, 255])])
        hs.append({"cap": cap, "ops": ops})
    for _ in range(24 if ctx.quick else 200):        # lists longer than a byte can count
        cap = rng.choice([0, 300, 300]); ops = [["fill", rng.choice([3, 200, 255, 256, 257, 299, 300, 301, 700])]]
        for _ in range(rng.randint(2, 6)):
            ops.append(rng.choice([["add", rng.randrange(1000)], ["fill", rng.randint(1, 90)]] + [["rem", x] for x in (0, 1, 254, 255, 256, 257, 260, 298, 299, 300, 512, 65536, rng.randrange(300))]))
        hs.append({"cap": cap, "ops": ops})
    scen = []
    for h in hs:
        t = rng.randrange(4)
        scen.append([("new %d %d" % (h["cap"], t), {"op": ["new"], "cap": h["cap"], "t": t})] +
                    [("%s %d" % (o[0], o[1]), {"op": o, "cap": h["cap"]}) for o in h["ops"]])
    tr = ctx.replay(fl.result(), scen)
    ctx.validate("SubListTrace", tr)
    scen = []
    for _ in range(90 if ctx.quick else 1500):
        kind = rng.choice(["fpma", "fpma", "vtk3", "raw"])
        if kind == "raw":
            raw = g.poly_to_raw(loadlib.random_poly(rng, rng.choice([(1, 1, 1), (2, 1, 1)])), rng)
            text, base = raw.text(), {"kind": kind, "raw": raw.record()}
        else:
            f = loadlib.random_file(kind, rng, rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1)]))
            text, base = loadlib.text_of(kind, f, rng), {"kind": kind, "file": f}
        scen.append([("go %d %s %s" % (c, {"vtk3": "vtk"}.get(kind, kind), text), dict(base, caps=[[2, c]])) for c in (0, 3, 4, 5, 6, 8, 24)])
    tr3 = ctx.replay(fc[3].result(), scen)
    ctx.validate("CapTrace", tr3)
    scen = []
    for _ in range(15 if ctx.quick else 200):
        raw = g.cubical(rng, 4, rng.choice([(1, 1, 1, 1), (2, 1, 1, 1)]))
        scen.append([("go %d raw %s" % (c, raw.text()), {"kind": "raw", "raw": raw.record(), "caps": [[2, c2], [3, c3]]})
                     for c, c3, c2 in ((0, 0, 0), (6, 6, 0), (604, 6, 4), (4, 0, 4), (504, 5, 4), (603, 6, 3), (909, 9, 9))])
    tr4 = ctx.replay(fc[4].result(), scen)
    ctx.validate("CapTrace", tr4)
    if not ctx.violations:
        t = next(t for t in tr if len(t) > 3 and t[-1]["q"])
        def bad(x): x[-1]["q"][-1] += 1
        ctx.binding_demo("SubListTrace", t, bad, name="list entry")
        t = next(t for t in tr3 if t[1]["err"] == 1)
        def bad(x): x[1]["err"] = 0
        ctx.binding_demo("CapTrace", t, bad, name="overflow accepted")
