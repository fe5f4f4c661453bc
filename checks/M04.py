"""M04: every history of a few calls on one mesh object and its readers, with different files."""
import loadlib


def run(ctx):
    rng = ctx.rng
    for dim in (2, 3):
        fut = ctx.pool.submit(ctx.compile, "mload%d" % dim, "mload.cpp", ("DIM=%d" % dim,))
        hs = ctx.generate("MeshLifeGen", "M04_%d%s.cfg" % (dim, "" if ctx.quick else "_deep"), workers=4)
        ctx.extra["histories_enumerated_%dd" % dim] = len(hs)
        hs = rng.sample(hs, min(len(hs), 450 if ctx.quick else 8000))
        # longer random histories
        ops = ["load0", "load1", "load2", "clear", "bnd", "bndc", "mark", "edit", "missing", "bad"]
        for _ in range(60 if ctx.quick else 1500):
            h, dirty = [], False
            for _ in range(rng.randint(6, 16)):
                o = rng.choice(ops[:4] + ["bad"] if dirty else ops)
                dirty = o in ("edit", "bad") or (dirty and o[:4] != "load" and o != "clear")
                h.append(o)
            hs.append(h)
        exe = fut.result()
        scen = []
        pool = []
        for _ in range(40):
            kind = "vtk2" if dim == 2 else rng.choice(["vtk3", "fpma"])
            pool.append((kind, loadlib.random_file(kind, rng, rng.choice([(1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 1)]))))
        for h in hs:
            three = [rng.choice(pool) for _ in range(3)]
            ok = set.intersection(*[set(loadlib.cfgs(k, f)) for k, f in three])
            cfg = rng.choice(sorted(ok))
            sc = [("new %d" % cfg, {"op": "new", "dim": dim, "cfg": cfg})]
            for o in h:
                if o.startswith("load"):
                    k, f = three[int(o[4])]
                    sc.append(loadlib.load_scenario(k, f, cfg, rng)[1])
                elif o == "bad":
                    k, f = next(((k, f) for k, f in pool if k != "fpma"))
                    b = {"xyz": f["xyz"], "cells": [list(c) for c in f["cells"]]}
                    b["cells"][-1][0] = 42
                    sc.append(("load %s vtk %s" % (rng.choice("sf"), loadlib.text_of(k, b, rng)), {"op": "bad"}))
                elif o == "edit":
                    sc.append(("edit %d" % rng.randrange(5), {"op": "edit"}))
                elif o == "bnd":
                    sc.append((o, {"op": o}))
                else:
                    sc.append((o, {"op": o}))
            scen.append(sc)
        tr = ctx.replay(exe, scen, args=[ctx.build])
        ctx.validate("MeshLifeTrace", tr)
    if not ctx.violations:
        t = next(t for t in tr if len(t) > 3 and t[2]["op"] == "bnd" and t[1]["op"] == "load")
        def bad(t): t[2]["m"]["bc"][0][1] += 1
        ctx.binding_demo("MeshLifeTrace", t, bad, name="boundary cell's face")
