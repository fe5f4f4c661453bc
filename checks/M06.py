"""M06: boundary set-up on meshes with any free sides; index marking for all index types."""
import loadlib, meshgen as g


def run(ctx):
    rng = ctx.rng
    fi = ctx.pool.submit(ctx.compile, "m06idx", "m06idx.cpp")
    fs = {d: ctx.pool.submit(ctx.compile, "mload%d" % d, "mload.cpp", ("DIM=%d" % d,)) for d in (2, 3)}
    ctx.model_check("IndexMarkMC")
    vals = []
    for t, bits in (("u8", 8), ("i8", 7), ("u16", 16), ("i16", 15), ("u32", 32), ("i32", 31), ("u64", 64), ("i64", 63), ("sz", 64)):
        mx = (1 << bits) - 1
        if bits <= 8:
            vs = range(mx + 1)
        else:
            vs = {0, 1, 2, mx, mx - 1, mx // 2, mx // 2 + 1, mx // 2 + 2, mx // 2 - 1, mx // 4, mx // 4 + 1} | {1 << b for b in range(bits)} | \
                 {rng.randrange(mx + 1) for _ in range(150)} | {rng.randrange(mx + 1) >> rng.randrange(bits) for _ in range(100)}
        vals += [(t, v) for v in sorted(vs)]
    scen = [[("%s %d" % (t, v), {"t": t}) for t, v in vals[k:k + 100]] for k in range(0, len(vals), 100)]
    it = ctx.replay(fi.result(), scen)
    ctx.validate("IndexMarkTrace", it)
    for dim in (2, 3):
        ctx.generate("MeshLifeGen", "M06_%d.cfg" % dim, workers=4)
        scen = []
        for _ in range(350 if ctx.quick else 5000):
            size = rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 2)])
            if dim == 3:
                raw = g.poly_to_raw(loadlib.random_poly(rng, size), rng)
                cap = max(len(x) for x in raw.s[0])
                cfg = rng.choice([c for c, k in ((0, 9999), (1, 12), (2, 8), (3, 9999), (4, 4)) if k >= cap])
            else:
                raw = g.planar_to_raw(g.lattice2(rng, size[:2], merges=rng.choice([0, 3])), rng)
                cfg = rng.randrange(4)
            # sides freed artificially, also both sides of one face
            freed = rng.random() < .3
            if freed:
                for f in range(len(raw.l)):
                    if rng.random() < .3: raw.l[f] = -1
                    if rng.random() < .3: raw.r[f] = -1
            rec = raw.record()
            sc = [("new %d" % cfg, {"op": "new", "dim": dim, "cfg": cfg}), ("raw " + raw.text(), {"op": "raw", "raw": rec})]
            for _ in range(rng.randint(1, 5)):
                # the centres need the boundary walks of the cells: only while no occupied side was freed
                o = rng.choice(["bnd", "bnd", "free"] if freed else ["bnd", "bnd", "bndg", "bndg", "free"])
                if o == "free":      # a side is freed again (its boundary cell stays behind) or occupied by hand
                    f = rng.randrange(len(raw.l)); sd = rng.choice("lr")
                    if (raw.l if sd == "l" else raw.r)[f] != -1: freed = True
                    sc.append(("set%s %d -1" % (sd, f), {"op": "set" + sd, "f": f, "x": -1}))
                elif o == "bndg":
                    if all(raw.cells): sc.append(("bndg", {"op": "bndg"}))
                else:
                    sc.append(("bnd", {"op": "bnd"}))
            sc.append(("bnd", {"op": "bnd"}))
            if rng.random() < .3:
                sc += [("clear", {"op": "clear"}), ("bnd", {"op": "bnd"}), ("raw " + raw.text(), {"op": "raw", "raw": rec}), ("bnd", {"op": "bnd"})]
            scen.append(sc)
        tr = ctx.replay(fs[dim].result(), scen, args=[ctx.build])
        ctx.validate("MeshLifeTrace", tr)
    if not ctx.violations:
        def bad(t): t[3]["mk"][0] += 1
        ctx.binding_demo("IndexMarkTrace", it[0], bad, name="mark")
        t = next(t for t in tr if t[-1]["op"] == "bnd" and t[-1]["m"]["bc"])
        def bad(t): t[-1]["m"]["bc"][-1][0] += 1
        ctx.binding_demo("MeshLifeTrace", t, bad, name="boundary cell index")
