"""M11: histories of reused writers, enumerated by WriterGen; every written file is compared with a fresh writer's
and judged by MeshWrite."""
import funlib
import writelib as w


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ex = w.exes(ctx)
    ctx.model_rejects("WriterGen", "WriterGen_weak.cfg")
    tr = {}
    for d in (2, 3):
        hs = [x["h"] for x in ctx.generate("WriterGen", "WriterGen_%d%s.cfg" % (d, "" if q else "_deep"), workers=4)]
        ctx.extra["histories_enumerated_%dd" % d] = len(hs)
        hs = rng.sample(hs, min(len(hs), (500 if d == 2 else 260) if q else 6000))
        ops = ["E", "E", "R", "T", "W", "W", "P"]
        for _ in range(25 if q else 500):       # long ones
            h = []
            for _ in range(rng.randint(8, 16)):
                o = rng.choice(ops)
                h.append([o, rng.randrange(2)] + ([rng.choice(["vtk", "fpma"]) if d == 3 else "vtk"] if o in "WP" else []))
            hs.append(h)
        scen = []
        for h in hs:
            a = funlib.random_raw(rng, 2) if d == 2 else w.random_mesh(rng, 3, 0, poly=rng.random() < .5)[0]
            # the second mesh: often the same one under another numbering (the same counts and coordinates)
            b = funlib.renumbered(a, rng) if rng.random() < .6 else funlib.random_raw(rng, 2) if d == 2 else w.random_mesh(rng, 3, 0)[0]
            orig = [a, b]
            cfg = rng.choice([c for c in range(4) if w.fit(a, c) and w.fit(b, c)])
            e = rng.choice([0, 0, 0, -22])
            cur = [w.copy_raw(x) for x in orig]
            sc = [("new %d" % cfg, {"op": "new"})] + [w.mesh_cmd(k, cur[k], e) for k in (0, 1)]
            nat = [w.native_types(x) for x in orig]
            gen = [w.some_general(t, rng, .6) for t in nat]
            ty, ori, heads = [0, 0], [True, True], ["one", "two", "", "one_and_a_half"]
            for x in h:
                k = x[1]
                if x[0] == "E":
                    c = w.edit_cmd(cur[k], k, rng)
                    if c[1]["edit"] in ("vert", "cen", "fcen"):
                        ori[k] = False
                    sc.append(c)
                elif x[0] == "R":
                    cur[k] = w.copy_raw(orig[k])
                    ori[k] = True
                    sc.append(w.mesh_cmd(k, cur[k], e))
                elif x[0] == "T":
                    ty[k] = 1 - ty[k]
                    if rng.random() < .4:
                        gen[k] = w.some_general(nat[k], rng, .6)
                else:
                    via = "s" if x[0] == "W" else rng.choice("pppq")
                    t = [nat, gen][ty[k]][k]
                    if via in "pq" and rng.random() < .1:
                        t = []
                    sc.append(w.write_cmd(k, via, x[2], rng.choice(heads), t, ori[k], e))
            scen.append(sc)
        tr[d] = w.project(ctx.replay(ex[d].result(), scen, args=[ctx.build]))
        ctx.validate("MeshWriteTrace", tr[d])
    if not ctx.violations:
        t = tr[3][0]
        k = max(k for k, r in enumerate(t) if r["op"] == "w")
        def bad(x): x[k]["same"] = False
        ctx.binding_demo("MeshWriteTrace", t, bad, name="another file")
        t = next(t for t in tr[3] if any(r["op"] == "w" and r["fmt"] == "vtk" for r in t))
        k = max(k for k, r in enumerate(t) if r["op"] == "w" and r["fmt"] == "vtk")
        def bad(x): x[k]["out"]["cells"][0][1:] = [0, 0, 0, 0]
        ctx.binding_demo("MeshWriteTrace", t, bad, name="content")
    ctx.assumptions += ["the mesh signature is updated after an edit of the mesh (it is what the writer recognises a mesh by)"]
