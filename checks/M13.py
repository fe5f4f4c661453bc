"""M13: tessellation of general cells, the mapping and the added points."""
import funlib
import writelib as w


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ex = w.exes(ctx, (3,))
    meshes = w.model_meshes(ctx, "fpma", 250 if q else 5000)
    for _ in range(220 if q else 4000):
        meshes.append(w.random_mesh(rng, 3, rng.choice([.2, .5, .8, 1]), rng.random() < .15))
    r = funlib.crowded(rng, 3)[0]
    meshes.append((r, w.native_types(r)))
    scen = []
    small = [(r, t) for r, t in meshes if len(t) < 12]
    for raw, types in meshes:
        cfg = rng.choice([c for c in range(4) if w.fit(raw, c)])
        e = rng.choice([0, 0, 0, -22, -30, 3])     # also tiny cells
        sc = [("new %d" % cfg, {"op": "new"}), w.mesh_cmd(0, raw, e)]
        orient = True
        for _ in range(rng.choice([0, 0, 1, 2])):
            c = w.edit_cmd(raw, 0, rng, ["cb", "swap", "rev", "bnd", "recen", "rot", "cent", "cen", "fcen"])
            orient = orient and c[1]["edit"] not in ("cen", "fcen")
            sc.append(c)
        sc.append(w.write_cmd(0, rng.choice("snrpq"), "vtk", "h", types, orient, e))
        while rng.random() < .4:                   # the same writer or another one, other general cells
            via = rng.choice("ssspqnrd")
            ts = [] if via == "d" or via != "s" and rng.random() < .5 else w.some_general(types, rng, rng.choice([.2, .5]))
            sc.append(w.write_cmd(0, via, "vtk", "h", ts, orient, e))
        if rng.random() < .3:                      # the same writers with another mesh, and again with the first one
            raw2, types2 = rng.choice(small)
            if w.fit(raw2, cfg):
                sc.append(w.mesh_cmd(1, raw2, e))
                via = rng.choice("ssp")
                for k in rng.choice([[0, 1, 0], [1, 0], [0, 1]]):
                    sc.append(w.write_cmd(k, via, "vtk", "h", [types, types2][k], orient or k == 1, e))
        if e == 0:
            sc.append(w.rt_cmd(0, "vtk", types))
        scen.append(sc)
    tr = w.project(ctx.replay(ex[3].result(), scen, args=[ctx.build]))
    ctx.validate("MeshWriteTrace", tr)
    if not ctx.violations:
        def split(r): return r["op"] == "w" and r["out"]["map"] and r["out"]["far"]
        t = next(t for t in tr if any(split(r) for r in t))
        k = next(k for k, r in enumerate(t) if split(r))
        def bad(x): x[k]["out"]["map"][0][1] += 1
        ctx.binding_demo("MeshWriteTrace", t, bad, name="mapping")
        def bad(x): x[k]["out"]["far"][-1][0] += 9
        ctx.binding_demo("MeshWriteTrace", t, bad, name="added point")
    ctx.assumptions += ["centres are compared in fixed point (1/1024 of the unit, two units of tolerance)"]
