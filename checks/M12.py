"""M12: content of the written files and preservation by writing and loading."""
import funlib
import writelib as w


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ex = w.exes(ctx)
    meshes = []
    for kind, cap in (("vtk2", 300 if q else 6000), ("vtk3", 120 if q else 2500), ("fpma", 120 if q else 2500)):
        meshes += w.model_meshes(ctx, kind, cap)
    for _ in range(90 if q else 2000):
        meshes.append(w.random_mesh(rng, 2, rng.choice([0, 0, .3]), rng.random() < .3))
    for _ in range(110 if q else 2000):
        meshes.append(w.random_mesh(rng, 3, 0 if rng.random() < .6 else .4, rng.random() < .2, poly=rng.random() < .5))
    for d in (2, 3):
        r = funlib.crowded(rng, d)[0]
        meshes.append((r, w.native_types(r)))
    scen = {2: [], 3: []}
    small = {d: [(r, t) for r, t in meshes if r.dim == d and len(r.cells) < 12] for d in (2, 3)}
    for raw, types in meshes:
        d = raw.dim
        cfg = rng.choice([c for c in range(4) if w.fit(raw, c)])
        sc = [("new %d" % cfg, {"op": "new"}), w.mesh_cmd(0, raw)]
        for _ in range(rng.choice([0, 0, 1])):
            sc.append(w.edit_cmd(raw, 0, rng, ["cb", "swap", "rev", "bnd", "recen"] + (["rot"] if d == 3 else [])))
        fmts = ["vtk"] + (["fpma"] if d == 3 else [])
        for f in fmts:
            ty = types if f == "vtk" else w.native_types(raw)
            sc.append(w.write_cmd(0, rng.choice("spqnr"), f, rng.choice(["", "a_mesh", "some_data_1_2_3"]), ty))
            sc.append(w.rt_cmd(0, f, ty))
        if rng.random() < .2:
            sc.append(w.write_cmd(0, rng.choice("pqnrd"), rng.choice(fmts), "x", []))
        # the same writers with another mesh, and again with the first one
        if rng.random() < .4:
            raw2, types2 = rng.choice(small[d])
            if w.fit(raw2, cfg):
                sc.append(w.mesh_cmd(1, raw2))
                for f in fmts:
                    via = rng.choice("ssp")
                    for k in rng.choice([[0, 1, 0], [1, 0], [0, 1]]):
                        sc.append(w.write_cmd(k, via, f, "again", ([types, types2][k] if f == "vtk" else w.native_types([raw, raw2][k]))))
        scen[d].append(sc)
    tr = {}
    for d in (2, 3):
        tr[d] = w.project(ctx.replay(ex[d].result(), scen[d], args=[ctx.build]))
        ctx.validate("MeshWriteTrace", tr[d])
    if not ctx.violations:
        t = next(t for t in tr[3] if any(r["op"] == "w" and r["fmt"] == "vtk" and 301 in r["types"] for r in t))
        k = next(k for k, r in enumerate(t) if r["op"] == "w" and r["fmt"] == "vtk" and 301 in r["types"])
        j = next(j for j, c in enumerate(t[k]["out"]["cells"]) if c[0] == 12)
        def bad(x): c = x[k]["out"]["cells"][j]; c[5], c[6] = c[6], c[5]
        ctx.binding_demo("MeshWriteTrace", t, bad, name="vertices exchanged")
        k2 = next(k for k, r in enumerate(t) if r["op"] == "rt" and r["fmt"] == "fpma")
        def bad(x): m = x[k2]["m2"]; m["l"][0], m["r"][0] = m["r"][0], m["l"][0]
        ctx.binding_demo("MeshWriteTrace", t, bad, name="sides without the walk")
    ctx.assumptions += ["coordinates are multiples of 1/4 below 1000, exact in the text of six digits", "the direction of planar loops is not prescribed"]
