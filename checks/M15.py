"""M15: centres and measures, on meshes with exact geometry; polygons and prisms enumerated by the model."""
import geolib


def q_measure(rng, dim, sc):
    q, order = [], rng.choice(["DT", "TD", "DTD"])
    for x in order:
        q.append(("cen %s %s" % (x, rng.choice("SM")), {"op": "cen", "meth": x}))
        q.append(("init %s %s" % (x, rng.choice("MP")), {"op": "init", "meth": x}))
        if rng.random() < .2:
            q.append(("bnd", {"op": "bnd"}))
        for y in ("DT" if rng.random() < .6 else "D"):
            how = rng.choice("SM") if dim < 4 else rng.choice("PXM")
            q.append(("meas %s %s %s" % (y, how, " ".join(map(str, sc))), {"op": "meas", "meth": y, "stored": x}))
    return q


def run(ctx, queries=q_measure, counts=None):
    rng, quick = ctx.rng, ctx.quick
    exes = {d: ctx.pool.submit(ctx.compile, "mgeo%d" % d, "mgeo.cpp", ("DIM=%d" % d,)) for d in (2, 3, 4)}
    polys = [x["p"] for x in ctx.generate("PolyGeo", "PolyGeo.cfg" if quick else "PolyGeo_deep.cfg", workers=8, timeout=800)]
    ctx.model_rejects("PolyGeo", "PolyGeo_weak.cfg")
    ctx.extra["star_shaped_polygons_enumerated"] = len(polys)
    counts = counts or ({2: 300, 3: 220, 4: 40} if quick else {2: 4000, 3: 3000, 4: 500})
    last = None
    for d in (2, 3, 4):
        scen = [geolib.scenario(rng, *geolib.mesh(rng, d, polys, rng.random() < .2), queries) for _ in range(counts[d])]
        scen.append(geolib.empty_scenario(rng, d, geolib.scales(d, False), queries))
        tr = ctx.replay(exes[d].result(), scen)
        ctx.validate("MeshGeoTrace", tr)
        if d == 3:
            last = tr
    if not ctx.violations:
        demo(ctx, last)


def demo(ctx, tr):
    t = next(t for t in tr if len(t[0].get("raw", {}).get("cb", [])) > 0)
    for op, field, name in (("cen", "c", "centre moved"), ("meas", "ms", "measure changed")):
        k = next(k for k, r in enumerate(t) if r["op"] == op)
        for d in (0, 1, 2):
            def bad(x):
                y = x[k][field][d]
                if op == "cen":
                    y[-1][0] += 9
                else:
                    y[-1] += 9 + y[-1] // 50
            ctx.binding_demo("MeshGeoTrace", t, bad, name="%s %d" % (name, d))
    t = next(t for t in tr if len(t[0].get("raw", {}).get("cb", [])) > 0 and t[0]["fine"])
    for op, field, by in (("cen", "cl", 40), ("meas", "ml", 3)):
        k = next(k for k, r in enumerate(t) if r["op"] == op)
        def bad(x):
            y = x[k][field][2]
            if op == "cen":
                y[-1][0] += by
            else:
                y[-1] += by
        ctx.binding_demo("MeshGeoTrace", t, bad, name="last digits %s" % op)
