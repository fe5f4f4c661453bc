"""M10: greedy and random colourings, all pairs of dimensions in 2D and 3D, needing any number of colours."""
import funlib, meshgen as g


def queries(rng, d, m):
    prs = [(s, t) for s in range(d + 1) for t in range(d + 1) if s != t]
    if m is not None and len(m.v) > 16 and not getattr(m, "fan", 0):
        prs = rng.sample(prs, 5)
    q = []
    for s, t in prs:
        if getattr(m, "fan", 0) and (s, t) not in m.fan:
            continue
        for meth in ["G", "R", "R"] + (["D"] if rng.random() < .3 else []):
            seed = rng.choice([0, 1, 7, 2**32 - 1, rng.randrange(2**32)])
            q.append(("col %d %d %s %d" % (s, t, meth, seed), {"op": "col", "s": s, "t": t, "meth": meth, "seed": seed % 1000}))
    return q


def special(rng, d):
    """Fans of cells around one vertex: 15..40 (and more) colours of cells through vertices, of edges through vertices."""
    out = []
    for n in ([14, 15, 16, 17, 18, 31, 32, 33, 34] + [rng.randint(35, 48), rng.randint(63, 67)]):
        if d == 2:
            r = funlib.renumbered(g.planar_to_raw(g.fan2(n, rng), rng), rng)
            r.fan = [(2, 0), (1, 0), (0, 2), (0, 1)] if n < 40 else [(2, 0), (1, 0)]
        else:
            # prisms over a fan; cells and edges around the axis, faces around the axis
            p = g.fan2(n, None)
            k = len(p.pts)
            pts = [q + (0,) for q in p.pts] + [q + (8,) for q in p.pts]
            s = g.Solid(pts, [(g.WEDGE, c + [x + k for x in c]) for c in p.cells])
            r = g.poly_to_raw(g.scramble(g.solid_to_poly(s), rng), rng)
            r.fan = [(3, 1), (2, 1)] if n > 20 else [(3, 0), (3, 1), (2, 1), (2, 0)]
            if n > 48: continue
        out.append(r)
    import geolib
    for n in (33, rng.randint(65, 70), rng.randint(129, 135)):     # large polygons and prisms over them: colours of vertices, edges and faces through cells
        ring = [tuple(q) for q in g.fan2(n).pts[1:]]
        if d == 2:
            half = n // 2
            p = g.Planar(ring, [list(range(n))] if n < 60 else [list(range(half + 1)), list(range(half, n)) + [0]])
            r = funlib.renumbered(g.planar_to_raw(p, rng), rng)
            r.fan = [(0, 2), (1, 2)]
        else:
            r = g.poly_to_raw(g.scramble(geolib.prism(ring, 1, 8), rng), rng)
            r.fan = [(2, 3)] if n > 100 else [(0, 3), (2, 3), (0, 2)]
        out.append(r)
    if d == 2:      # more than 256 colours
        r = funlib.crowded(rng, 2)[0]
        r.fan = [(2, 0)]
        out.append(r)
    return out


def run(ctx):
    q = ctx.quick
    ctx.model_check("MeshColor", "MeshColor%s.cfg" % ("" if q else "_deep"), workers=4)
    tr = funlib.run(ctx, 3, queries, (2, 3), {2: (150 if q else 3000, 150 if q else 2500), 3: (60 if q else 1200, 80 if q else 1500)}, special=special)
    if not ctx.violations:
        t = next(t for t in tr if len(t[0].get("raw", {}).get("cb", [])) > 1)
        k = next(k for k, r in enumerate(t) if r["op"] == "col" and max(r["col"]) > 0)
        def bad(x): x[k]["col"] = [0] * len(x[k]["col"])
        ctx.binding_demo("MeshFunTrace", t, bad, name="one colour for all")
