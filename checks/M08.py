"""M08: traversal of incident elements and connections, all pairs of dimensions, 2D, 3D, 4D."""
import funlib


def queries(rng, d, m):
    prs = [(s, t) for s in range(d + 1) for t in range(d + 1) if s != t]
    if getattr(m, "fan", None):
        prs = m.fan
    elif m is not None and d > 2:
        prs = rng.sample(prs, 5 if d == 3 else 4)
    q = []
    for s, t in prs:
        q.append(("apply %d %d" % (s, t), {"op": "apply", "s": s, "t": t}))
        q += [("conn %d %d %s" % (s, t, o), {"op": "conn", "s": s, "t": t, "o": o}) for o in rng.sample("AO", 2)]
    return q


def run(ctx):
    q = ctx.quick
    tr = funlib.run(ctx, 1, queries, (2, 3, 4), {2: (200 if q else 3000, 150 if q else 2500), 3: (84 if q else 1200, 120 if q else 1800), 4: (18 if q else 100, 25 if q else 250)}, special=funlib.crowded)
    if not ctx.violations:
        t = next(t for t in tr if len(t[0].get("raw", {}).get("cb", [])) > 0)
        k = next(k for k, r in enumerate(t) if r["op"] == "conn")
        def bad(x): x[k]["lists"][0] = x[k]["lists"][0][:-1]
        ctx.binding_demo("MeshFunTrace", t, bad, name="connection dropped")
        k2 = next(k for k, r in enumerate(t) if r["op"] == "apply")
        def bad(x): x[k2]["pairs"][-1] = x[k2]["pairs"][-1][::-1] if x[k2]["pairs"][-1][0] != x[k2]["pairs"][-1][1] else [9999, 1]
        ctx.binding_demo("MeshFunTrace", t, bad, name="pair exchanged")
