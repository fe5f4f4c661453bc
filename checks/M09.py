"""M09: neighbours through a connecting dimension, all triples of dimensions, 2D, 3D, 4D."""
import funlib


def queries(rng, d, m):
    tr = [(s, c, t) for s in range(d + 1) for c in range(d + 1) for t in range(d + 1) if s != c and c != t]
    k = {2: 8, 3: 9, 4: 6}[d]
    if getattr(m, "fan", None):
        tr = [(0, 2, 0), (0, 1, 0), (2, 1, 2)] if d == 2 else [(3, 2, 3), (0, 2, 3), (3, 2, 1)]
    elif m is not None:
        tr = rng.sample(tr, k)
    return [("nei %d %d %d %s" % (s, c, t, o), {"op": "nei", "s": s, "c": c, "t": t, "o": o}) for s, c, t in tr for o in rng.sample("AO", 2)]


def run(ctx):
    q = ctx.quick
    tr = funlib.run(ctx, 2, queries, (2, 3, 4), {2: (200 if q else 3000, 150 if q else 2500), 3: (84 if q else 1200, 110 if q else 1800), 4: (18 if q else 100, 20 if q else 250)}, special=funlib.crowded)
    if not ctx.violations:
        t = next(t for t in tr if any(r["op"] == "nei" and r["s"] == r["t"] and r["lists"] and r["lists"][0] for r in t))
        k = next(k for k, r in enumerate(t) if r["op"] == "nei" and r["s"] == r["t"] and r["lists"] and r["lists"][0])
        def bad(x): x[k]["lists"][0] = sorted(x[k]["lists"][0] + [0])
        ctx.binding_demo("MeshFunTrace", t, bad, name="an element among its own neighbours")
