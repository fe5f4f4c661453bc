"""M16: normals, orientation of edges, differences and distances of cells."""
import geolib, M15


def q_normal(rng, dim, sc):
    q, bnd = [], False
    for x in rng.choice(["D", "T", "DT"]):
        q.append(("init %s %s" % (x, rng.choice("MP")), {"op": "init", "meth": x}))
        if bnd:
            q.append(("bcen", {"op": "bcen"}))
        part = [("norm %s %s" % (y, rng.choice("SM") if dim < 4 else rng.choice("PM")), {"op": "norm"}) for y in "DT"]
        part.append(("diff", {"op": "diff"}))
        if dim < 4:
            part.append(("ori", {"op": "ori"}))
        rng.shuffle(part)
        q += part
        if not bnd and rng.random() < .6:
            bnd = True
            q.append(("bnd", {"op": "bnd"}))
            rng.shuffle(part)
            q += part
    return q


def run(ctx):
    M15.demo = demo
    M15.run(ctx, q_normal, {2: 300, 3: 220, 4: 40} if ctx.quick else {2: 4000, 3: 2600, 4: 500})


def demo(ctx, tr):
    t = next(t for t in tr if len(t[0].get("raw", {}).get("cb", [])) > 0)
    def at(op):
        return next(k for k, r in enumerate(t) if r["op"] == op)
    k = at("norm")
    def bad(x): x[k]["n"][0] = [-a for a in x[k]["n"][0]]
    ctx.binding_demo("MeshGeoTrace", t, bad, name="normal reversed")
    def bad(x): x[k]["n"][-1] = [a * 2 for a in x[k]["n"][-1]]
    ctx.binding_demo("MeshGeoTrace", t, bad, name="normal not unit")
    if t[0]["fine"]:
        def bad(x): x[k]["nl"][0] = [a + 40 * q for a, q in zip(x[k]["nl"][0], (1, 3, 7))]
        ctx.binding_demo("MeshGeoTrace", t, bad, name="last digits of a normal")
    k2 = at("diff")
    def bad(x): x[k2]["diff"][0] = [-a for a in x[k2]["diff"][0]]
    ctx.binding_demo("MeshGeoTrace", t, bad, name="difference reversed")
    def bad(x): x[k2]["dist"][0] += 8
    ctx.binding_demo("MeshGeoTrace", t, bad, name="distance")
    k3 = at("ori")
    def bad(x): x[k3]["ori"][0][0] = 1 - x[k3]["ori"][0][0]; x[k3]["ori2"][0][0] = x[k3]["ori"][0][0]
    ctx.binding_demo("MeshGeoTrace", t, bad, name="orientation")
