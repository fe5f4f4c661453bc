"""Meshes for the checks of queries and functions: all the small cubical ones of MeshCub and random larger ones."""
import loadlib, meshgen as g


def raw_of_model(m):
    r = g.Raw(m["dim"], m["v"], m["e"], m["s"], [])
    for k in ("l", "r", "nl", "nr", "cb"):
        setattr(r, k, m[k])
    return r


def renumbered(raw, rng):
    """The same mesh with vertices, edges, faces, cells renumbered randomly (each dimension independently)."""
    n = [len(raw.v), len(raw.e)] + [len(x) for x in raw.s] + [len(raw.cb)]
    pm = [list(range(k)) for k in n]
    for p in pm:
        rng.shuffle(p)            # old -> new
    def put(lst, p):
        out = [None] * len(lst)
        for o, x in enumerate(lst):
            out[p[o]] = x
        return out
    F = pm[raw.dim - 1]
    C = pm[raw.dim]
    f = lambda x: F[x] if x >= 0 else x
    c = lambda x: C[x] if x >= 0 else x
    r = g.Raw(raw.dim, put(raw.v, pm[0]), put([[pm[0][a] for a in (e if rng.random() < .5 else e[::-1])] for e in raw.e], pm[1]),
              [put([[pm[d + 1][x] for x in s] for s in lst], pm[d + 2]) for d, lst in enumerate(raw.s)], [])
    r.l, r.r = put([c(x) for x in raw.l], F), put([c(x) for x in raw.r], F)
    r.nl, r.nr = put([f(x) for x in raw.nl], F), put([f(x) for x in raw.nr], F)
    r.cb = put([f(x) for x in raw.cb], C)
    return r


def random_raw(rng, dim, big=False):
    if dim == 2:
        if rng.random() < .2:
            return g.planar_to_raw(g.fan2(rng.randint(3, 9), rng), rng)
        return g.planar_to_raw(g.lattice2(rng, rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)] + ([(4, 4), (5, 3)] if big else [])), merges=rng.choice([0, 2, 4])), rng)
    if dim == 3:
        return g.poly_to_raw(loadlib.random_poly(rng, rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1)] + ([(2, 2, 2), (3, 2, 2)] if big else []))), rng)
    return g.cubical(rng, 4, rng.choice([(1, 1, 1, 1), (2, 1, 1, 1), (2, 2, 1, 1)] + ([(2, 2, 2, 1)] if big else [])))


def crowded(rng, d):
    """Meshes with an element incident to more than 256 others; .fan: the few pairs (start, target) to ask about."""
    n = rng.randint(257, 262)
    if d == 2:
        r = renumbered(g.planar_to_raw(g.fan2(n, rng), rng), rng)
        r.fan = [(0, 2), (0, 1), (2, 0)]
    elif d == 3:
        f = g.fan2(n)
        import geolib
        r = g.poly_to_raw(g.scramble(geolib.prism([tuple(p) for p in f.pts[1:]], 1, 8), rng), rng)
        r.fan = [(3, 0), (3, 2), (2, 1), (2, 0), (1, 2)]
    else:
        return []
    return [r]


def cfg_for(raw, rng):
    if raw.dim == 2:
        return rng.randrange(2)
    if raw.dim == 3:
        return rng.choice([0, 1]) if max([len(x) for x in raw.s[0]] + [0]) <= 12 else 0
    return rng.choice([0, 1])


def build_scen(raw, rng):
    return [("new %d raw %s" % (cfg_for(raw, rng), raw.text()), {"op": "raw", "dim": raw.dim, "raw": raw.record()})]


def empty_scen(dim, rng):
    return [("new %d empty" % rng.randrange(2), {"op": "empty", "dim": dim})]


def run(ctx, group, queries, dims, counts, extra=None, special=None):
    """queries(rng, dim) -> list of (command, record) to run on each mesh; counts[dim] = (model meshes, random meshes)."""
    rng = ctx.rng
    exes = {d: ctx.pool.submit(ctx.compile, "mfun%d" % d, "mfun.cpp", ("DIM=%d" % d, "GROUP=%d" % group)) for d in dims}
    last = None
    for d in dims:
        gen = ctx.generate("MeshCub", "MeshCub_%d%s.cfg" % (d, "" if ctx.quick else "_deep"), workers=4, timeout=800)
        ctx.extra["meshes_enumerated_%dd" % d] = len(gen)
        ms = [raw_of_model(x["m"]) for x in gen]
        nm, nr = counts[d]
        if len(ms) > nm:
            ms = rng.sample(ms, nm)
        # the enumerated meshes as they are and under a random numbering
        ms = [m if rng.random() < .5 else renumbered(m, rng) for m in ms]
        ms += [random_raw(rng, d, rng.random() < .3) for _ in range(nr)]
        if special:
            ms += special(rng, d)
        scen = [build_scen(m, rng) + queries(rng, d, m) + [("dump", {"op": "dump"})] for m in ms]
        scen.append(empty_scen(d, rng) + queries(rng, d, None) + [("dump", {"op": "dump"})])
        rng.shuffle(scen)
        tr = ctx.replay(exes[d].result(), scen)
        ctx.validate("MeshFunTrace", tr)
        last = tr
    return last
