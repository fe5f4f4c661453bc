"""T03: histories of vector operations on all dimensions and types; orthogonalisation of independent integer vectors (scaled by powers of two)."""


def words(op, rng):
    n = op[0]
    w = [n]
    if n == "init":
        w += [op[1], op[2], len(op[3])] + [y for x in op[3] for y in x]
    else:
        for x in op[1:]:
            w += x if isinstance(x, list) else [x]
    if n in ("scale", "scaleby"): w.append(rng.randint(0, 2))
    return " ".join(map(str, w))


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    builds = {"o0": ("-O0",), "san": ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined")}
    fe = {n: ctx.pool.submit(ctx.compile, "vec_" + n, "vec.cpp", (), f, "c++14") for n, f in builds.items()}
    fe["o2"] = ctx.pool.submit(ctx.compile, "vec_o2", "vec.cpp", (), ("-O2",), "c++17")
    ctx.model_rejects("VecGen", "VecGen_weak.cfg")
    ctx.model_rejects("VecGen", "VecGen_weak2.cfg")
    ctx.model_rejects("OrthGen", "OrthGen_weak.cfg")
    hs = ctx.generate("VecGen", "VecGen.cfg", workers=4)
    ctx.extra["histories_enumerated"] = len(hs)
    sim = ctx.generate("VecGen", "VecGen_sim.cfg", simulate=(120 if q else 2500, 9), count=False)
    wide = [h for h in hs if h["ops"][-1][0] == "wide"]
    use = rng.sample(hs, 2300) + rng.sample(wide, min(len(wide), 200)) if q else hs
    sim = [h for h in sim if len(h["ops"]) == 8]
    use += rng.sample(sim, min(len(sim), 800 if q else 8000))
    orth = ctx.generate("OrthGen", "OrthGen.cfg", workers=4)
    orth = rng.sample(orth, 700) if q else orth
    so = ctx.generate("OrthGen", "OrthGen_sim.cfg", simulate=(60 if q else 900, 5), count=False)
    orth += rng.sample(so, min(len(so), 1200 if q else 20000))
    # the same in the lower dimensions: independent vectors of the plane and of the line
    for _ in range(60 if q else 400):
        d = rng.choice([1, 2, 2])
        v = [[rng.randint(-3, 3) for _ in range(d)] for _ in range(rng.randint(1, d))]
        if len(v) == 1 and any(v[0]) or len(v) == 2 and v[0][0] * v[1][1] != v[0][1] * v[1][0]:
            orth.append(v)
    scen = {n: [] for n in fe}
    names = sorted(fe)

    for h in use:
        t = rng.choice((["double", "ldouble", "ldouble"] if any(o[0] == "wide" for o in h["ops"]) else ["double", "float", "ldouble"]) if h["k"] == "r" else ["int", "long"])
        d = h["d"]
        rows = [[([3 * j - 5, 0] if h["k"] == "i" else ([6 * j - 7, 1])) for j in range(1, d + 1)], [[j * j - 3, 0] for j in range(1, d + 1)], [[0, 0]] * d]
        s = [("new %s %d %s" % (t, d, " ".join("%d %d" % tuple(x) for r in rows for x in r)), {"op": ["new"], "kind": h["k"], "type": t})]
        s += [(words(o, rng), {"op": o}) for o in h["ops"]]
        scen[rng.choice(names)].append(s)
    # records of the orthogonalisation carry their own state and form traces of one step; several go into one trace
    gsc = {n: [] for n in fe}
    for v in orth:
        t = rng.choice(["double", "float", "ldouble"])
        n, d = len(v), len(v[0])
        lim = {"double": 60, "float": 20, "ldouble": 200}[t]
        sc = [rng.choice([0, 0, rng.randint(-lim, lim)]) for _ in v] if rng.random() < .6 else [0] * n
        cmd = "gs %s %d %d %d %s %s" % (t, n, d, rng.randint(0, 3), " ".join(map(str, sc)), " ".join(str(x) for r in v for x in r))
        gsc[rng.choice(names)].append((cmd, {"op": ["gs"], "v": v, "tol": {"double": 2, "float": 24, "ldouble": 2}[t], "type": t, "scales": sc}))
    tr = []
    for n in names:
        tr += ctx.replay(fe[n].result(), scen[n] + [gsc[n][k:k + 10] for k in range(0, len(gsc[n]), 10)])
    ctx.validate("VecTrace", tr, timeout=900)
    ctx.extra["orthogonalised_tuples"] = len(orth)
    if not ctx.violations:
        t = next(t for t in tr if t[0]["op"][0] == "gs" and len(t[0]["v"]) > 1)
        def bad(x): x[0]["plain"][1][1][0] += 40
        ctx.binding_demo("VecTrace", t, bad, name="orthogonalised vector")
        def bad(x): x[0]["unit"][0][1] = [-c for c in x[0]["unit"][0][1]]
        ctx.binding_demo("VecTrace", t, bad, name="orientation")
        t = next(t for t in tr if t[0]["op"][0] == "new" and t[1]["op"][0] == "init")
        def bad(x): x[1]["v"][2][-1] = [13, 0]
        ctx.binding_demo("VecTrace", t, bad, name="coordinate")
