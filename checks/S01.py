"""S01: what is written reads back equal, for generated types, values and histories."""
import os, json
import sergen as sg
from sergen import Ty, leaf


def bound(m, rng):
    """a sequence of objects with attributes bound to them"""
    e = m.klass(1)
    while not e.views: e = m.klass(1)
    c = rng.choice(["vector", "deque"])
    t = Ty("std::%s<%s>" % (c, e.cpp), "seq", [e])
    t.views = [(tr, lambda v=v: dict(sg.tree(t), e=[v()])) for tr, v in e.views]
    return t


def forced(rng, j):
    """types that always take part"""
    return both(rng, j) + ([lambda m: bound(m, rng)] if j % 2 == 0 else [])


def both(rng, j):
    ints = lambda m: Ty("std::vector<int>", "seq", [leaf("int")])
    return [[lambda m: Ty("std::vector<bool>", "seq", [leaf("bool")]), lambda m: leaf("std::string"), ints, lambda m: m.klass(1)],
            [lambda m: Ty("std::list<std::string>", "seq", [leaf("std::string")]), lambda m: Ty("std::map<std::string, std::vector<double>>", "seq", [Ty("", "tup", [leaf("std::string"), Ty("", "seq", [leaf("double")])])]), lambda m: m.klass(2)],
            [lambda m: Ty("std::valarray<long double>", "seq", [leaf("long double")]), lambda m: Ty("std::multiset<std::string>", "seq", [leaf("std::string")]), lambda m: Ty("std::array<int, 0>", "arr", [leaf("int")], 0), lambda m: m.klass(1)],
            [lambda m: Ty("MeshDataContainer<double, 3, 0>", "tup", [Ty("", "seq", [leaf("double")])] * 2), lambda m: Ty("std::unordered_multimap<int, std::string>", "seq", [Ty("", "tup", [leaf("int"), leaf("std::string")])]), lambda m: Ty("std::deque<bool>", "seq", [leaf("bool")])]][j % 4]


def huge(f, hs, rng, n):
    """histories that begin with a variable whose first value is huge"""
    hs = [h for h in hs if h[0]["op"] in "wc" and h[0]["q"] == 1 and f.huge[h[0]["k"] - 1] != f.vals[h[0]["k"] - 1]]
    # the value has to be read again, and every way of storing elements takes part
    back = lambda h: any(r["op"] in ("r", "c") and r["k"] == h[0]["k"] for r in h[0:1] + h[1:])
    kinds = {}
    for h in rng.sample(hs, len(hs)):
        t = f.types[h[0]["k"] - 1].cpp
        if back(h): kinds.setdefault(t.split("<")[0] + ("<bool" if "<bool" in t else ""), h)
    first = rng.sample(sorted(kinds), min(n, len(kinds)))
    first.sort(key=lambda k: k not in ("std::vector<bool", "std::deque<bool", "std::deque"))
    return [kinds[k] for k in first] + rng.sample(hs, min(2, len(hs)))


def run(ctx):
    rng = ctx.rng
    q = ctx.quick
    ctx.compile_verdict = True      # the property is about all types
    ctx.model_check("SerMC", "SerMC.cfg" if q else "SerMC_deep.cfg", workers=4)
    ctx.model_rejects("SerMC", "SerMC_weak.cfg")
    ctx.model_rejects("SerMC", "SerMC_weak2.cfg")
    nf, nt = (6, 8) if q else (28, 10)
    fams = [sg.family(rng, j, nt, forced(rng, j)) for j in range(nf)]
    futs = {}
    for f in fams:
        src = os.path.join(ctx.build, "s01_%d.cpp" % f.id)
        open(src, "w").write(sg.emit(f))
        san = ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
        futs[f.id] = ctx.pool.submit(ctx.compile, "s01_%d" % f.id, src, (), san if f.id % 3 != 2 else ("-O2",), "c++14" if f.id % 2 == 0 else "c++17")
    fj = os.path.join(ctx.build, "families.json")
    json.dump([sg.record(f) for f in fams], open(fj, "w"))
    one = ctx.generate("SerGen", "SerGen.cfg", workers=4, env={"FAMILY": fj})
    hist = {f.id: [] for f in fams}
    per = {}
    for h in one:
        r = h["h"][0]
        per.setdefault((h["f"], r["op"], r["k"], r["w"]), []).append(h["h"])
    for (f, op, k, w), hs in sorted(per.items()):
        for h in rng.sample(hs, min(len(hs), (8 if op == "w" else 2) if q else 18)):
            hist[f - 1].append(h)
    ctx.extra["types"] = sum(len(f.types) for f in fams)
    ctx.extra["classes"] = sum("struct C" in d for f in fams for d in f.defs)
    sim = ctx.generate("SerGen", "SerGen_sim.cfg", simulate=(150 if q else 2000, 15), count=False, env={"FAMILY": fj}, workers=1)
    per = {}
    for h in sim:
        per.setdefault(h["f"] - 1, {})[json.dumps(h["h"])] = h["h"]
    for f, hs in sorted(per.items()):
        ks = sorted(hs)
        ks.sort(key=lambda k: -len([r for r in hs[k] if r["op"] in ("r", "rm")]))
        ks = ks[:max(1, len(ks) // 2)]
        for k in rng.sample(ks, min(len(ks), 40 if q else 120)):
            hist[f].append(hs[k])
    tr = []
    for f in fams:
        tr += ctx.replay(futs[f.id].result(), [sg.script(f, h) for h in hist[f.id]] + [sg.script(f, h, True) for h in huge(f, hist[f.id], rng, 5 if q else 25)])
    ctx.validate("SerTrace", tr, cfg="SerTrace.cfg", timeout=900)
    if not ctx.violations:
        t = next(t for t in tr if len(t) == 3 and t[2]["op"] == "r" and t[0]["types"][t[2]["k"] - 1]["views"][t[2]["w"] - 1]["k"] == "seq" and t[2]["vars"][t[2]["k"] - 1][t[2]["q"] - 1])
        def bad(x): x[2]["vars"][x[2]["k"] - 1][x[2]["q"] - 1].pop()
        ctx.binding_demo("SerTrace", t, bad, name="an element missing", cfg="SerTrace.cfg")
        t = next(t for t in tr if t[1]["op"] == "c")
        def bad(x): x[1]["used"] -= 1
        ctx.binding_demo("SerTrace", t, bad, name="consumed data", cfg="SerTrace.cfg")
        t = next(t for t in tr if t[-1]["op"] == "r")
        def bad(x): x[-1]["valid"] = not x[-1]["valid"]
        ctx.binding_demo("SerTrace", t, bad, name="reading position", cfg="SerTrace.cfg")
