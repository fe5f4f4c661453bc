"""E01: printed text shows the whole structure and all values, on streams and on standard output."""
import json, os
import expgen as eg
from expgen import Ty, leaf


def forced(rng, j):
    I, S, D = leaf("int"), leaf("std::string"), leaf("double")
    def bound(m):
        t = m.klass(2)
        while t.k != "cls": t = m.klass(2)
        return Ty("std::map<int, std::vector<%s>>" % t.cpp, "seq", [Ty("", "pair", [I, Ty("", "seq", [t])])])
    def nest(m):
        a = m.klass(1)
        while a.k != "cls": a = m.klass(1)
        return Ty("std::tuple<%s, std::pair<int, %s>>" % (a.cpp, a.cpp), "tup", [a, Ty("", "pair", [I, a])])
    def wrap(cpp):      # a class of classes with bound attributes, in a sequence
        def g(m):
            while True:
                a = m.klass(3)
                if a.k == "cls" and len(eg.classes(a)) > 2: return Ty(cpp % a.cpp, "seq", [a])
        return g
    def strong(m):
        t = leaf("Strong")
        t.k = "any"
        return t
    def dims(m):
        t = Ty("MeshDataContainer<int, 10, 102, 7>", "cls", [Ty("", "seq", [I])] * 3, 0, [1, 2, 3])
        t.cls, t.nm = t.cpp, [eg.nameof("dim %d" % d) for d in (10, 102, 7)]
        return t
    return [[lambda m: leaf("char[24]"), lambda m: leaf("unsigned char"), lambda m: Ty("std::vector<bool>", "seq", [leaf("bool")]), bound, strong],
            [lambda m: leaf("const char*"), lambda m: Ty("std::map<std::string, std::set<std::string>>", "seq", [Ty("", "pair", [S, Ty("", "seq", [S])])]), nest, wrap("std::vector<%s>")],
            [lambda m: Ty("std::tuple<>", "tup", []), lambda m: Ty("std::array<int, 0>", "arr", [I], 0), lambda m: leaf("char"), wrap("std::valarray<%s>"), strong],
            [lambda m: leaf("signed char"), lambda m: Ty("std::valarray<long double>", "seq", [leaf("long double")]), lambda m: leaf("bool"), dims, wrap("std::list<%s>")]][j % 4]


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ctx.compile_verdict = True
    ctx.model_check("ExpMC", "ExpMC.cfg" if q else "ExpMC_deep.cfg", workers=4)
    ctx.model_rejects("ExpMC", "ExpMC_weak.cfg")
    ctx.model_rejects("ExpMC", "ExpMC_weak2.cfg")
    nf, nt = (6, 9) if q else (28, 11)
    fams = [eg.family(rng, j, nt, forced(rng, j)) for j in range(nf)]
    futs = {}
    for f in fams:
        src = os.path.join(ctx.build, "e01_%d.cpp" % f.id)
        open(src, "w").write(eg.emit(f))
        san = ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
        futs[f.id] = ctx.pool.submit(ctx.compile, "e01_%d" % f.id, src, (), san if f.id % 3 != 2 else ("-O2",), "c++14" if f.id % 2 == 0 else "c++17")
    fj = os.path.join(ctx.build, "families.json")
    json.dump([eg.record(f) for f in fams], open(fj, "w"))
    one = ctx.generate("ExpGen", "ExpGen.cfg", workers=4, env={"FAMILY": fj})
    hist = {f.id: [] for f in fams}
    for h in one: hist[h["f"] - 1].append(h["h"])
    sim = ctx.generate("ExpGen", "ExpGen_sim.cfg", simulate=(120 if q else 1500, 15), count=False, env={"FAMILY": fj}, workers=1)
    for h in {json.dumps(h): h for h in sim}.values(): hist[h["f"] - 1].append(h["h"])
    ctx.extra["types"] = sum(len(f.types) for f in fams)
    ctx.extra["classes"] = sum("struct C" in d for f in fams for d in f.defs)
    ctx.extra["views"] = sum(len(t.views) for f in fams for t in f.types)
    tr = []
    for f in fams:
        hs = hist[f.id]
        if q and len(hs) > 330: hs = rng.sample(hs, 330)
        tr += eg.finish(ctx.replay(futs[f.id].result(), [eg.script(f, h) for h in hs]))
    ctx.validate("ExpTrace", tr, cfg="ExpTrace.cfg", timeout=900)
    if not ctx.violations:
        t = next(t for t in tr if t[-1]["tok"].count("[") > 1 and t[-1]["tok"].count(",") > 1)
        def bad(x): x[-1]["tok"].remove(",")
        ctx.binding_demo("ExpTrace", t, bad, cfg="ExpTrace.cfg", name="a separator missing")
        t = next(t for t in tr if t[-1]["w"] > 1 and "{" in t[-1]["tok"])
        def bad(x):
            p = x[-1]["tok"].index(":")
            x[-1]["tok"][p - 1] = "h.21"
        ctx.binding_demo("ExpTrace", t, bad, cfg="ExpTrace.cfg", name="a name changed")
