"""U03: generated classes, callables and lists of classes, described by the library."""
import os
import compgen as cg


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ctx.compile_verdict = True
    ctx.model_rejects("TypeDesc", "TypeDesc_weak.cfg")
    ps = ctx.generate("TypeDesc", "TypeDesc%s.cfg" % ("" if q else "_deep"), workers=1 if q else 4)
    ctx.extra["types_enumerated"] = len(ps)
    sim = ctx.generate("TypeDesc", "TypeDesc_sim.cfg", simulate=(400 if q else 4000, 12), count=False)

    def fine(p):
        if p["k"] != "sig": return True
        s = p["s"]
        return s["ret"] != "const int" and not (s["form"] == "member" and (s["ret"] in ("C", "void") or s["ret"].endswith("&")))
    key = lambda p: str(sorted(p.items(), key=str))
    seen, progs = set(), []
    for p in ps + sim:
        if fine(p) and key(p) not in seen:
            seen.add(key(p))
            progs.append(p)
    for kind, n in (("class", 700 if q else 6000), ("sig", 700 if q else 6000), ("list", 62)):
        those = [p for p in progs if p["k"] == kind]
        ctx.extra["%s_described" % kind] = min(n, len(those))
        rest = [p for p in progs if p["k"] != kind]
        progs = rest + rng.sample(those, min(n, len(those)))
    rng.shuffle(progs)
    types = sorted({t for p in progs if p["k"] == "sig" for t in p["s"]["args"] + [p["s"]["ret"]]})
    ng = 8 if q else 48
    groups = [progs[k::ng] for k in range(ng)]
    futs = []
    for g, ps in enumerate(groups):
        src = os.path.join(ctx.build, "u03_%d.cpp" % g)
        open(src, "w").write(cg.emit_desc(rng, ps, types))
        futs.append(ctx.pool.submit(ctx.compile, "u03_%d" % g, src, (), ("-O0",), "c++14" if g % 2 == 0 else "c++17", ("clang++" if g % 8 == 5 else "g++")))
    tr = []
    for ps, f in zip(groups, futs):
        tr += ctx.replay(f.result(), [[(str(i), {"p": p})] for i, p in enumerate(ps)])
    ctx.extra["descriptions"] = len(tr)
    ctx.validate("TypeDescTrace", tr, cfg="TypeDescTrace.cfg")
    if not ctx.violations:
        t = next(t for t in tr if t[0]["p"]["k"] == "class" and not t[0]["plain"]["iterable"])
        def bad(x): x[0]["plain"]["iterable"] = True
        ctx.binding_demo("TypeDescTrace", t, bad, cfg="TypeDescTrace.cfg", name="capability")
        t = next(t for t in tr if t[0]["p"]["k"] == "sig" and len(set(t[0]["args"])) > 1)
        def bad(x): x[0]["args"].reverse()
        ctx.binding_demo("TypeDescTrace", t, bad, cfg="TypeDescTrace.cfg", name="order of arguments")
