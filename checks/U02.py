"""U02: programs of loops and macros at compile time, as TLC enumerates them."""
import os
import compgen as cg


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ctx.compile_verdict = True      # a program which does not compile visits nothing
    ctx.model_rejects("CompTime", "CompTime_closed.cfg")
    ctx.model_rejects("CompTime", "CompTime_first.cfg")
    ps = ctx.generate("CompTime", "CompTime%s.cfg" % ("" if q else "_deep"))
    ctx.extra["programs_enumerated"] = len(ps)
    progs = [(p, 0) for p in ps]
    # long ranges and large indices
    for _ in range(40 if q else 200):
        a, n, s = rng.choice([0, 0, 1, 2, 7, rng.randint(3, 60)]), rng.randint(0, 120), rng.choice([1, 1, 2, 3, 5, 7, 16])
        base = rng.choice([0, 0, 2 ** 31 - 3, 2 ** 32 - 4, 2 ** 40])
        p = dict(k="for", **{"from": a, "to": a + n, "by": s}, n=0)
        if rng.random() < .4 and n:
            trips = -(-n // s)
            base = rng.choice([0, 2 ** 32 - 4, 2 ** 40])
            p = dict(k="for", **{"from": trips * s + a, "to": trips * s + a - n, "by": -s}, n=0)
        progs.append((p, base))
    progs.append((dict(k="for", **{"from": 0, "to": 9, "by": 1}, n=0), 2 ** 64 - 10))
    rng.shuffle(progs)
    groups = [progs[k::8] for k in range(8)]
    futs = []
    for g, ps in enumerate(groups):
        src = os.path.join(ctx.build, "u02_%d.cpp" % g)
        open(src, "w").write(cg.emit(rng, ps))
        futs.append(ctx.pool.submit(ctx.compile, "u02_%d" % g, src, (), ("-O%d" % (g % 2), "-ftemplate-depth=2000"), "c++14" if g % 2 == 0 else "c++17", ("clang++" if g == 5 else "g++")))
    tr = []
    for ps, f in zip(groups, futs):
        tr += ctx.replay(f.result(), [[(str(i), {"p": p, "base": str(b)})] for i, (p, b) in enumerate(ps)])
    ctx.extra["programs_run"] = len(tr)
    ctx.validate("CompTimeTrace", tr, cfg="CompTimeTrace.cfg")
    if not ctx.violations:
        t = next(t for t in tr if t[0]["p"]["k"] == "pairs" and t[0]["p"]["n"] > 4)
        def bad(x): x[0]["out"][1].reverse()
        ctx.binding_demo("CompTimeTrace", t, bad, cfg="CompTimeTrace.cfg", name="swapped pair")
        t = next(t for t in tr if t[0]["p"]["k"] == "for" and len(t[0]["out"]) > 2)
        def bad(x): x[0]["out"].pop()
        ctx.binding_demo("CompTimeTrace", t, bad, cfg="CompTimeTrace.cfg", name="last index left out")
