"""U01: threads request the instances of singletons in the orders TLC enumerates."""
import os


def run(ctx):
    rng = ctx.rng
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "drivers")
    drv = ctx.pool.submit(ctx.compile, "u01", "u01.cpp", (), ("-O0", os.path.join(here, "u01b.cpp")))
    san = ctx.pool.submit(ctx.compile, "u01s", "u01.cpp", (), ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", os.path.join(here, "u01b.cpp")))
    ctx.model_check("Singleton", "Singleton.cfg")
    for d in ("lazy", "early", "biglock"):
        ctx.model_rejects("Singleton", "Singleton_%s.cfg" % d)
    hs = ctx.generate("SingletonGen", "SingletonGen.cfg", workers=2)
    ctx.extra["schedules_enumerated"] = len(hs)
    sim = ctx.generate("SingletonGen", "SingletonGen_sim.cfg", simulate=(2000 if ctx.quick else 20000, 60), count=False)
    sim = [h for h in sim if h["hist"]]
    ctx.extra["schedules_simulated"] = len(sim)
    hs = [dict(h, classes=2) for h in rng.sample(hs, min(len(hs), 240 if ctx.quick else len(hs)))]
    hs += [dict(h, classes=3) for h in rng.sample(sim, min(len(sim), 120 if ctx.quick else 1500))]
    rng.shuffle(hs)

    def cmd(h):
        t = ["run", h["classes"] if h["needs"] else 0, h["fails"], len(h["prog"])]
        for p in h["prog"]:
            t += [len(p)] + p
        for k, th, c in h["hist"]:
            t += ["c" if k == "call" else "e", th, c]
        return " ".join(map(str, t))
    tr = []
    per = 75                   # every schedule needs classes of its own
    for exe, part in ((drv.result(), hs), (san.result(), hs[:: 3 if ctx.quick else 2])):
        shards = max(8, -(-len(part) // per))
        scen = [[("static", {})] for _ in range(shards)] + [[(cmd(h), {})] for h in part]
        tr += ctx.replay(exe, scen, shards=shards, timeout=600)
    ctx.extra["schedules_replayed"] = len(tr)
    ctx.validate("SingletonTrace", tr, cfg="SingletonTrace.cfg")
    if not ctx.violations:
        t = next(t for t in tr if sum(e["k"] == "ret" for e in t[0]["ev"]) > 1)

        def other(x):
            next(e for e in x[0]["ev"][::-1] if e["k"] == "ret")["o"] += 1

        def twice(x):
            ev = x[0]["ev"]
            k = next(k for k, e in enumerate(ev) if e["k"] == "begin")
            ev.insert(k, dict(ev[k]))
        ctx.binding_demo("SingletonTrace", t, other, cfg="SingletonTrace.cfg", name="another object returned")
        ctx.binding_demo("SingletonTrace", t, twice, cfg="SingletonTrace.cfg", name="constructed twice")
