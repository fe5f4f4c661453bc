"""S02: histories of two serializers and two files."""
import json


def script(h):
    s = [("new", {"op": "new"})]
    for r in h:
        s.append(("%s %d %d %s" % (r["op"], r["a"], r["g"], " ".join("%d %d" % tuple(k) for k in r["ks"])), r))
    return s


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    exe = ctx.pool.submit(ctx.compile, "s02", "s02.cpp", (), ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), "c++14")
    opt = ctx.pool.submit(ctx.compile, "s02o", "s02.cpp", (), ("-O2",), "c++17")
    for w in ("restart", "unread", "norewind"):
        ctx.model_rejects("SerLogGen", "SerLogGen_%s.cfg" % w)
    if not q:
        ctx.model_check("SerLogGen", "SerLogGen_deep.cfg", workers=8, timeout=900)
    one = ctx.generate("SerLogGen", "SerLogGen.cfg", workers=4)
    two = ctx.generate("SerLogGen", "SerLogGen_two.cfg", workers=4)
    n = 3000 if q else 12000
    hs = rng.sample(one, min(len(one), n)) + rng.sample(two, min(len(two), n // 2))
    sim = ctx.generate("SerLogGen", "SerLogGen_sim.cfg", simulate=(300 if q else 3000, 25), count=False, workers=1)
    sim = sorted({json.dumps(h): h for h in sim}.items())
    hs += [h for _, h in rng.sample(sim, min(len(sim), 300 if q else 3000))]
    # more than 64 KB: histories that save and load, with a large vector for the texts
    big = [h for h in hs if {r["op"] for r in h} >= {"w", "s", "l"} and any(k[0] == 1 for r in h for k in r["ks"]) and not any(len(r["ks"]) > 1 for r in h)]
    grown = [[dict(r, ks=[[6 if k[0] == 1 else k[0], k[1]] for k in r["ks"]]) for r in h] for h in rng.sample(big, min(len(big), 4 if q else 12))]
    ctx.extra["histories_with_more_than_64KB"] = len(grown)
    scen = [script(h) for h in grown + hs]
    tr = ctx.replay(exe.result(), scen[::2], args=[ctx.build]) + ctx.replay(opt.result(), scen[1::2], args=[ctx.build])
    ctx.validate("SerLogTrace", tr, cfg="SerLogTrace.cfg", timeout=900)
    if not ctx.violations:
        t = next(t for t in tr if any(r["op"] == "r" for r in t))
        def bad(x): next(r for r in x if r["op"] == "r")["vals"][0] = "i0"
        ctx.binding_demo("SerLogTrace", t, bad, name="value read", cfg="SerLogTrace.cfg")
        t = next(t for t in tr if any(r["op"] == "x" for r in t))
        def bad(x): next(r for r in x if r["op"] == "x")["threw"] = False
        ctx.binding_demo("SerLogTrace", t, bad, name="exception", cfg="SerLogTrace.cfg")
        saved = lambda r: r["op"] == "s" and 0 < len(r["files"][0]) < 1000
        t = next(t for t in tr if any(saved(r) for r in t))
        def bad(x):
            r = next(r for r in x if saved(r))
            r["files"][0][0] = (r["files"][0][0] + 1) % 256
        ctx.binding_demo("SerLogTrace", t, bad, name="content of the file", cfg="SerLogTrace.cfg")
