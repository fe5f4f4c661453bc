"""E02: JSON, HTML and console logs record the logged calls."""
import json, os
import loggen as lg


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ctx.compile_verdict = True
    ctx.model_check("ExpLogMC", "ExpLogMC.cfg" if q else "ExpLogMC_deep.cfg", workers=4 if q else 8, timeout=800)
    for w in ("first", "append", "nofoot", "group"): ctx.model_rejects("ExpLogMC", "ExpLogMC_%s.cfg" % w)
    nf = 5 if q else 11
    fams = [lg.family(rng, j, 9, 8, quiet=j == nf - 1) for j in range(nf)]
    futs = {}
    for f in fams:
        src = os.path.join(ctx.build, "e02_%d.cpp" % f.id)
        open(src, "w").write(lg.emit(f))
        san = ("-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS")
        futs[f.id] = ctx.pool.submit(ctx.compile, "e02_%d" % f.id, src, ('UNDEBUG',) if f.quiet else (), san if f.id % 2 == 0 else ("-O2",), "c++14" if f.id % 4 < 2 else "c++17", "g++", False)
    fj = os.path.join(ctx.build, "families.json")
    json.dump([lg.record(f) for f in fams], open(fj, "w"))
    one = ctx.generate("ExpLogGen", "ExpLogGen.cfg", workers=4, env={"FAMILY": fj})
    hist = {f.id: [] for f in fams}
    for h in one: hist[h["f"] - 1].append(h["h"])
    for k in hist: hist[k] = rng.sample(hist[k], min(len(hist[k]), 130 if q else 1500))
    sim = ctx.generate("ExpLogGen", "ExpLogGen_sim.cfg", simulate=(60 if q else 700, 19), count=False, env={"FAMILY": fj}, workers=1)
    sim = list({json.dumps(h): h for h in sim}.values())
    for h in rng.sample(sim, min(len(sim), 700 if q else 9000)): hist[h["f"] - 1].append(h["h"])
    ctx.extra["types"] = sum(len(f.types) for f in fams)
    ctx.extra["call_sites"] = sum(len(f.sites) for f in fams)
    tr = []
    for f in fams:
        exe = futs[f.id].result()
        tr += lg.finish(ctx.replay(exe, [lg.script(f, h, rng) for h in hist[f.id]], cwd=ctx.build), f, ctx.build)
    ctx.extra["documents"] = sum(x["kind"] != "none" for t in tr for x in t[-1].get("files", []))
    ctx.validate("ExpLogTrace", tr, cfg="ExpLogTrace.cfg", timeout=900)
    if not ctx.violations:
        def doc(t): return next((x for x in t[-1]["files"] if len(x["entries"]) > 2), None)
        t = next(t for t in tr if t[-1]["op"] == "end" and doc(t))
        def bad(x): doc(x)["entries"].pop()
        ctx.binding_demo("ExpLogTrace", t, bad, cfg="ExpLogTrace.cfg", name="an entry missing")
        def bad(x): doc(x)["entries"][1]["g"] = "9999"
        ctx.binding_demo("ExpLogTrace", t, bad, cfg="ExpLogTrace.cfg", name="a group torn")
        t = next(t for t in tr if any(r["op"] == "log" and r["a"] == 5 and r["entries"] for r in t))
        def bad(x): next(r for r in x if r["op"] == "log" and r["a"] == 5 and r["entries"])["entries"][0]["expr"] += ".21"
        ctx.binding_demo("ExpLogTrace", t, bad, cfg="ExpLogTrace.cfg", name="a name changed")
