"""T01: generated classes with every kind of access and registration under histories of reads and writes; selection among bound traits."""
import os, json, subprocess
import traitgen as tg


def run(ctx):
    rng = ctx.rng
    ctx.compile_verdict = True      # the property is about all classes and registrations
    q = ctx.quick
    groups = []
    styles = ["attribute", "named", "custom"]
    ngroups = 8 if q else 40
    for g in range(ngroups):
        cl = [tg.make_class(rng, templ=k % 3 == 2) for k in range(5)]
        # every kind of registration macro, over the groups
        for r in "DIA":
            cl.append(tg.make_class(rng, allmem=styles[(g + "DIA".index(r)) % 3], templ=(g // 3) % 2 == 1, regs=[r, "L"]))
        # many attributes: up to the 20 the macros admit, more given explicitly
        n = [20, 19, 12, 8, 17, 10, 15, 13][g % 8]
        cl.append(tg.make_class(rng, n=n, regs=["DIA"[g % 3], "L"], allmem=styles[g % 3], templ=g % 2 == 0))
        if g % 4 == 1:
            cl.append(tg.make_class(rng, n=rng.randint(21, 30), regs=["L"], templ=False))
        groups.append(cl)
    futs = []
    for g, cl in enumerate(groups):
        src = os.path.join(ctx.build, "t01_%d.cpp" % g)
        open(src, "w").write(tg.emit_driver(cl, rng))
        futs.append(ctx.pool.submit(ctx.compile, "t01_%d" % g, src, (), ("-O0",), "c++14" if g % 2 == 0 else "c++17"))
    combos = []
    for a in [[]] + [[x] for x in tg.BOUND] + [[x, y] for x in tg.BOUND for y in tg.BOUND] + [[x, y, z] for x in tg.BOUND for y in tg.BOUND for z in tg.BOUND]:
        for cl in tg.SEL:
            for w in "IA":
                if len(a) < 3 or rng.random() < (.35 if q else 1):
                    combos.append((a, cl, w))
    selsrc = os.path.join(ctx.build, "t01sel.cpp")
    open(selsrc, "w").write(tg.emit_sel(combos))
    self_ = ctx.pool.submit(ctx.compile, "t01sel", selsrc)
    allc = [c for cl in groups for c in cl]
    where = [(g, k) for g, cl in enumerate(groups) for k in range(len(cl))]
    cj = os.path.join(ctx.build, "classes.json")
    small = [k for k, c in enumerate(allc) if c["ncell"] <= 12]
    # all pairs of operations on some classes, longer histories of all
    json.dump([tg.record(allc[k]) for k in small[:: 3 if q else 1]], open(cj, "w"))
    if q: pick = small[::3]
    else: pick = small
    ctx.model_rejects("TraitsGen", "TraitsGen_weak.cfg", env={"CLASSES": cj})
    hs = ctx.generate("TraitsGen", "TraitsGen.cfg", workers=4, env={"CLASSES": cj})
    ctx.extra["histories_enumerated"] = len(hs)
    per = {}
    for h in hs:
        h["c"] = pick[h["c"] - 1]
        o = h["ops"][-1]
        per.setdefault((h["c"],) + tuple(map(str, o[:5] if o[0] in ("set", "path") else o[:1] + o[2:3])), []).append(h)
    use = [rng.choice(per[k]) for k in sorted(per)]
    if len(use) > (2500 if q else 40000):
        use = rng.sample(use, 2500 if q else 40000)
    cj2 = os.path.join(ctx.build, "classes2.json")
    json.dump([tg.record(c) for c in allc], open(cj2, "w"))
    sim = ctx.generate("TraitsGen", "TraitsGen_sim.cfg", simulate=(150 if q else 2000, 11), count=False, env={"CLASSES": cj2})
    for h in sim: h["c"] -= 1
    per = {}
    for h in sim: per.setdefault(h["c"], []).append(h)
    use += [h for k in sorted(per) for h in rng.sample(per[k], min(len(per[k]), 6 if q else 40))]
    def words(o):
        return " ".join(" ".join(map(str, x)) if isinstance(x, list) else str(x) for x in o)
    tr = []
    for g in range(len(groups)):
        scen = [[("new %d" % where[h["c"]][1], {"op": ["new"], "ncell": allc[h["c"]]["ncell"], "reg": tg.record(allc[h["c"]])["reg"]})] + [(words(o), {"op": o}) for o in h["ops"]]
                for h in use if where[h["c"]][0] == g]
        if scen:
            tr += ctx.replay(futs[g].result(), scen)
    ctx.extra["classes"] = len(allc)
    ctx.validate("TraitsTrace", tr, timeout=900)
    # selection
    r = subprocess.run([self_.result()], stdout=subprocess.PIPE, timeout=120)
    ans = [json.loads(l) for l in r.stdout.decode().splitlines()]
    if r.returncode or len(ans) != len(combos):
        ctx.violation({"rc": r.returncode, "answers": len(ans), "of": len(combos)}, "the selection program failed")
        return
    st = []
    for (b, cl, w), a in zip(combos, ans):
        d = tg.sel_default(cl, w)
        nm = a["name"]
        sel = next(([c2, t] for c2 in tg.SEL for t, ns in tg.SEL[c2].items() if ns[0] == nm), [])
        st.append([{"op": ["sel"], "bound": [list(x) for x in b], "cl": cl, "default": [cl, d] if d else [], "names": tg.SEL[cl], "valid": a["valid"] and a["own"], "sel": sel, "shown": a["shown"], "own": a["own"]}])
    for t in st:
        if not t[0]["own"]:
            ctx.violation(t, "the binder does not refer to the given object and traits")
            return
    ctx.validate("TraitsTrace", st)
    if not ctx.violations:
        t = next(t for t in tr if t[-1]["op"][0] == "set")
        def bad(x): x[-1]["views"][0]["obj"][0]["vals"][0][0] = [-5]
        ctx.binding_demo("TraitsTrace", t, bad, name="value of an attribute")
        def bad(x): x[0]["sel"] = ["S2", "L1"]
        ctx.binding_demo("TraitsTrace", next(t for t in st if t[0]["cl"] == "S1"), bad, name="selected traits")
