"""T02: expressions over generated classes with arithmetic traits: of a symbolic type (all values) and of numbers."""
import os, json
from fractions import Fraction as F
import arithgen as ag


def run(ctx):
    rng = ctx.rng
    q = ctx.quick
    ctx.compile_verdict = True      # the property is about all expressions
    kinds = ["sym", "sym", "num", "num", "vert", "arr"] if q else ["sym"] * 8 + ["num"] * 8 + ["vert"] * 4 + ["arr"] * 3
    classes = [ag.make(rng, k, kind) for k, kind in enumerate(kinds)]
    cj = os.path.join(ctx.build, "one.json")
    json.dump([{"kinds": ["S"] * 3, "ops": ["+", "-", "*", "/", "pow"], "funs": ["neg", "abs"] + (["exp"] if q else ag.FUNS), "top": [1, 2], "prod": True, "sym": True, "agg": []}], open(cj, "w"))
    ctx.model_rejects("ArithGen", "ArithGen_weak.cfg", env={"CLASSES": cj})
    one = ctx.generate("ArithGen", "ArithGen.cfg", workers=4, env={"CLASSES": cj})
    if not q:
        ctx.model_check("ArithGen", "ArithGen_deep.cfg", workers=8, timeout=900, env={"CLASSES": cj})
    ctx.extra["statements_enumerated"] = len(one)
    # statements up to three tokens on a symbolic class: all pairs of operators and operands, the statement kinds sampled
    per = {}
    for h in one:
        per.setdefault(json.dumps(h["h"][0]["toks"]), []).append(h["h"])
    stmts = {c.id: [] for c in classes}
    hists = {c.id: [] for c in classes}
    index = {c.id: {} for c in classes}

    def use(c, h):
        """add a history to a class; its statements are compiled"""
        n = []
        for r in h:
            k = json.dumps(r)
            if r["st"] != "poke" and k not in index[c.id]:
                index[c.id][k] = len(stmts[c.id])
                stmts[c.id].append(r)
            n.append(r)
        hists[c.id].append(n)
    syms = [c for c in classes if c.kind == "sym"]
    basic = sorted(per)
    for k in basic:
        tops = {t[2] for h in per[k] for t in h[0]["toks"] if t[0] == "a"}
        for c in (syms if not q else [rng.choice(syms)]):
            h = rng.choice(per[k])
            if any(t > len(c.top) for t in tops): continue
            h = [dict(r, toks=[(["a", t[1], c.top[t[2] - 1]] if t[0] == "a" else t) for t in r["toks"]]) for r in h]
            use(c, h)
    if q:        # not all of them on every change
        for c in syms:
            small = [h for h in hists[c.id] if len(h[0]["toks"]) == 3]
            rest = [h for h in hists[c.id] if len(h[0]["toks"]) != 3]
            binary = [h for h in small if h[0]["toks"][-1][0] == "b"]
            unary = [h for h in small if h[0]["toks"][-1][0] == "u"]
            stmts[c.id], index[c.id], hists[c.id] = [], {}, []
            for h in rest + rng.sample(binary, min(len(binary), 90)) + rng.sample(unary, min(len(unary), 12)):
                use(c, h)
    # histories of longer statements on all classes
    cj2 = os.path.join(ctx.build, "classes.json")
    json.dump([ag.record(c) for c in classes], open(cj2, "w"))
    sim = ctx.generate("ArithGen", "ArithGen_sim.cfg", simulate=(6000 if q else 40000, 28), count=False, env={"CLASSES": cj2}, workers=1)
    per = {}
    for h in sim:
        c = classes[h["c"] - 1]
        if c.kind != "sym":
            vs = ag.start(c)
            ok = []
            for r in h["h"]:
                try:
                    vs = ag.execute(c, vs, r)
                    ok.append(r)
                except ag.Leave:
                    continue
            h["h"] = ok
        if h["h"]:
            per.setdefault(c.id, {})[json.dumps(h["h"])] = h["h"]
    lim = {"sym": 14 if q else 60, "num": 22 if q else 80, "vert": 22 if q else 80, "arr": 14 if q else 30}
    for c in classes:
        hs = sorted(per.get(c.id, {}))
        # prefer long histories
        hs.sort(key=lambda h: -sum(len(r["toks"]) for r in per[c.id][h]))
        hs = hs[:max(1, len(hs) // 2)]
        for h in rng.sample(hs, min(len(hs), lim[c.kind])):
            use(c, per[c.id][h])
    # elementwise functions of numbers with exact results
    for c in classes:
        if c.kind == "num":
            for f in sorted(ag.FITTING):
                for cat in ("lctm" if not q else rng.sample("lctm", 2)):
                    vals = []
                    for _, t in c.leaf:
                        fit = [x for x in ag.FITTING[f] if (ag.INT[t] == "r" or F(x).denominator == 1) and not (t == "unsigned" and x < 0)]
                        vals.append(F(rng.choice(fit)))
                    use(c, [{"st": "poke", "dst": 1, "val": [list(ag.dy(x)) for x in vals], "toks": [], "op": ""}, {"st": "set", "dst": 2, "op": "", "toks": [["v", 1, cat], ["u", f]]}])
    builds = [("san", ("-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"), "c++14"), ("opt", ("-O2",), "c++17")]
    futs = {}
    for c in classes:
        for n, (b, fl, std) in enumerate(builds):
            if q and c.id % 2 != n and c.kind != "sym":
                continue
            src = os.path.join(ctx.build, "t02_%d.cpp" % c.id)
            if n == 0 or not os.path.exists(src):
                open(src, "w").write(ag.emit_driver([c], stmts, rng))
            futs[c.id, b] = ctx.pool.submit(ctx.compile, "t02_%d_%s" % (c.id, b), src, (), fl, std)
    tr = []
    for (cid, b), f in futs.items():
        exe = f.result()
        c = classes[cid]
        kinds = [ag.INT[t] for _, t in c.leaf]
        scen = []
        for h in hists[cid]:
            s = [("new %d" % cid, {"st": "new", "kinds": kinds})]
            for r in h:
                if r["st"] == "poke": s.append(("poke %d %s" % (r["dst"] - 1, " ".join("%d %d" % tuple(x) for x in r["val"])), r))
                else: s.append(("x %d" % index[cid][json.dumps(r)], r))
            scen.append(s)
        tr += ctx.replay(exe, scen)
    ctx.extra["classes"] = len(classes)
    ctx.extra["statements_compiled"] = sum(len(s) for s in stmts.values())
    ctx.validate("ArithTrace", tr, timeout=900)
    if not ctx.violations:
        t = next(t for t in tr if t[1]["st"] == "set" and "S" in t[0]["kinds"] and t[1]["toks"][-1][0] == "b")
        def bad(x): x[1]["res"][0] = x[1]["res"][1]
        ctx.binding_demo("ArithTrace", t, bad, name="result of one attribute")
        def bad(x): x[1]["vars"][0][0] = "x12"
        ctx.binding_demo("ArithTrace", t, bad, name="operand")
        t = next(t for t in tr if t[-1]["st"] == "agg")
        def bad(x): x[-1]["res"][0][0] += 1
        ctx.binding_demo("ArithTrace", t, bad, name="aggregated value")
