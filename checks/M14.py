"""M14: cell data written next to a VTK mesh and read back (patterns of tessellated cells from the model)."""
import json
import meshgen as g, writelib as w

STRUCT = {
    "A": lambda n: [("p", 1, "d"), ("vel", n, "d"), ("sigma", n * n, "d"), ("hidden", 1, "d")],
    "B": lambda n: [("k", 1, "i"), ("f", 1, "d"), ("w", n, "d"), ("iv", n, "i"), ("flag", 1, "b"), ("rest", 1, "d")],
    "C": lambda n: [("q", 1, "d"), ("u", n, "d"), ("own", 1, "d")],
    "D": lambda n: [("a", 1, "d"), ("t", n * n, "d"), ("c", n, "d")],
    "S": lambda n: [("only", 1, "d")],
    "x": lambda n: [("x", 1, "d")], "xi": lambda n: [("x", 1, "i")], "xv": lambda n: [("x", 1, "i")], "xf": lambda n: [("x", 1, "d")],
}
A = [("p", "p"), ("vel", "vel"), ("sigma", "sigma")]
TA = [("SCALARS_t", "sigma"), ("vel", "hidden"), ("p", "p")]
B = [("vel_y", "iv"), ("pp", "f"), ("flag", "flag"), ("count", "k"), ("velo", "w")]
C = [("u", "u"), ("q", "q")]
D = [("t", "t"), ("a", "a")]
S = [("o", "only")]
TS = [("single", "only")]
# configuration -> parts of the container, attributes in order: (name, part, member)
CFG = {0: (["A"], [A]), 1: (["A"], [A]), 2: (["B"], [B]), 3: (["C"], [C]), 4: (["A", "B"], [A, B]), 5: (["x", "D", "xv"], [[], D, []]),
       6: (["A"], [TA]), 7: (["A", "D"], [TA, D]), 8: (["S", "A"], [TS, TA]), 9: (["S"], [S]), 10: (["S", "C", "D"], [S, C, D]), 11: (["C", "xf"], [C, []])}
EXTRA = ["v", "pp", "ve", "velocity", "x_u", "qq", "tt", "count2", "P", "single_", "tensor2", "a1", "SCALARS", "VECTORS_2"]


def title(rng, cfg):
    """a title of the file, often with words of the data section and names of attributes"""
    words = [a[0] for a in attrs(cfg, 2)] + ["SCALARS", "VECTORS", "TENSORS", "double", "CELL_DATA", "of", "my mesh"]
    return rng.choice(["some data", " ".join(rng.choice(words) for _ in range(rng.randint(1, 5))), "%s %s %s" % (rng.choice(["SCALARS", "on VECTORS"]), rng.choice(words), rng.choice(words)),
                       rng.choice(words) + " SCALARS " + rng.choice(words)])


def value(rng, kind):
    if kind == "b":
        return rng.choice((0, 4))
    x = rng.choice([rng.randint(-40, 40), rng.randint(-3999, 3999), 0])
    return x * 4 if kind == "i" else x


def sizes(cfg, nc, nv, nf):
    return [nv if p == "xv" else nf if p == "xf" else nc for p in CFG[cfg][0]]


def random_values(cfg, dim, sz, rng):
    """per part, per entry: the members' components"""
    return [[[value(rng, k) for _, n, k in STRUCT[p](dim) for _ in range(n)] for _ in range(s)] for p, s in zip(CFG[cfg][0], sz)]


def flat(vals):
    v = [x for part in vals for e in part for x in e]
    return "%d %s" % (len(v), " ".join(map(str, v)))


def unflat(cfg, dim, sz, v):
    out, k = [], 0
    for p, s in zip(CFG[cfg][0], sz):
        n = sum(m[1] for m in STRUCT[p](dim))
        out.append([v[k + q * n:k + q * n + n] for q in range(s)])
        k += n * s
    if k != len(v):
        raise ValueError("size of the data")
    return out


def attrs(cfg, dim):
    """(name, components, kind, part, offset)"""
    res = []
    for part, (p, al) in enumerate(zip(*CFG[cfg])):
        for name, mem in al:
            off = 0
            for m, n, k in STRUCT[p](dim):
                if m == mem:
                    res.append((name, n, k, part, off))
                off += n
    return res


def by_attr(cfg, dim, vals):
    return [[e[o:o + n] for e in vals[p]] for _, n, _, p, o in attrs(cfg, dim)]


def others(cfg, dim, vals):
    """values of the members which are no attributes"""
    used = {}
    for _, n, _, p, o in attrs(cfg, dim):
        used.setdefault(p, set()).update(range(o, o + n))
    return [[[x for k, x in enumerate(e) if k not in used.get(p, ())] for e in part] for p, part in enumerate(vals)]


def parse(text, dim, base):
    try:
        t = w.Toks(text)
        t.word("CELL_DATA")
        count, cols = t.nat(), []
        while t.k < len(t.t):
            kw = t.word()
            name, ty = t.word(), t.word()
            if kw == "SCALARS":
                t.word("1"), t.word("LOOKUP_TABLE"), t.word("default")
                n = 1
            elif kw in ("VECTORS", "TENSORS"):
                n = 3 if kw == "VECTORS" else 9
            else:
                raise w.Bad("keyword " + kw)
            vals = []
            for _ in range(count):
                vals.append([])
                for _ in range(n):
                    x = t.num() * 4
                    if abs(x) > 1e8 or x != round(x):
                        raise w.Bad("value %r" % (x / 4))
                    vals[-1].append(round(x))
            cols.append({"kw": kw, "name": name, "type": ty, "vals": vals})
        return {"parsed": True, "count": count, "cols": cols}
    except w.Bad as e:
        return {"parsed": False, "reason": str(e)}


def token(x, kind, rng):
    if kind in "ib":
        return str(x // 4)
    v = x / 4
    return rng.choice(["%g", "%g", "%.2f", "%.6e", "%.4E"]) % v


def column_text(dim, name, n, kind, vals, rng):
    kw = "SCALARS" if n == 1 else "VECTORS" if n == dim else "TENSORS"
    ty = rng.choice(["double", "double", "float"])
    head = "%s %s %s" % (kw, name, ty) + (" 1\nLOOKUP_TABLE default" if n == 1 else "")
    rows = [" ".join(token(x, kind, rng) for x in v) for v in vals]
    sep = rng.choice([" ", "\n", " \n"])
    return head + "\n" + sep.join(rows) + rng.choice(["\n", " \n", "\n\n"])


def pad(dim, x):
    if dim == 3 or len(x) == 1:
        return list(x)
    return [x[0], x[1], 0] if len(x) == 2 else [x[0], x[1], 0, x[2], x[3], 0, 0, 0, 0]


def read_cmd(dim, cfg, rng):
    n = rng.choice([1, 1, 2, 3, 5, 12])
    nv, nf = rng.randint(0, 3), rng.randint(0, 3)
    sz = sizes(cfg, n, nv, nf)
    before = random_values(cfg, dim, sz, rng)
    new = random_values(cfg, dim, sz, rng)
    at = attrs(cfg, dim)
    cols = [(a[0], a[1], a[2], v) for a, v in zip(at, by_attr(cfg, dim, new))]
    names = {a[0] for a in at}
    for e in rng.sample(EXTRA, rng.choice([0, 1, 3])):
        if e not in names:
            cols.append((e, rng.choice([1, dim, dim * dim]), "d", None))
    cols = [(nm, k, kd, v if v is not None else [[value(rng, "d") for _ in range(k)] for _ in range(n)]) for nm, k, kd, v in cols]
    rng.shuffle(cols)
    text = "CELL_DATA %d\n" % n + "".join(column_text(dim, nm, k, kd, [pad(dim, x) for x in v], rng) for nm, k, kd, v in cols)
    if rng.random() < .5:
        text = "# vtk DataFile Version 2.0\n" + title(rng, cfg) + "\nASCII\nDATASET UNSTRUCTURED_GRID\nPOINTS 1 double\n0 0 0\nCELLS 0 0\nCELL_TYPES 0\n" + text
    base = {"op": "read", "dim": dim, "n": n, "cfg": cfg, "attrs": [[a[0], a[1]] for a in at], "sz": sz, "rest0": others(cfg, dim, before),
            "cols": [{"name": nm, "vals": [pad(dim, x) for x in v]} for nm, k, kd, v in cols]}
    return ("read %d %s %d %d %d %s %s" % (cfg, rng.choice(["s", "s", "f", "st", "ft"]), n, nv, nf, flat(before), text.replace("\n", "|")), base)


def finish(traces, dim):
    for t in traces:
        for r in t:
            if r.get("err"):
                continue
            if r["op"] == "write":
                r["out"] = parse(r.pop("text"), dim, r)
            elif r["op"] in ("read", "rt"):
                try:
                    sz = r["sz"] if r["op"] == "read" else sizes(r["cfg"], r["n"], r["nv"], r["nf"])
                    v = unflat(r["cfg"], dim, sz, r["got"])
                    r["got"], r["rest"] = by_attr(r["cfg"], dim, v), others(r["cfg"], dim, v) if r["op"] == "read" else 0
                except ValueError:
                    r["got"], r["rest"] = [], []
                r.pop("sz", 0)
    return traces


def run(ctx):
    rng, q = ctx.rng, ctx.quick
    ex = {d: ctx.pool.submit(ctx.compile, "m14_%d" % d, "m14.cpp", ("DIM=%d" % d,)) for d in (2, 3)}
    pats = ctx.generate("MeshDataMC", "MeshDataMC%s.cfg" % ("" if q else "_deep"), workers=4)
    ctx.model_rejects("MeshDataMC", "SPECIFICATION Spec\nCONSTANTS MaxCells = 3 MaxPieces = 2 Check = FALSE\nINVARIANT Prefix\nINVARIANT Complete\n")
    shapes = sorted({tuple(min(1, x) for x in p) for p in pats})      # which cells are tessellated
    ctx.extra["patterns_replayed"] = len(shapes)
    for dim in (2, 3):
        meshes = []
        if dim == 3:
            for s in shapes:
                for _ in range(2):
                    sol = g.lattice3(rng, (len(s), 1, 1), {(x, 0, 0): "hex" for x in range(len(s))})
                    raw = g.poly_to_raw(g.solid_to_poly(sol), rng)
                    meshes.append((raw, [rng.choice((304, 305)) if x else 301 for x in s]))
        for _ in range((60 if dim == 3 else 120) if q else 1500):
            meshes.append(w.random_mesh(rng, dim, rng.choice([0, .2, .5, .8, 1]), not q and rng.random() < .1))
        scen = []
        for raw, types in meshes:
            sc = [("new %d" % rng.choice((0, 0, 1)), {"op": "new"}),
                  ("mesh " + raw.text() + " " + w.tl(types), {"op": "mesh", "types": types})]
            for _ in range(rng.choice([2, 3, 4])):
                cfg = rng.randrange(12)
                at = attrs(cfg, dim)
                op = rng.choice(["write", "write", "rt", "read"])
                if op == "read":
                    sc.append(read_cmd(dim, cfg, rng))
                    continue
                vals = random_values(cfg, dim, sizes(cfg, len(raw.cb), len(raw.v), len(raw.l)), rng)
                via = "" if op == "write" else rng.choice("sf") + " " + title(rng, cfg).replace(" ", "_") + " "
                sc.append(("%s %d %s%s" % (op, cfg, via, flat(vals)),
                           {"op": op, "cfg": cfg, "attrs": [[a[0], a[1]] for a in at], "vals": by_attr(cfg, dim, vals)}))
            scen.append(sc)
        tr = finish(ctx.replay(ex[dim].result(), scen, args=[ctx.build]), dim)
        ctx.validate("MeshDataTrace", tr, sample=1)
        if not ctx.violations:
            for op, bad in (("write", lambda r: r["out"]["cols"][-1]["vals"][-1].__setitem__(0, 77777)), ("read", lambda r: r["got"][0][-1].__setitem__(0, 77777)),
                            ("rt", lambda r: r["got"][0].reverse())):
                t, k = next((t, k) for t in tr for k, r in enumerate(t) if r["op"] == op and (op != "rt" or r["got"][0][0] != r["got"][0][-1]))
                ctx.binding_demo("MeshDataTrace", t[:k + 1], lambda x: bad(x[k]), name=op)
    ctx.assumptions += ["every attribute has one, dim or dim*dim components and at least one cell exists", "attribute values are multiples of 1/4 with at most six digits",
                        "names of attributes have no blanks"]
