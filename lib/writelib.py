"""Writing of meshes: scenarios for mwrite.cpp and the reading of the written text (strict, by the format)."""
import json
import funlib, geom, loadlib, meshgen as g

GENERAL = (304, 305)


def cell_faces(raw, c):
    w, f = [], raw.cb[c]
    while True:
        w.append(f)
        f = raw.nl[f] if raw.l[f] == c else raw.nr[f]
        if f == raw.cb[c]:
            return w


def native_types(raw):
    out = []
    for c in range(len(raw.cb)):
        w = cell_faces(raw, c)
        if raw.dim == 2:
            out.append({3: 200, 4: 201}.get(len(w), 202))
            continue
        n = sorted(len(raw.s[0][f]) for f in w)
        nv = len({x for f in w for e in raw.s[0][f] for x in raw.e[e]})
        out.append({(3, 3, 3, 3): 300, (4,) * 6: 301, (3, 3, 4, 4, 4): 302, (3, 3, 3, 3, 4): 303}.get(tuple(n), 305) if (len(w), nv) in ((4, 4), (6, 8), (5, 6), (5, 5)) else 305)
    return out


def some_general(types, rng, prob):
    if types and types[0] < 300:
        return [202 if rng.random() < prob else t for t in types]
    return [rng.choice((305, 305, 304)) if rng.random() < prob else t for t in types]


def raw_of_file(kind, f, rng):
    """Raw mesh of a file generated by the model."""
    if kind == "vtk2":
        return g.planar_to_raw(g.Planar(f["xyz"], [c[1:] for c in f["cells"]]), rng)
    if kind == "fpma":
        return g.poly_to_raw(g.Poly(f["xyz"], f["faces"], f["cells"]), rng)
    return g.poly_to_raw(g.solid_to_poly(g.Solid(f["xyz"], [(c[0], c[1:]) for c in f["cells"]])), rng)


def fit(raw, cfg):
    return not (raw.dim == 3 and cfg == 1 and max([len(x) for x in raw.s[0]] + [0]) > 12)


def mesh_cmd(k, raw, e=0):
    return ("mesh %d %d %s" % (k, e, raw.text()), {"op": "mesh", "k": k, "raw": json.loads(json.dumps(raw.record())), "scale": e})


def tl(types):
    return "%d %s" % (len(types), " ".join(map(str, types)))


def write_cmd(k, via, fmt, head, types, orient=True, e=0):
    return ("w %d %s %s %s %s" % (k, via, fmt, head or "-", tl(types)),
            {"op": "w", "k": k, "via": via, "fmt": fmt, "types": types, "orient": orient, "scale": e})


def rt_cmd(k, fmt, types):
    return ("rt %d %s %s" % (k, fmt, tl(types)), {"op": "rt", "k": k, "fmt": fmt, "types": types})


def edit_cmd(raw, k, rng, kinds=None):
    """A random edit of a mesh (given by its raw state, which is updated)."""
    ks = kinds or (["cb", "swap", "rev", "vert", "cen", "fcen", "bnd", "cent", "recen", "vert"] + (["rot", "rot"] if raw.dim == 3 else []))
    w = rng.choice(ks)
    if w == "cent" and raw.dim == 3 and not geom.raw_star(raw):
        w = "recen"
    if w == "cb":
        c = rng.randrange(len(raw.cb))
        raw.cb[c] = rng.choice(cell_faces(raw, c))
        a = "%d %d" % (c, raw.cb[c])
    elif w in ("swap", "rot"):
        f = rng.randrange(len(raw.l))
        if w == "swap":
            raw.swap(f)
        else:
            raw.s[0][f] = raw.s[0][f][1:] + raw.s[0][f][:1]
        a = str(f)
    elif w == "rev":
        a = str(rng.randrange(len(raw.e)))
    elif w == "vert":
        x, y = rng.randrange(len(raw.v)), rng.randrange(raw.dim)
        raw.v[x] = [c + (k == y) for k, c in enumerate(raw.v[x])]
        a = "%d %d" % (x, y)
    elif w == "cen":
        a = "%d %d" % (rng.randrange(len(raw.cb)), rng.randrange(raw.dim))
    elif w == "fcen":
        a = "%d %d" % (rng.randrange(len(raw.l)), rng.randrange(raw.dim))
    else:
        a = ""
    return ("edit %d %s %s" % (k, w, a), {"op": "edit", "k": k, "edit": w})


def copy_raw(raw):
    r = g.Raw(raw.dim, [list(x) for x in raw.v], [list(x) for x in raw.e], [[list(x) for x in lst] for lst in raw.s], [])
    for q in ("l", "r", "nl", "nr", "cb"):
        setattr(r, q, list(getattr(raw, q)))
    return r


# ------------------------------------------------------------------ the written text
class Bad(Exception):
    pass


class Toks:
    def __init__(self, text):
        self.t, self.k = text.split(), 0

    def word(self, w=None):
        if self.k >= len(self.t):
            raise Bad("end of file")
        x = self.t[self.k]
        self.k += 1
        if w is not None and x != w:
            raise Bad("%s instead of %s" % (x, w))
        return x

    def nat(self):
        x = self.word()
        if not x.isdigit():
            raise Bad("not a count: " + x)
        return int(x)

    def num(self):
        x = self.word()
        try:
            v = float(x)
        except ValueError:
            raise Bad("not a number: " + x)
        if v != v or abs(v) > 1e30:
            raise Bad("not a finite number: " + x)
        return v


def fix(x, scale):
    y = round(x * scale)
    return max(-2000000000, min(2000000000, y))


def parse(rec, dim, nv):
    """text of a file -> the record judged by MeshWrite"""
    text, sc = rec["text"], 2.0 ** -rec.get("scale", 0)
    try:
        if rec["fmt"] == "fpma":
            t = Toks(text)
            v = [[t.num() for _ in range(3)] for _ in range(t.nat())]
            faces = [[t.nat() for _ in range(t.nat())] for _ in range(t.nat())]
            cells = [[t.nat() for _ in range(t.nat())] for _ in range(t.nat())]
            if t.t[t.k:] not in ([], ["0"]):
                raise Bad("garbage at the end")
            for f in faces:
                if any(x >= len(v) for x in f):
                    raise Bad("vertex out of range")
            for c in cells:
                if any(x >= len(faces) for x in c):
                    raise Bad("face out of range")
            return {"parsed": True, "header": "", "v": [[fix(x * sc, 4) for x in p] for p in v], "faces": faces, "cells": cells}
        ls = text.split("\n", 4)
        if len(ls) < 5 or not ls[0].startswith("# vtk DataFile Version") or ls[2].strip() != "ASCII" or ls[3].split() != ["DATASET", "UNSTRUCTURED_GRID"]:
            raise Bad("header lines")
        t = Toks(ls[4])
        t.word("POINTS")
        n = t.nat()
        if t.word() not in ("double", "float"):
            raise Bad("type of the points")
        pts = [[t.num() for _ in range(3)] for _ in range(n)]
        t.word("CELLS")
        nc, total = t.nat(), t.nat()
        cells = [[t.nat() for _ in range(t.nat())] for _ in range(nc)]
        if total != sum(len(c) + 1 for c in cells):
            raise Bad("size of the list of cells")
        t.word("CELL_TYPES")
        if t.nat() != nc:
            raise Bad("number of types")
        ct = [t.nat() for _ in range(nc)]
        if t.k != len(t.t):
            raise Bad("garbage at the end")
        for c in cells:
            if any(x >= n for x in c):
                raise Bad("vertex out of range")
        if dim == 2 and any(p[2] != 0 for p in pts):
            raise Bad("point outside the plane")
        return {"parsed": True, "header": ls[1], "v": [[fix(x * sc, 4) for x in p[:dim]] for p in pts[:nv]], "far": [[fix(x * sc, 1024) for x in p[:dim]] for p in pts[nv:]],
                "cells": [[y] + c for y, c in zip(ct, cells)], "map": rec["map"]}
    except Bad as e:
        return {"parsed": False, "reason": str(e)}


def project(traces):
    """Replace the written text of each record by its content."""
    for t in traces:
        nv, dim, last, star = {}, {}, {}, {}
        for r in t:
            if r["op"] in ("mesh", "edit") and "m" in r:
                nv[r["k"]] = len(r["m"]["v"])
                last[r["k"]] = r["m"]
                dim[r["k"]] = r["m"]["dim"]
            if r["op"] == "w" and "text" in r:
                if r["orient"] and dim[r["k"]] == 3 and r["fmt"] == "vtk":
                    # the orientation is decided by means of the centres of the cells
                    m = last[r["k"]]
                    if id(m) not in star:
                        star[id(m)] = geom.star_shaped(m, [[x / 1024.0 for x in p] for p in m["cc"]], [[x / 1024.0 for x in p] for p in m["fc"]])
                    r["orient"] = star[id(m)]
                r["out"] = parse(r, dim[r["k"]], nv[r["k"]])
                if r["out"]["parsed"]:
                    del r["text"]
                del r["map"]
    return traces


def exes(ctx, dims=(2, 3)):
    return {d: ctx.pool.submit(ctx.compile, "mwrite%d" % d, "mwrite.cpp", ("DIM=%d" % d,)) for d in dims}


def model_meshes(ctx, kind, cap):
    """Meshes (with types) enumerated by MeshWriteMC."""
    gen = ctx.generate("MeshWriteMC", "MeshWriteMC_%s%s.cfg" % (kind, "" if ctx.quick else "_deep"), workers=4, timeout=800, heap="6g")
    gen = [x for x in gen if x["file"]["cells"]]
    ctx.extra["meshes_enumerated_" + kind] = len(gen)
    if len(gen) > cap:
        gen = ctx.rng.sample(gen, cap)
    res = []
    for x in gen:
        f = loadlib.file_of_model(kind, x["file"], 2, 1, ctx.rng)
        raw = raw_of_file(kind, f, ctx.rng)
        res.append((raw, x["types"]))
    return res


def random_mesh(rng, dim, prob, big=False, poly=True):
    if dim == 2:
        raw = g.planar_to_raw(g.lattice2(rng, rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)] + ([(5, 4), (6, 6)] if big else [])), merges=rng.choice([0, 2, 5])), rng)
    else:
        size = rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (2, 1, 2)] + ([(2, 2, 2), (3, 2, 2)] if big else []))
        raw = g.poly_to_raw(loadlib.random_poly(rng, size, merges=None if poly else 0, facemerge=None if poly else False), rng)
    return raw, some_general(native_types(raw), rng, prob)
