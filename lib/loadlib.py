"""Scenario parts shared by the loading checks."""
import meshgen as g

NPTS = {"vtk3": 20, "fpma": 20, "vtk2": 10}


def lattice_pts(kind, nx, ny):
    h = 8
    if kind == "vtk2":
        return [(h * x, h * y) for y in range(ny + 1) for x in range(nx + 1)] + [(h * x + 4, h * y + 4) for y in range(ny) for x in range(nx)]
    return [(h * x, h * y, h * z) for z in range(2) for y in range(ny + 1) for x in range(nx + 1)] + \
           [(h * x + 4, h * y + 4, 4) for y in range(ny) for x in range(nx)]


def file_of_model(kind, f, nx, ny, rng):
    """Concretize a file generated by MeshFiles: number the used vertices randomly, deform the points."""
    pts = lattice_pts(kind, nx, ny)
    lists = [c[1:] for c in f["cells"]] if kind != "fpma" else f["faces"]
    pts, lists = g.renumber(pts, lists, rng)
    dim = 2 if kind == "vtk2" else 3
    if pts:
        pts = g.affine(pts, rng, dim)
    if kind == "fpma":
        return {"xyz": [list(p) for p in pts], "faces": lists, "cells": f["cells"]}
    return {"xyz": [list(p) for p in pts], "cells": [[c[0]] + l for c, l in zip(f["cells"], lists)]}


def text_of(kind, f, rng, texts=None):
    if kind == "fpma":
        return g.fpma_text(g.Poly(f["xyz"], f["faces"], f["cells"]), rng, texts)
    return g.vtk_text(f["xyz"], [c[1:] for c in f["cells"]], [c[0] for c in f["cells"]], rng, texts=texts)


MANTISSA = {3: [53, 24, 53, 64, 53], 2: [53, 24, 64, 53]}


def precise_scenario(kind, f, cfg, rng):
    """Points with coordinates that fill the mantissa; the points of the file are then the nearest numbers of the type."""
    dim = 2 if kind == "vtk2" else 3
    texts = [[g.precise_text(rng) for _ in range(dim)] for _ in f["xyz"]]
    via = rng.choice("sssssfgh")
    h = dict(f, xyz=[[g.exact_text(t, MANTISSA[dim][cfg]) for t in p] for p in texts])
    return [("new %d" % cfg, {"op": "new", "dim": dim, "cfg": cfg}),
            ("loadp %s %s %s" % (via, "fpma" if kind == "fpma" else "vtk", text_of(kind, f, rng, texts)), {"op": "load", "kind": kind, "file": h, "via": via})]


def edge_pairs(kind, f):
    lists = f["faces"] if kind == "fpma" else [c[1:] for c in f["cells"]]
    if kind == "vtk3":
        return sorted({tuple(sorted(p)) for t, *l in f["cells"] for p in g.solid_edges(t, l)})
    return sorted({tuple(sorted((l[k], l[(k + 1) % len(l)]))) for l in lists for k in range(len(l))})


def huge(kind, f, rng, way):
    """The mesh with vertex numbers around 65536, chosen so that pairs of numbers packed into 32 bits or by
    16 bits run into each other: a * N + b modulo 2^32 with N = 65537, or a * 65536 | b."""
    n = len(f["xyz"])
    pairs = edge_pairs(kind, f)
    lab = {}
    if way == 0:
        N = 65537
        tri = next((a, b, c) for a, b in pairs for c in range(n) if (min(b, c), max(b, c)) in pairs and c != a)
        a, b, c = tri                  # edges ab, bc
        lab = {a: 0, b: 65535, c: 65536}
    else:
        N = rng.randint(65700, 66000)
        x = rng.randint(2, 100)
        quads = [(p, q) for p in pairs for q in pairs if not set(p) & set(q)]
        if not quads:
            return huge(kind, f, rng, 0)
        (a, b), (c, d) = rng.choice(quads)
        lab = {a: 0, b: 65536 + x, c: 1, d: x}
    pool = rng.sample([v for v in range(101, 65535)], n)
    for v in range(n):
        lab.setdefault(v, pool[v])
    xyz = [[0] * len(f["xyz"][0]) for _ in range(N)]
    for v, x in lab.items():
        xyz[x] = f["xyz"][v]
    if kind == "fpma":
        return {"xyz": xyz, "faces": [[lab[v] for v in l] for l in f["faces"]], "cells": f["cells"]}
    return {"xyz": xyz, "cells": [[c[0]] + [lab[v] for v in c[1:]] for c in f["cells"]]}


def touching(rng):
    """Solids with quadrilaterals that have two edges in common and are different faces."""
    n = 8
    cells = [[12] + list(range(8))]
    for _ in range(rng.randint(1, 3)):
        base = rng.choice(cells)
        h = [base[1:][q] for q in rng.choice(g.symmetries(12))]
        cells.append([12, h[0], h[1], h[2]] + list(range(n, n + 5)))       # the edges 01 and 12 of h
        n += 5
    cells = [[t] + [c[q] for q in rng.choice(g.symmetries(t))] for t, *c in cells]
    rng.shuffle(cells)
    pts, lists = g.renumber([(rng.randint(-40, 40), rng.randint(-40, 40), rng.randint(-40, 40)) for _ in range(n)], [c[1:] for c in cells], rng)
    return {"xyz": [list(p) for p in pts], "cells": [[12] + l for l in lists]}


def random_file(kind, rng, size):
    if kind == "vtk3":
        s = g.lattice3(rng, size) if rng.random() < .8 else g.lattice3(rng, size, {p: "tet" for p in _grid(size)})
        if rng.random() < .4:       # dangling points are allowed
            s.pts = s.pts + [(4, 4, 4)] * rng.randint(1, 3)
        return {"xyz": [list(p) for p in s.pts], "cells": [[t] + list(c) for t, c in s.cells]}
    if kind == "vtk2":
        p = g.lattice2(rng, size[:2], merges=rng.choice([0, 0, 2, 6]))
        return {"xyz": [list(q) for q in p.pts], "cells": [[t] + list(c) for t, c in zip([7 if rng.random() < .2 else t for t in p.types()], p.cells)]}
    p = random_poly(rng, size)
    return {"xyz": [list(q) for q in p.pts], "faces": p.faces, "cells": p.cells}


def random_poly(rng, size, merges=None, facemerge=None, deform=True):
    s = g.lattice3(rng, size, deform=False) if rng.random() < .85 else g.lattice3(rng, size, {p: "tet" for p in _grid(size)}, deform=False)
    p = g.solid_to_poly(s)
    p = g.merge_cells(p, rng, rng.choice([0, 2, 5]) if merges is None else merges)
    if facemerge if facemerge is not None else rng.random() < .6:
        p = g.merge_faces(p)
    p = g.scramble(p, rng)
    if deform:
        p.pts = g.affine(p.pts, rng, 3)
    return p


def _grid(size):
    return [(x, y, z) for x in range(size[0]) for y in range(size[1]) for z in range(size[2])]


def load_scenario(kind, f, cfg, rng, via=None):
    dim = 2 if kind == "vtk2" else 3
    via = via or rng.choice("sssssfgh")
    k = "fpma" if kind == "fpma" else "vtk"
    return [("new %d" % cfg, {"op": "new", "dim": dim, "cfg": cfg}),
            ("load %s %s %s" % (via, k, text_of(kind, f, rng)), {"op": "load", "kind": kind, "file": f, "via": via})]


def cfgs(kind, f):
    """Configurations (see mload.cpp) in which the file fits the reserved capacity."""
    if kind == "vtk2":
        return [0, 1, 2, 3]
    if kind == "vtk3":
        return [0, 1, 2, 3, 4]
    m = max([len(x) for x in f["faces"]] + [0])
    return [c for c, cap in ((0, 9999), (1, 12), (2, 8), (3, 9999), (4, 4)) if m <= cap]


DIGITS = [int(a) for n in (1, 2, 3) for a in __import__("itertools").product("12", repeat=n) for a in ["".join(a)]]


def sparse(kind, f, rng, top):
    """The same mesh with far apart vertex numbers (and dangling points between them), chosen so that
    the decimal texts of the numbers of different edges or faces run into each other."""
    lists = f["faces"] if kind == "fpma" else [c[1:] for c in f["cells"]]
    n = len(f["xyz"])
    pairs = sorted({tuple(sorted((l[k], l[(k + 1) % len(l)]))) for l in lists for k in range(len(l))}) if kind != "vtk3" else \
        sorted({tuple(sorted(p)) for t, *l in f["cells"] for p in g.solid_edges(t, l)})
    best = None
    for _ in range(60):
        pool = DIGITS + rng.sample(range(256, top), n) if n > 4 else DIGITS
        lab = rng.sample(pool[:max(n, len(DIGITS))], n)
        a, b = rng.choice(pairs), rng.choice(pairs)
        if len({*a, *b}) == 4:        # two edges given colliding numbers
            for v, x in zip(a + b, rng.choice([(1, 112, 11, 12), (1, 121, 11, 21), (1, 122, 11, 22), (1, 221, 12, 21), (1, 222, 12, 22), (2, 122, 21, 22)])):
                if x in lab:
                    lab[lab.index(x)] = lab[v]
                lab[v] = x
        keys = ["".join(map(str, sorted(lab[v] for v in e))) for e in pairs]
        score = len(keys) - len(set(keys))
        if best is None or score > best[0]:
            best = (score, lab)
    lab = best[1]
    xyz = [[0] * len(f["xyz"][0]) for _ in range(max(lab) + 1)]
    for v, x in enumerate(lab):
        xyz[x] = f["xyz"][v]
    if kind == "fpma":
        return {"xyz": xyz, "faces": [[lab[v] for v in l] for l in f["faces"]], "cells": f["cells"]}
    return {"xyz": xyz, "cells": [[c[0]] + [lab[v] for v in c[1:]] for c in f["cells"]]}


def crowded(kind, rng):
    """Files of meshes with more than 256 elements around one: a prism over a large polygon, a large polygon, a fan."""
    import geolib
    n = rng.randint(257, 262)
    f = g.fan2(n)
    ring = [tuple(p) for p in f.pts[1:]]
    if kind == "fpma":
        p = g.scramble(geolib.prism(ring, 1, 8), rng)
        return [{"xyz": [list(q) for q in p.pts], "faces": p.faces, "cells": p.cells}]
    if kind == "vtk2":
        k = rng.randrange(n)
        f = g.fan2(n, rng)
        return [{"xyz": [list(q) for q in ring], "cells": [[7] + [(k + j) % n for j in range(n)]]},
                {"xyz": [list(q) for q in f.pts], "cells": [[5] + list(c) for c in f.cells]}]
    k = n + 1
    return [{"xyz": [list(q) + [z] for z in (0, 8) for q in f.pts], "cells": rng.sample([[13] + c + [x + k for x in c] for c in f.cells], n)}]


def run_load(ctx, kind, dim, rnd, cap):
    """Model check the loader of `kind`, replay every generated file and random larger ones."""
    fut = ctx.pool.submit(ctx.compile, "mload%d" % dim, "mload.cpp", ("DIM=%d" % dim,))
    cfgname = "MeshFiles_%s%s.cfg" % (kind, "" if ctx.quick else "_deep")
    gen = ctx.generate("MeshFiles", cfgname, workers=4, timeout=800)
    files = [x["file"] for x in gen if x["file"]["cells"]]
    ctx.extra["files_enumerated"] = len(files)
    if len(files) > cap:
        files = ctx.rng.sample(files, cap)
    files = [file_of_model(kind, f, 2, 1, ctx.rng) for f in files]
    n = len(files)
    for k in range(rnd):
        size = ctx.rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 2, 1), (2, 2, 2)] if dim == 3 else [(1, 1), (2, 2), (3, 2), (4, 3), (5, 5)])
        files.append(random_file(kind, ctx.rng, size))
    ctx.extra["files_random"] = len(files) - n
    small = [f for f in files if 2 < len(f["xyz"]) <= 12]
    for f in ctx.rng.sample(small, min(len(small), 16 if ctx.quick else 150)):
        files.append(sparse(kind, f, ctx.rng, 400))
    for k in range(3 if ctx.quick else 20):
        size = (4, 3, 3) if dim == 3 else (12, 9)
        files.append(random_file(kind, ctx.rng, size))
        files.append(sparse(kind, random_file(kind, ctx.rng, (2, 2, 1)), ctx.rng, 1300))
    if kind == "vtk3":
        files += [touching(ctx.rng) for k in range(8 if ctx.quick else 60)]
    exe = fut.result()
    scen = [load_scenario(kind, f, ctx.rng.choice(cfgs(kind, f)), ctx.rng) for f in files]
    for f in crowded(kind, ctx.rng):
        scen += [load_scenario(kind, f, c, ctx.rng) for c in cfgs(kind, f) if c in (1, 2) or not ctx.quick]
        if not cfgs(kind, f)[1:]:
            scen.append(load_scenario(kind, f, cfgs(kind, f)[0], ctx.rng))
    for f in ctx.rng.sample(small, min(len(small), 30 if ctx.quick else 400)):
        scen.append(precise_scenario(kind, f, ctx.rng.choice(cfgs(kind, f)), ctx.rng))
    for k in range(2 if ctx.quick else 8):
        f = huge(kind, ctx.rng.choice([f for f in small if len(f["xyz"]) > 4]), ctx.rng, k % 2)
        scen.append(load_scenario(kind, f, ctx.rng.choice([c for c in cfgs(kind, f) if c in (1, 3)]), ctx.rng, via="s"))
    ctx.extra["files_with_exact_coordinates"] = min(len(small), 30 if ctx.quick else 400)
    # a file with an unsupported type is refused (the reader is then used again)
    if kind != "fpma":
        for f in files[n:n + 30]:
            bad = {"xyz": f["xyz"], "cells": [list(c) for c in f["cells"]]}
            bad["cells"][ctx.rng.randrange(len(bad["cells"]))][0] = ctx.rng.choice([1, 4, 15, 21, 42] if dim == 3 else [1, 4, 10, 12, 22])
            cfg = ctx.rng.choice(cfgs(kind, f))
            scen.append([("new %d" % cfg, {"op": "new", "dim": dim, "cfg": cfg}),
                         ("load s vtk " + text_of(kind, bad, ctx.rng), {"op": "bad"}),
                         load_scenario(kind, f, cfg, ctx.rng)[1]])
    ctx.rng.shuffle(scen)
    return exe, scen
