"""Meshes with flat faces and exact coordinates, with the witness of their geometry (see spec/MeshGeo.tla)."""
import itertools
import funlib, geom, loadlib, meshgen as g


def cross2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def area_vec(pts):
    s = [0, 0, 0]
    for k in range(len(pts)):
        c = cross3(sub(pts[k], pts[0]), sub(pts[(k + 1) % len(pts)], pts[0]))
        s = [x + y for x, y in zip(s, c)]
    return s


def as_m(raw):
    return {"v": raw.v, "e": raw.e, "s": raw.s, "l": raw.l, "r": raw.r, "nl": raw.nl, "nr": raw.nr, "cb": raw.cb}


def cell_cycle2(raw, c):
    m = as_m(raw)
    es = [raw.e[f] for f in geom.walk(m, c)]
    cyc, used = list(es[0]), {0}
    while len(cyc) < len(es):
        k = next(k for k in range(len(es)) if k not in used and cyc[-1] in es[k])
        used.add(k)
        cyc.append(es[k][0] if es[k][1] == cyc[-1] else es[k][1])
    a = sum(cross2(raw.v[cyc[k]], raw.v[cyc[(k + 1) % len(cyc)]]) for k in range(len(cyc)))
    return cyc if a > 0 else cyc[::-1]


def star2(pts):
    n = len(pts)
    s = [sum(p[k] for p in pts) for k in range(2)]
    return all(cross2([n * x - y for x, y in zip(pts[k], s)], [n * x - y for x, y in zip(pts[(k + 1) % n], s)]) > 0 for k in range(n))


def witness(raw):
    """The witness, or None if the geometry does not meet the preconditions or the bounds of exact arithmetic."""
    m = as_m(raw)
    if raw.dim == 2:
        cyc = [cell_cycle2(raw, c) for c in range(len(raw.cb))]
        if not all(star2([raw.v[x] for x in c]) for c in cyc):
            return None
        if any(abs(x) > 500 for p in raw.v for x in p):
            return None
        return {"cyc": cyc, "sg": []}
    if raw.dim == 3:
        cyc = [geom.cycle(m, f) for f in range(len(raw.l))]
        sg = []
        for c in range(len(raw.cb)):
            w = geom.walk(m, c)
            s = {w[0]: 1}
            todo = [w[0]]
            pairs = lambda f, q: {(a, b) if q > 0 else (b, a) for a, b in zip(cyc[f], cyc[f][1:] + cyc[f][:1])}
            while todo:
                f = todo.pop()
                d = pairs(f, s[f])
                for h in w:
                    if h in s:
                        continue
                    e = pairs(h, 1)
                    if d & {(b, a) for a, b in e}:
                        s[h] = 1
                    elif d & e:
                        s[h] = -1
                    else:
                        continue
                    todo.append(h)
            if len(s) != len(w):
                return None
            p0 = raw.v[cyc[w[0]][0]]
            vol = 0
            for f in w:
                pts = [raw.v[x] for x in cyc[f]]
                vol += s[f] * sum(x * y for x, y in zip(area_vec(pts), sub(pts[0], p0)))
            if vol == 0 or abs(vol) > 1 << 28:
                return None
            q = 1 if vol > 0 else -1
            sg.append([[f, q * s[f]] for f in w])
        for f in cyc:
            a = area_vec([raw.v[x] for x in f])
            if not any(a) or sum(x * x for x in a) > 120000000:
                return None
            # collinear first edge and centre are excluded by the star-shape; flatness
            if any(sum(x * y for x, y in zip(a, sub(raw.v[v], raw.v[f[0]]))) for v in f):
                return None
        if any(abs(x) > 250 for p in raw.v for x in p):
            return None
        for centres in (geom.mean_centres(m), tess_centres(m, cyc)):
            if not geom.star_shaped(m, *centres):
                return None
        return {"cyc": cyc, "sg": sg}
    return {"cyc": [], "sg": []}


def tess_centres(m, cyc):
    V = [[x / 4.0 for x in p] for p in m["v"]]
    F = []
    for c in cyc:
        pts = [V[x] for x in c]
        n = area_vec(pts)
        nn = sum(x * x for x in n)
        acc = [0.0, 0.0, 0.0]
        for k in range(len(pts)):
            q = pts[(k + 1) % len(pts)]
            t = sum(x * y for x, y in zip(cross3(sub(pts[k], pts[0]), sub(q, pts[0])), n)) / nn
            acc = [a + t * (x + y + z) / 3 for a, x, y, z in zip(acc, pts[0], pts[k], q)]
        F.append(acc)
    mean = lambda ps: [sum(p[k] for p in ps) / len(ps) for k in range(3)]
    return [mean([F[f] for f in geom.walk(m, c)]) for c in range(len(m["cb"]))], F


def left_correct(raw):
    """2D: swap the sides of the edges so that the left cell is at the left of A -> B."""
    d = [{(a, b) for a, b in zip(c, c[1:] + c[:1])} for c in (cell_cycle2(raw, c) for c in range(len(raw.cb)))]
    for f in range(len(raw.l)):
        a, b = raw.e[f]
        if (raw.l[f] >= 0 and (a, b) not in d[raw.l[f]]) or (raw.r[f] >= 0 and (a, b) in d[raw.r[f]]):
            raw.swap(f)
    return raw


def small_affine(pts, rng, dim, r=1, maxdet=4):
    while True:
        A = [[rng.randint(-r, r) for _ in range(dim)] for _ in range(dim)]
        d = det(A)
        if 0 < abs(d) <= maxdet:
            break
    b = [rng.randint(-20, 20) for _ in range(dim)]
    return [tuple(sum(A[i][k] * p[k] for k in range(dim)) + b[i] for i in range(dim)) for p in pts]


def det(A):
    if not A:
        return 1
    return sum((-1) ** j * A[0][j] * det([r[:j] + r[j + 1:] for r in A[1:]]) for j in range(len(A)))


def kuhn4(rng, n):
    """n 4-simplices of the subdivision of a 4-cube."""
    chains = []
    for p in itertools.permutations(range(4)):
        q = [0, 0, 0, 0]
        ch = [tuple(q)]
        for a in p:
            q[a] = 1
            ch.append(tuple(q))
        chains.append(ch)
    cells = [frozenset(c) for c in rng.sample(chains, n)]
    return simplicial(cells, 4, rng, 4)


def simplicial(cells, dim, rng, h):
    levels = [None] * (dim + 1)
    levels[dim] = list(cells)
    for d in range(dim - 1, -1, -1):
        levels[d] = sorted({x - {v} for x in levels[d + 1] for v in x}, key=sorted)
    for l in levels:
        rng.shuffle(l)
    ids = [{x: k for k, x in enumerate(l)} for l in levels]

    def subs(d, x):
        r = [ids[d - 1][x - {v}] for v in x]
        rng.shuffle(r)
        return r
    v = [tuple(h * a for a in sorted(x)[0]) for x in levels[0]]
    raw = g.Raw(dim, v, [subs(1, x) for x in levels[1]], [[subs(d, x) for x in levels[d]] for d in range(2, dim)], [subs(dim, x) for x in levels[dim]])
    for f in range(len(raw.l)):
        if rng.random() < .4:
            raw.swap(f)
    return raw


def prism(poly, layers, h):
    """Layers of prisms over a planar polygon."""
    n = len(poly)
    pts = [(x, y, h * k) for k in range(layers + 1) for x, y in poly]
    faces = [[k * n + q for q in range(n)] for k in range(layers + 1)]
    cells = []
    for k in range(layers):
        c = [k, k + 1]
        for q in range(n):
            c.append(len(faces))
            faces.append([k * n + q, k * n + (q + 1) % n, (k + 1) * n + (q + 1) % n, (k + 1) * n + q])
        cells.append(c)
    return g.Poly(pts, faces, cells)


def mesh(rng, dim, polys, big=False):
    """A random mesh (raw) and its witness; simplicial: factor of the measures."""
    while True:
        simp = False
        if dim == 2:
            k = rng.random()
            if polys and k < .4:
                p = rng.choice(polys)
                pl = g.Planar([tuple(8 * x for x in q) for q in p], [list(range(len(p)))])
                pl.pts = g.affine(pl.pts, rng, 2)
            else:
                pl = g.lattice2(rng, rng.choice([(1, 1), (2, 1), (2, 2), (3, 2)] + ([(4, 3), (5, 4)] if big else [])), merges=rng.choice([0, 0, 1, 3]))
            raw = g.planar_to_raw(pl, rng)
            if rng.random() < .3:            # mirrored: clockwise cells
                raw.v = [(-x, y) for x, y in raw.v]
            left_correct(raw)
        elif dim == 3:
            k = rng.random()
            if polys and k < .35:
                p = rng.choice(polys)
                q = g.scramble(prism([tuple(8 * x for x in a) for a in p], rng.randint(1, 2), 8), rng)
            else:
                q = loadlib.random_poly(rng, rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1)] + ([(2, 2, 2), (3, 2, 2)] if big else [])), merges=rng.choice([0, 0, 1, 2]), deform=False)
            q.pts = small_affine(q.pts, rng, 3)
            raw = g.poly_to_raw(q, rng)
        else:
            if rng.random() < .4:
                raw, simp = kuhn4(rng, rng.choice([1, 2, 3] + ([5] if big else []))), True
            else:
                raw = g.cubical(rng, 4, rng.choice([(1, 1, 1, 1), (2, 1, 1, 1)] + ([(2, 2, 1, 1)] if big else [])))
                raw.v = [tuple(x // 2 for x in p) for p in raw.v]
            raw.v = small_affine(raw.v, rng, 4)
        w = witness(raw)
        if w is not None:
            return raw, w, scales(dim, simp)


def scales(dim, simp):
    if dim == 2:
        return [256, 512]
    if dim == 3:
        return [256, 128, 768]
    return [16 * 4 ** d * ((1, 1, 2, 6, 24)[d] if simp else 1) for d in range(1, 5)]


def build(raw, w, cfg, exp):
    return [("new %d raw %d %s" % (cfg, exp, raw.text()), {"op": "raw", "dim": raw.dim, "raw": raw.record(), "w": w, "loose": False})]


def scenario(rng, raw, w, sc, queries):
    cfg = rng.choice([0, 0, 1, 2])
    if raw.dim == 3 and cfg == 1 and max(len(x) for x in raw.s[0]) > 12:
        cfg = 0
    return build(raw, w, cfg, rng.choice([0, 0, -12, 9, -30, 20])) + queries(rng, raw.dim, sc) + [("dump", {"op": "dump"})]


def empty_scenario(rng, dim, sc, queries):
    return [("new %d empty" % rng.randrange(3), {"op": "empty", "dim": dim})] + queries(rng, dim, sc) + [("dump", {"op": "dump"})]
