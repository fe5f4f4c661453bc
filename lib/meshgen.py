"""Meshes for the drivers: lattice-based planar, solid, polyhedral and 4D meshes with random numbering,
rotation and integer deformation, as files and as raw descriptions. The generator only makes inputs; what
the code has to do with them is judged by the TLA+ specification."""
import itertools

TET, HEX, WEDGE, PYR = 10, 12, 13, 14
# GTMesh element types
GT = {10: 300, 11: 301, 12: 301, 13: 302, 14: 303}
GT_POLYHEDRON = 305
GT2 = {5: 200, 9: 201, 7: 202}
FACES = {TET: [(0, 1, 2), (0, 1, 3), (1, 2, 3), (2, 0, 3)],
         HEX: [(0, 1, 2, 3), (0, 1, 5, 4), (1, 2, 6, 5), (2, 3, 7, 6), (3, 0, 4, 7), (4, 5, 6, 7)],
         WEDGE: [(0, 1, 2), (0, 1, 4, 3), (1, 2, 5, 4), (2, 0, 3, 5), (3, 4, 5)],
         PYR: [(0, 1, 2, 3), (0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)]}


def _symmetries(t):
    """All vertex permutations of a solid that keep its faces and its orientation."""
    n = {TET: 4, HEX: 8, WEDGE: 6, PYR: 5}[t]
    pts = {TET: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
           HEX: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
           WEDGE: [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1)],
           PYR: [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (1, 1, 1)]}[t]
    fs = {frozenset(f) for f in FACES[t]}
    tri = {TET: (0, 1, 2, 3), HEX: (0, 1, 3, 4), WEDGE: (0, 1, 2, 3), PYR: (0, 1, 3, 4)}[t]

    def det(p):
        a, b, c, d = [pts[p[k]] for k in tri]
        u, v, w = [[x - y for x, y in zip(q, a)] for q in (b, c, d)]
        return (u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0]))
    res = []
    s0 = det(range(n)) > 0
    cyc = lambda f: {frozenset((f[k], f[(k + 1) % len(f)])) for k in range(len(f))}
    edges = set().union(*[cyc(f) for f in FACES[t]])
    for p in itertools.permutations(range(n)):
        if {frozenset(p[x] for x in f) for f in fs} == fs and {frozenset(p[x] for x in e) for e in edges} == edges and (det(p) > 0) == s0:
            res.append(p)
    return res


_SYM = {}


def symmetries(t):
    if t not in _SYM:
        _SYM[t] = _symmetries(t)
    return _SYM[t]


class Solid:
    """A 3D mesh given by its solids: pts (list of integer triples, units 1/4), cells [(vtktype, verts)]."""
    def __init__(self, pts, cells):
        self.pts, self.cells = pts, cells


def renumber(pts, cells_verts, rng, extra=0):
    used = sorted({v for c in cells_verts for v in c})
    perm = used[:]
    if rng:
        rng.shuffle(perm)
    m = {v: k for k, v in enumerate(perm)}
    return [pts[v] for v in perm], [[m[v] for v in c] for c in cells_verts]


def affine(pts, rng, dim):
    """A random integer affine map with positive determinant (keeps planarity and convexity)."""
    while True:
        A = [[rng.randint(-2, 2) for _ in range(dim)] for _ in range(dim)]
        if dim == 2:
            d = A[0][0] * A[1][1] - A[0][1] * A[1][0]
        elif dim == 3:
            d = (A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]))
        if 0 < d <= 6:
            break
    b = [rng.randint(-20, 20) for _ in range(dim)]
    return [tuple(sum(A[i][k] * p[k] for k in range(dim)) + b[i] for i in range(dim)) for p in pts]


def lattice3(rng, dims, config=None, kinds=("hex", "pyr", "wedge", "none"), shuffle=True, rotate=True, deform=True, weights=None):
    """Solids on a lattice. config: {(x,y,z): kind}; wedge splits whole columns; 'tet' (Kuhn) is all or nothing."""
    nx, ny, nz = dims
    pts, idx = [], {}

    def vid(p):
        if p not in idx:
            idx[p] = len(pts)
            pts.append(p)
        return idx[p]
    cells = []
    h = 8
    if config is None:
        col = {(x, y): rng.choice(["w0", "w1", "n"]) for x in range(nx) for y in range(ny)}
        config = {}
        for x, y, z in itertools.product(range(nx), range(ny), range(nz)):
            k = rng.choice(kinds)
            config[x, y, z] = k
        if "wedge" in kinds:
            for x, y in itertools.product(range(nx), range(ny)):
                if rng.random() < 0.4:
                    for z in range(nz):
                        config[x, y, z] = "none" if config[x, y, z] == "none" else rng.choice(["wedge"])
                else:
                    for z in range(nz):
                        if config[x, y, z] == "wedge":
                            config[x, y, z] = "hex"
        if all(k == "none" for k in config.values()):
            config[0, 0, 0] = "hex"
    for (x, y, z), k in sorted(config.items()):
        c = [(x, y, z), (x + 1, y, z), (x + 1, y + 1, z), (x, y + 1, z), (x, y, z + 1), (x + 1, y, z + 1), (x + 1, y + 1, z + 1), (x, y + 1, z + 1)]
        c = [tuple(h * q for q in p) for p in c]
        if k == "none":
            continue
        v = [vid(p) for p in c]
        if k == "hex":
            cells.append((HEX, v))
        elif k == "wedge":
            if (x + y) % 2:
                cells.append((WEDGE, [v[0], v[1], v[2], v[4], v[5], v[6]]))
                cells.append((WEDGE, [v[0], v[2], v[3], v[4], v[6], v[7]]))
            else:
                cells.append((WEDGE, [v[0], v[1], v[3], v[4], v[5], v[7]]))
                cells.append((WEDGE, [v[1], v[2], v[3], v[5], v[6], v[7]]))
        elif k == "pyr":
            a = vid((h * x + h // 2, h * y + h // 2, h * z + h // 2))
            for f in [(0, 1, 2, 3), (0, 4, 5, 1), (1, 5, 6, 2), (2, 6, 7, 3), (3, 7, 4, 0), (4, 7, 6, 5)]:
                cells.append((PYR, [v[q] for q in f] + [a]))
        elif k == "tet":
            n = {tuple((b >> t) & 1 for t in range(3)): v[q] for q, b in enumerate([0, 1, 3, 2, 4, 5, 7, 6])}
            for perm in itertools.permutations(range(3)):
                p = [0, 0, 0]
                t = [n[tuple(p)]]
                for ax in perm:
                    p[ax] = 1
                    t.append(n[tuple(p)])
                inv = sum(1 for i in range(3) for j in range(i) if perm[j] > perm[i])
                if inv % 2:
                    t[1], t[2] = t[2], t[1]
                cells.append((TET, t))
    if shuffle:
        rng.shuffle(cells)
    if rotate:
        cells = [(t, [c[q] for q in rng.choice(symmetries(t))]) for t, c in cells]
    pts, cv = renumber(pts, [c for _, c in cells], rng if shuffle else None)
    if deform:
        pts = affine(pts, rng, 3)
    return Solid(pts, [(t, c) for (t, _), c in zip(cells, cv)])


SOLID_EDGES = {10: "01 12 20 03 13 23", 12: "01 12 23 30 45 56 67 74 04 15 26 37", 13: "01 12 20 34 45 53 03 14 25", 14: "01 12 23 30 04 14 24 34"}


def solid_edges(t, c):
    return [(c[int(e[0])], c[int(e[1])]) for e in SOLID_EDGES[t].split()]


def coord_text(x4, rng=None):
    """quarter units -> decimal text"""
    s = "%g" % (x4 / 4.0) if abs(x4) < 400000 else repr(x4 / 4.0)
    if rng is not None and rng.random() < 0.15:
        s = "%.3e" % (x4 / 4.0)
        if abs(float(s) - x4 / 4.0) > 0:
            s = repr(x4 / 4.0)
    return s


def exact_text(text, bits):
    """The floating point number with that many bits of mantissa nearest to a decimal text, as odd * 2^e."""
    from fractions import Fraction
    x = Fraction(text)
    if x == 0:
        return "0"
    a, e = abs(x), 0
    while a >= 2 ** bits:
        a, e = a / 2, e + 1
    while a < 2 ** (bits - 1):
        a, e = a * 2, e - 1
    n = round(a)                     # half to even
    while n % 2 == 0:
        n, e = n // 2, e + 1
    return ("-" if x < 0 else "") + "%dp%d" % (n, e)


def precise_text(rng):
    """A decimal number that needs all the digits of its type."""
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(["0.1", "-0.3", "1.7", "-12.6", "0.001", "3", "0", "16777217", "9007199254740993", "-33554433.5", "4294967297"])
    if k == 1:
        return "%s0.%s" % (rng.choice(["", "-"]), "".join(rng.choice("0123456789") for _ in range(rng.randint(1, 19))))
    if k == 2:
        return "%.*e" % (rng.randint(1, 16), rng.uniform(-1, 1) * 10 ** rng.randint(-20, 20))
    if k == 3:
        return "%.*f" % (rng.randint(1, 12), rng.uniform(-1e6, 1e6))
    if k == 4:
        return "%sE%+03d" % (rng.choice(["1", "-2.5", "7.123456789", "+3.3"]), rng.randint(-15, 15))
    return repr(rng.uniform(-100, 100))


def vtk_text(pts, cells, types, rng=None, dim=3, texts=None):
    out = ["# vtk DataFile Version 2.0", "generated mesh" if not rng or rng.random() < .5 else rng.choice(["a name, longer: with 1 2 3 CELLS POINTS", "", "x" * 60 + " 7 " + "y" * 190]), "ASCII", "DATASET UNSTRUCTURED_GRID",
           "POINTS %d %s" % (len(pts), "double" if not rng or rng.random() < .5 else rng.choice(["float", "float", "unsigned_char", "vtktypeint64"]))]
    if texts is None:
        texts = [[coord_text(x, rng) for x in p] for p in pts]
    zs = ["0"] if not rng or rng.random() < .4 else ["0.0", "0", "-0.0", "0.000000", "0e0", "0.5", "1e-3", "-2.25"]      # of planar points
    rows = [" ".join(list(p) + [(rng or __import__("random")).choice(zs)] * (3 - len(p))) for p in texts]
    if rng and rng.random() < .3:            # three points on a line, as ParaView writes them
        rows = [" ".join(rows[k:k + 3]) + " " for k in range(0, len(rows), 3)]
    out += rows
    if rng and rng.random() < .5:
        out.append("")
    out.append("CELLS %d %d" % (len(cells), sum(len(c) + 1 for c in cells)))
    for c in cells:
        out.append("%d %s" % (len(c), " ".join(map(str, c))))
    if rng and rng.random() < .5:
        out.append("")
    out.append("CELL_TYPES %d" % len(cells))
    for t in types:
        out.append(str(t))
    return "|".join(out) + "|"


# ------------------------------------------------------------------ polyhedra
class Poly:
    """pts, faces (vertex cycles), cells (lists of faces)."""
    def __init__(self, pts, faces, cells):
        self.pts, self.faces, self.cells = pts, faces, cells


def solid_to_poly(s):
    fid, faces, cells = {}, [], []
    for t, c in s.cells:
        fl = []
        for f in FACES[t]:
            cyc = [c[q] for q in f]
            k = frozenset(cyc)
            if k not in fid:
                fid[k] = len(faces)
                faces.append(cyc)
            fl.append(fid[k])
        cells.append(fl)
    return Poly(s.pts, faces, cells)


def merge_cells(p, rng, n):
    """Merge n times two random neighbouring cells (dropping the faces between them)."""
    cells = [list(c) for c in p.cells]
    for _ in range(n):
        owner = {}
        for ci, c in enumerate(cells):
            for f in c:
                owner.setdefault(f, []).append(ci)
        pairs = sorted({tuple(sorted(o)) for o in owner.values() if len(o) == 2 and o[0] != o[1]})
        if not pairs:
            break
        a, b = rng.choice(pairs)
        sh = set(cells[a]) & set(cells[b])
        m = [f for f in cells[a] + cells[b] if f not in sh]
        # keep only merges with a connected boundary that stays a simple polyhedron
        vs = {}
        for f in m:
            cyc = p.faces[f]
            for k in range(len(cyc)):
                e = frozenset((cyc[k], cyc[(k + 1) % len(cyc)]))
                vs[e] = vs.get(e, 0) + 1
        if any(x != 2 for x in vs.values()):
            continue
        cells = [c for i, c in enumerate(cells) if i not in (a, b)] + [m]
    used = sorted({f for c in cells for f in c})
    fm = {f: k for k, f in enumerate(used)}
    faces = [p.faces[f] for f in used]
    cells = [[fm[f] for f in c] for c in cells]
    pts, faces = renumber(p.pts, faces, None)
    return Poly(pts, faces, cells)


def _coplanar(pts):
    if len(pts) < 4:
        return True
    a = pts[0]
    d = [[x - y for x, y in zip(q, a)] for q in pts[1:]]
    n = None
    for i in range(len(d)):
        for j in range(i):
            c = (d[i][1] * d[j][2] - d[i][2] * d[j][1], d[i][2] * d[j][0] - d[i][0] * d[j][2], d[i][0] * d[j][1] - d[i][1] * d[j][0])
            if any(c):
                n = c
    return n is None or all(sum(x * y for x, y in zip(n, q)) == 0 for q in d)


def merge_faces(p):
    """Merge coplanar neighbouring faces with the same owners across an edge nobody else uses."""
    faces = [list(f) for f in p.faces]
    own = {k: frozenset(ci for ci, c in enumerate(p.cells) if k in c) for k in range(len(faces))}
    alive = set(range(len(faces)))
    again = True
    while again:
        again = False
        use = {}
        for k in sorted(alive):
            f = faces[k]
            for q in range(len(f)):
                use.setdefault(frozenset((f[q], f[(q + 1) % len(f)])), []).append(k)
        for e, ks in sorted(use.items(), key=lambda x: sorted(x[0])):
            if len(ks) != 2 or own[ks[0]] != own[ks[1]]:
                continue
            A, B = faces[ks[0]], faces[ks[1]]
            if len(set(A) & set(B)) != 2 or not _coplanar([p.pts[v] for v in A + B]):
                continue
            a, b = sorted(e)
            q = next(q for q in range(len(A)) if {A[q], A[(q + 1) % len(A)]} == set(e))
            A = A[q + 1:] + A[:q + 1]                 # starts and ends at the shared edge
            q = next(q for q in range(len(B)) if {B[q], B[(q + 1) % len(B)]} == set(e))
            B = B[q + 1:] + B[:q + 1]
            if A[0] == B[0]:
                B = B[::-1]
            faces[ks[0]] = A + B[1:-1]
            alive.discard(ks[1])
            again = True
            break
    keep = sorted(alive)
    fm = {f: k for k, f in enumerate(keep)}
    cells = [[fm[f] for f in c if f in fm] for c in p.cells]
    pts, fl = renumber(p.pts, [faces[k] for k in keep], None)
    return Poly(pts, fl, cells)


def scramble(p, rng):
    """Random numbering of everything, random start and direction of the face cycles."""
    faces = []
    for f in p.faces:
        k = rng.randrange(len(f))
        g = f[k:] + f[:k]
        if rng.random() < .5:
            g = g[::-1]
        faces.append(g)
    order = list(range(len(faces)))
    rng.shuffle(order)
    pos = {f: k for k, f in enumerate(order)}
    faces = [faces[f] for f in order]
    cells = [[pos[f] for f in c] for c in p.cells]
    for c in cells:
        rng.shuffle(c)
    rng.shuffle(cells)
    pts, faces = renumber(p.pts, faces, rng)
    return Poly(pts, faces, cells)


def fpma_text(p, rng=None, texts=None):
    out = [str(len(p.pts))]
    sep = " " if not rng else rng.choice([" ", " ", "   ", "\t"])
    for q in texts or [[coord_text(x, rng) for x in q] for q in p.pts]:
        out.append(sep.join(q) + ("" if not rng or rng.random() < .9 else " "))
    if rng and rng.random() < .2:
        out.append("")
    out.append(str(len(p.faces)))
    for f in p.faces:
        out.append("%d %s" % (len(f), " ".join(map(str, f))))
    out.append(str(len(p.cells)))
    for c in p.cells:
        out.append("%d %s" % (len(c), " ".join(map(str, c))))
    if rng is None or rng.random() < .7:
        out.append("0")
    return "|".join(out) + "|"


# ------------------------------------------------------------------ planar meshes
class Planar:
    """pts (pairs, units 1/4), cells (vertex cycles)."""
    def __init__(self, pts, cells):
        self.pts, self.cells = pts, cells

    def types(self):
        return [5 if len(c) == 3 else 9 if len(c) == 4 else 7 for c in self.cells]


def lattice2(rng, dims, config=None, merges=0, shuffle=True, deform=True):
    nx, ny = dims
    if config is None:
        config = {(x, y): rng.choice(["q", "q", "a", "b", "x", "n"]) for x in range(nx) for y in range(ny)}
        if all(k == "n" for k in config.values()):
            config[0, 0] = "q"
    pts, idx = [], {}
    h = 8

    def vid(p):
        if p not in idx:
            idx[p] = len(pts)
            pts.append(p)
        return idx[p]
    cells = []
    for (x, y), k in sorted(config.items()):
        if k == "n":
            continue
        v = [vid((h * a, h * b)) for a, b in ((x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1))]
        if k == "q":
            cells.append(v)
        elif k == "a":
            cells += [[v[0], v[1], v[2]], [v[0], v[2], v[3]]]
        elif k == "b":
            cells += [[v[0], v[1], v[3]], [v[1], v[2], v[3]]]
        elif k == "x":
            c = vid((h * x + h // 2, h * y + h // 2))
            cells += [[v[i], v[(i + 1) % 4], c] for i in range(4)]
    for _ in range(merges):
        own = {}
        for ci, c in enumerate(cells):
            for q in range(len(c)):
                own.setdefault(frozenset((c[q], c[(q + 1) % len(c)])), []).append((ci, q))
        pairs = [o for o in own.values() if len(o) == 2]
        if not pairs:
            break
        (a, qa), (b, qb) = rng.choice(pairs)
        A, B = cells[a], cells[b]
        if len(set(A) & set(B)) != 2:
            continue
        A = A[qa + 1:] + A[:qa + 1]      # starts at the end of the shared edge
        B = B[qb + 1:] + B[:qb + 1]
        cells = [c for i, c in enumerate(cells) if i not in (a, b)] + [A + B[1:-1]]
    if shuffle:
        rng.shuffle(cells)
        cells = [c[k:] + c[:k] for c in cells for k in [rng.randrange(len(c))]]
        cells = [c[::-1] if rng.random() < .3 else c for c in cells]
    pts, cells = renumber(pts, cells, rng if shuffle else None)
    if deform:
        pts = affine(pts, rng, 2)
    return Planar(pts, cells)


# ------------------------------------------------------------------ raw meshes
class Raw:
    """Raw connectivity: dim, v, e, s (lists for d=2..dim-1), cells (ordered lists of faces), adjacency."""
    def __init__(self, dim, v, e, s, cells):
        self.dim, self.v, self.e, self.s, self.cells = dim, v, e, s, cells
        nf = len(s[-1]) if dim > 2 else len(e)
        self.l, self.r, self.nl, self.nr = [-1] * nf, [-1] * nf, [-1] * nf, [-1] * nf
        self.cb = []
        for ci, c in enumerate(cells):
            self.cb.append(c[0] if c else -1)
            for k, f in enumerate(c):
                nx = c[(k + 1) % len(c)]
                if self.l[f] == -1:
                    self.l[f], self.nl[f] = ci, nx
                else:
                    assert self.r[f] == -1
                    self.r[f], self.nr[f] = ci, nx

    def swap(self, f):
        self.l[f], self.r[f] = self.r[f], self.l[f]
        self.nl[f], self.nr[f] = self.nr[f], self.nl[f]

    def text(self):
        o = [str(len(self.v))] + [" ".join(map(str, p)) for p in self.v] + [str(len(self.e))] + ["%d %d" % tuple(x) for x in self.e]
        for lst in self.s:
            o.append(str(len(lst)))
            o += ["%d %s" % (len(x), " ".join(map(str, x))) for x in lst]
        o += ["%d %d %d %d" % q for q in zip(self.l, self.r, self.nl, self.nr)]
        o.append(str(len(self.cb)))
        o += [str(b) for b in self.cb]
        return " ".join(o)

    def record(self):
        return {"dim": self.dim, "v": [list(p) for p in self.v], "e": [list(x) for x in self.e], "s": self.s, "l": self.l, "r": self.r,
                "nl": self.nl, "nr": self.nr, "cb": self.cb, "bc": [], "idx": True}


def poly_to_raw(p, rng=None, orient=True):
    eid, e, s = {}, [], []
    for f in p.faces:
        cur = []
        for k in range(len(f)):
            a, b = f[k], f[(k + 1) % len(f)]
            key = frozenset((a, b))
            if key not in eid:
                eid[key] = len(e)
                e.append([a, b] if not rng or rng.random() < .5 else [b, a])
            cur.append(eid[key])
        s.append(cur)
    r = Raw(3, p.pts, e, [s], p.cells)
    if rng:
        for f in range(len(s)):
            if rng.random() < .4:
                r.swap(f)
    return r


def planar_to_raw(p, rng=None):
    eid, e, cells = {}, [], []
    for c in p.cells:
        cur = []
        for k in range(len(c)):
            a, b = c[k], c[(k + 1) % len(c)]
            key = frozenset((a, b))
            if key not in eid:
                eid[key] = len(e)
                e.append([a, b] if not rng or rng.random() < .5 else [b, a])
            cur.append(eid[key])
        cells.append(cur)
    r = Raw(2, p.pts, e, [], cells)
    if rng:
        for f in range(len(e)):
            if rng.random() < .4:
                r.swap(f)
    return r


def cubical(rng, dim, dims, prob=0.7, shuffle=True):
    """A mesh of unit dim-cubes (any dimension): raw description."""
    pos = [p for p in itertools.product(*[range(n) for n in dims]) if rng.random() < prob] or [tuple(0 for _ in dims)]
    # an element: tuple of intervals (a,b) per axis, b in {a, a+1}
    def sub(el):
        res = []
        for k, (a, b) in enumerate(el):
            if b > a:
                res.append(el[:k] + ((a, a),) + el[k + 1:])
                res.append(el[:k] + ((b, b),) + el[k + 1:])
        return res
    levels = [None] * (dim + 1)
    levels[dim] = [tuple((x, x + 1) for x in p) for p in pos]
    for d in range(dim - 1, -1, -1):
        levels[d] = sorted({x for el in levels[d + 1] for x in sub(el)})
    if shuffle:
        for l in levels:
            rng.shuffle(l)
    ids = [{el: k for k, el in enumerate(l)} for l in levels]
    v = [tuple(8 * a for a, _ in el) for el in levels[0]]

    def subs(d, el):
        r = [ids[d - 1][x] for x in sub(el)]
        if shuffle:
            rng.shuffle(r)
        return r
    e = [subs(1, el) for el in levels[1]]
    s = [[subs(d, el) for el in levels[d]] for d in range(2, dim)]
    cells = [subs(dim, el) for el in levels[dim]]
    raw = Raw(dim, v, e, s, cells)
    if shuffle:
        for f in range(len(raw.l)):
            if rng.random() < .4:
                raw.swap(f)
    return raw


def fan2(n, rng=None):
    """n triangles around one vertex (closed fan)."""
    import math
    pts = [(0, 0)]
    # points of a convex polygon with integer coordinates
    k = n
    pts += [(round(4000 * math.cos(2 * math.pi * i / k)), round(4000 * math.sin(2 * math.pi * i / k))) for i in range(k)]
    cells = [[0, 1 + i, 1 + (i + 1) % n] for i in range(n)]
    if rng:
        rng.shuffle(cells)
        pts, cells = renumber(pts, cells, rng)
    return Planar(pts, cells)
