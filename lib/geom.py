"""Preconditions on the geometry of generated meshes (they select inputs; nothing is judged here)."""


def sub(p, q):
    return [a - b for a, b in zip(p, q)]


def det3(a, b, c):
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0])


def walk(m, c):
    w, f = [], m["cb"][c]
    while True:
        w.append(f)
        f = m["nr"][f] if m["r"][f] == c else m["nl"][f]
        if f == m["cb"][c] or len(w) > len(m["l"]):
            return w


def cycle(m, f):
    """vertices of a face of a 3D mesh in the order of its boundary"""
    es = [m["e"][x] for x in m["s"][0][f]]
    cyc, used = list(es[0]), {0}
    while len(cyc) < len(es):
        k = next(k for k in range(len(es)) if k not in used and cyc[-1] in es[k])
        used.add(k)
        cyc.append(es[k][0] if es[k][1] == cyc[-1] else es[k][1])
    return cyc


def star_shaped(m, cc, fc):
    """Every cell (3D) is the union of the tetrahedra edge, face centre, cell centre, all of the same sign."""
    V = [[x / 4.0 for x in p] for p in m["v"]]
    for c in range(len(m["cb"])):
        w = walk(m, c)
        cyc = {f: cycle(m, f) for f in w}
        # orient the faces consistently
        start = w[0]
        ori, todo = {start: cyc[start]}, [start]
        while todo:
            f = todo.pop()
            d = {(ori[f][k], ori[f][(k + 1) % len(ori[f])]) for k in range(len(ori[f]))}
            for g in w:
                if g in ori:
                    continue
                dg = {(cyc[g][k], cyc[g][(k + 1) % len(cyc[g])]) for k in range(len(cyc[g]))}
                if d & dg:
                    ori[g] = cyc[g][::-1]
                elif d & {(b, a) for a, b in dg}:
                    ori[g] = cyc[g]
                else:
                    continue
                todo.append(g)
        if len(ori) != len(w):
            return False
        sign = 0
        for f in w:
            o = ori[f]
            for k in range(len(o)):
                x = det3(sub(V[o[k]], cc[c]), sub(V[o[(k + 1) % len(o)]], cc[c]), sub(fc[f], cc[c]))
                if abs(x) < 1e-2:
                    return False
                if sign == 0:
                    sign = 1 if x > 0 else -1
                if x * sign < 0:
                    return False
    return True


def mean_centres(m):
    """Centres of faces and cells by the means of the centres of their boundaries (3D)."""
    mean = lambda ps: [sum(p[k] for p in ps) / len(ps) for k in range(3)]
    V = [[x / 4.0 for x in p] for p in m["v"]]
    E = [mean([V[a], V[b]]) for a, b in m["e"]]
    F = [mean([E[x] for x in s]) for s in m["s"][0]]
    return [mean([F[f] for f in walk(m, c)]) for c in range(len(m["cb"]))], F


def raw_star(raw):
    m = {"v": raw.v, "e": raw.e, "s": raw.s, "l": raw.l, "r": raw.r, "nl": raw.nl, "nr": raw.nr, "cb": raw.cb}
    return raw.dim == 2 or star_shaped(m, *mean_centres(m))
