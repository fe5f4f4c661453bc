"""Generates drivers with classes with arithmetic traits and the statements on them."""
from fractions import Fraction as F
INT = {"int": "i", "long": "i", "short": "i", "unsigned": "u", "double": "r", "float": "r", "long double": "r", "Sym": "S", "long long": "i"}
FUNS = ["exp", "log", "log2", "log10", "sqrt", "cbrt"]
LIMIT = {"short": 2 ** 15, "float": 2 ** 24}


class Cls:
    pass


def make(rng, cid, kind):
    """kind: sym, num, vert (with Vertex attributes), arr (only aggregated)"""
    c = Cls()
    c.id, c.kind, c.defs = cid, kind, []
    c.leaf = []          # (path, ctype)
    c.top = []
    pool = {"sym": ["Sym"], "num": ["int", "double", "long", "float", "short", "long double", "unsigned", "long long"], "vert": ["double", "int", "float"], "arr": ["int", "double", "float", "long", "unsigned"]}[kind]
    count = [0]

    def build(depth):
        """returns the name of a class and its leaves in the order of the attributes"""
        count[0] += 1
        name = "C%d_%d" % (cid, count[0])
        n = rng.choice([1, 2, 2, 3, 3, 4]) if depth else rng.choice([2, 3, 3, 4, 5])
        mem = []
        nested = 0
        for k in range(n):
            m = "%s%d" % (rng.choice(["rho", "p", "mom", "e_"]), k)
            r = rng.random()
            if depth < 2 and not nested and (r < .35 or (depth == 0 and k == n - 1)):
                t, lv = build(depth + 1)
                nested += 1
            elif kind == "vert" and r < .75:
                d, t0 = rng.choice([(3, "double"), (2, "double"), (2, "float"), (2, "int"), (1, "double")])
                t, lv = "Vector<%d, %s>" % (d, t0), [("[%d]" % q, t0) for q in range(d)]
            elif kind == "arr" and r < .75:
                t0 = rng.choice(pool)
                d = rng.randint(1, 4)
                t = "std::array<%s, %d>" % (t0, d) if rng.random() < .5 else "std::vector<%s>" % t0
                lv = [("[%d]" % q, t0) for q in range(d)]
            else:
                t = rng.choice(pool)
                lv = [("", t)]
            mem.append((m, t, lv))
        templ = depth == 0 and rng.random() < .3
        att = mem[:]
        rng.shuffle(att)
        out = []
        tp = mem[0][1]
        out.append("%sstruct %s {" % ("template <class T, int N> " if templ else "", name))
        for k, (m, t, lv) in enumerate(mem):
            init = "{}"
            if t.startswith("std::vector"):
                init = " = %s(%d)" % (t, len(lv))
            out.append("    %s %s%s;" % ("T" if templ and k == 0 else t, m, init))
        if rng.random() < .3:
            out.append("    int hidden = 7;")
        out.append("};")
        cls = "%s<T, N>" % name if templ else name
        style = rng.choice(["ATTRIBUTE", "NAMED_ATTRIBUTE", "CUSTOM"])
        ar = rng.choice(["_ARITHMETIC", "_ARITHMETIC", ""])
        args = []
        for k, (m, t, lv) in enumerate(att):
            if style == "ATTRIBUTE":
                args.append(m)
            elif style == "NAMED_ATTRIBUTE":
                args.append('"the %d", %s' % (k, m))
            elif not templ and rng.random() < .5:
                out.append("const %s& cr_%s_%s(const %s& c) { return c.%s; } %s& r_%s_%s(%s& c) { return c.%s; }" % (t, name, m, name, m, t, name, m, name, m))
                args.append('"the %d", std::make_pair(cr_%s_%s, r_%s_%s)' % (k, name, m, name, m))
            else:
                args.append('"the %d", %s' % (k, "(&%s::%s)" % (cls, m) if templ else "&%s::%s" % (cls, m)))
        if templ:
            out.append("MAKE_%s_TEMPLATE_TRAIT%s((%s), (class T, int N), %s);" % (style, ar, cls, ", ".join(args)))
        else:
            out.append("MAKE_%s_TRAIT%s(%s, %s);" % (style, ar, name, ", ".join(args)))
        c.defs += out
        leaves = []
        for m, t, lv in att:
            if depth == 0 and len(lv) == 1 and lv[0][0] == "":
                c.top.append(len(leaves) + 1)
            for p, lt in lv:
                leaves.append(("." + m + p, lt))
        return ("%s<%s, %d>" % (name, tp, cid) if templ else name), leaves
    c.name, c.leaf = build(0)
    if len(c.leaf) > 12:
        return make(rng, cid, kind)
    if kind in ("vert", "arr"):
        c.top = []
    c.ops = {"sym": ["+", "-", "*", "/", "pow"], "num": ["+", "-", "*", "/", "pow"], "vert": ["+", "-", "*", "/", "pow"], "arr": []}[kind]
    c.funs = {"sym": ["neg", "abs"] + FUNS, "num": ["neg", "abs"], "vert": ["abs"], "arr": []}[kind]
    c.agg = [] if kind == "sym" else ["max", "min", "sum"]
    return c


def record(c):
    return {"kinds": [INT[t] for _, t in c.leaf], "ops": c.ops, "funs": c.funs, "top": c.top, "prod": c.kind in ("sym", "num"), "sym": c.kind == "sym", "agg": c.agg}


def start(c):
    """the initial values (as in ArithGen)"""
    v = []
    for q in (1, 2, 3):
        row = []
        for j, (_, t) in enumerate(c.leaf, 1):
            k = INT[t]
            if k == "S":
                row.append("x%d%d" % (q, j))
            elif k == "u":
                row.append(F(2 + q * 5 + j * 3))
            elif k == "i":
                row.append(F(7 - 3 * q if j == q else q * j - 9))
            else:
                row.append(F((q * 7 - 11) * j + 1, 4))
        v.append(row)
    return v


# ---- which numeric statements stay within exactly representable values (no oracle: the specification computes the results)
def dy(x):
    k = 0
    while x.denominator > 1 and k < 40:
        x *= 2
        k += 1
    return x.numerator, k


class Leave(Exception):
    pass


def fit(x, t=None):
    n, k = dy(x)
    if x.denominator & (x.denominator - 1) or k > 9 or abs(x) > 2 ** 14 or abs(n) >= LIMIT.get(t, 2 ** 28):
        raise Leave
    if t == "unsigned" and x < 0:
        raise Leave
    return x


def trunc(x):
    return F(int(x))


def binop(op, x, y, ix, iy):
    nx, kx = dy(x)
    ny, ky = dy(y)
    if abs(nx) << max(0, ky - kx) >= 2 ** 29 or abs(ny) << max(0, kx - ky) >= 2 ** 29 or abs(nx * ny) >= 2 ** 30:
        raise Leave
    if op == "+": return x + y
    if op == "-": return x - y
    if op == "*": return x * y
    if op == "pow":
        if y < 0 or y > 6: raise Leave
        return x ** int(y)
    if y == 0: raise Leave
    r = x / y
    if ix and iy: return trunc(r)
    if r.denominator & (r.denominator - 1): raise Leave
    return r


FITTING = {"sqrt": [0, 1, 4, 49, 144, 625, 1024], "cbrt": [0, 1, -1, 8, -64, 125, 1000], "exp": [0], "log": [1], "log2": [1, 2, 8, 64, 1024, F(1, 4), F(1, 2)], "log10": [1, 10, 1000, 100]}


def unop(f, x):
    if f == "neg": return -x
    if f == "abs": return abs(x)
    if x not in FITTING[f]: raise Leave
    return F(0)


def execute(c, vs, r):
    """variables after a numeric statement; raises Leave if it leaves the exact values"""
    ts = [t for _, t in c.leaf]
    ints = [INT[t] in "iu" for t in ts]
    uns = any(t == "unsigned" for t in ts)

    def obj(op, x, y):
        res = []
        for j, t in enumerate(ts):
            a, ia = (x[1][j], ints[j]) if x[0] else (x[1][0], x[2])
            b, ib = (y[1][j], ints[j]) if y[0] else (y[1][0], y[2])
            if t == "unsigned" and ((not x[0] and a < 0) or (not y[0] and b < 0)): raise Leave
            v = binop(op, a, b, ia, ib)
            if not ints[j] or INT[t] in "iu": fit(v)
            res.append(fit(trunc(v) if ints[j] else v, t))
        return (True, res, None)
    st = []
    for t in r["toks"]:
        if t[0] == "v": st.append((True, vs[t[1] - 1], None))
        elif t[0] == "s": st.append((False, [F(t[1], 2 ** t[2])], t[4] == "int"))
        elif t[0] == "a": st.append((False, [vs[t[1] - 1][t[2] - 1]], ints[t[2] - 1]))
        elif t[0] == "u": x = st.pop(); st.append((True, [fit(unop(t[1], v), tt) for v, tt in zip(x[1], ts)], None))
        else:
            y = st.pop(); x = st.pop(); st.append(obj(t[1], x, y))
    e = st[0]
    vs = [list(v) for v in vs]
    if r["st"] == "set": vs[r["dst"] - 1] = e[1]
    elif r["st"] == "cmp": vs[r["dst"] - 1] = obj(r["op"], (True, vs[r["dst"] - 1], None), e)[1]
    else:
        if uns and any(v < 0 for v in e[1]): raise Leave
        fit(sum(abs(v) for v in e[1]), "float")
    return vs


def emit_class(c, stmts, rng):
    out = c.defs[:]
    N = c.name
    out.append("struct H%d : Base {\n    using C = %s; C v[3];" % (c.id, N))
    out.append("    template <class X, class G> static void each(X& c, const G& g) { %s }" % " ".join("g(c%s);" % p for p, _ in c.leaf))
    out.append("    struct Shower { std::string& s; template <class T> void operator()(const T& x) const { s += (s.empty() ? \"\" : \",\") + show(x); } };")
    out.append("    static std::string leaves(const C& c) { std::string s; each(c, Shower{s}); return \"[\" + s + \"]\"; }")
    out.append("    struct Putter { std::istream& in; template <class T> void operator()(T& x) const { put(x, in); } };")
    out.append("    void keep(int d, const C& r) { %s }" % " ".join("v[d]%s = r%s;" % (p, p) for p, _ in c.leaf))
    out.append("    std::string reply(const std::string& res, bool self = true) { return \"{\\\"res\\\":\" + res + \",\\\"self\\\":\" + (self ? \"true\" : \"false\") + \",\\\"vars\\\":[\" + leaves(v[0]) + \",\" + leaves(v[1]) + \",\" + leaves(v[2]) + \"]}\"; }")
    init = " ".join(x if isinstance(x, str) else "%d %d" % dy(x) for row in start(c) for x in row)
    out.append("    std::string start() override { std::istringstream in(\"%s\"); for (C& c : v) each(c, Putter{in}); return reply(\"[]\"); }" % init)
    out.append("    std::string poke(int d, std::istream& in) override { each(v[d], Putter{in}); return reply(leaves(v[d])); }")
    for k, r in enumerate(stmts):
        st, pre = [], []
        for t in r["toks"]:
            if t[0] == "v":
                x = "v[%d]" % (t[1] - 1)
                if t[2] == "c": x = "static_cast<const C&>(%s)" % x
                elif t[2] == "t": x = "C(%s)" % x
                elif t[2] == "m":
                    pre.append("C m%d = %s;" % (len(pre), x)); x = "std::move(m%d)" % (len(pre) - 1)
                st.append(x)
            elif t[0] == "s":
                st.append({"int": t[3], "double": t[3], "float": t[3] + "f"}[t[4]] if t[1] > 0 else "(%s)" % t[3])
            elif t[0] == "a": st.append("v[%d]%s" % (t[1] - 1, c.leaf[t[2] - 1][0]))
            elif t[0] == "u": x = st.pop(); st.append("(-%s)" % x if t[1] == "neg" else "%s(%s)" % (t[1], x))
            else:
                y = st.pop(); x = st.pop()
                st.append("pow(%s, %s)" % (x, y) if t[1] == "pow" else "(%s %s %s)" % (x, t[1], y))
        e = st[0]
        if r["st"] == "set":
            how = rng.choice(["const auto& r", "auto&& r", "auto r", "C r", "const C& r"])
            body = "%s = %s; std::string res = leaves(r); keep(%d, r); return reply(res);" % (how, e, r["dst"] - 1)
        elif r["st"] == "cmp":
            d = r["dst"] - 1
            body = "auto& r = (v[%d] %s= %s); return reply(leaves(r), &r == &v[%d]);" % (d, r["op"], e, d)
        else:
            body = "const auto& r = %s(%s); return reply(\"[\" + show(r) + \"]\");" % (r["op"], e)
        out.append("    std::string s%d() { %s %s }" % (k, " ".join(pre), body))
    out.append("    std::string exec(int s) override { switch (s) {%s } refuse(\"statement\"); }\n};" % "".join(" case %d: return s%d();" % (k, k) for k in range(len(stmts))))
    return "\n".join(out)


def emit_driver(classes, stmts, rng):
    src = ['#include "arithlib.h"']
    for c in classes:
        src.append(emit_class(c, stmts[c.id], rng))
    src.append("int main() { std::unique_ptr<Base> b; std::string line; while (std::getline(std::cin, line)) { if (line.empty()) continue; std::istringstream in(line); std::string op; in >> op; int k = 0; in >> k;")
    src.append("    if (op == \"new\") { switch (k) {%s default: refuse(\"class\"); } std::cout << b->start() << \"\\n\"; }" % "".join(" case %d: b.reset(new H%d); break;" % (c.id, c.id) for c in classes))
    src.append("    else if (op == \"poke\") std::cout << b->poke(k, in) << \"\\n\"; else if (op == \"x\") std::cout << b->exec(k) << \"\\n\"; else refuse(op); } }")
    return "\n".join(src)
