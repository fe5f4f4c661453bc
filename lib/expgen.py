"""Generates families of printable types with values, the drivers that print them, and reads printed text."""
import re
from decimal import Decimal
from sergen import Ty, words

NUMS = ["short", "unsigned short", "int", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long", "float", "double", "double", "long double", "signed char", "unsigned char", "Plain"]
BITS = {"short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "long long": 64, "unsigned long long": 64, "signed char": 8, "unsigned char": 8}
TEXTS = ["char", "std::string", "std::string", "const char*"]


def leaf(cpp):
    t = Ty(cpp, "leaf")
    t.leafkind = cpp
    return t


def hook(cpp, e):
    return Ty(cpp, "hook", [e])


def tree(t):
    r = {"k": t.k, "e": [tree(x) for x in t.e], "c": "", "at": [], "nm": []}
    if t.k == "cls": r.update(c=t.cls, at=t.at, nm=t.nm)
    return r


def number(text):
    """numbers by their value: one form for all texts of a number"""
    if not re.fullmatch(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", text): return text.lower()
    if re.fullmatch(r"-?\d+", text): return text
    d = Decimal("%.5e" % Decimal(text))
    if d == 0: return "-0" if text.startswith("-") else "0"
    if d == d.to_integral() and abs(d) < Decimal(10) ** 19: return str(int(d))
    return str(d.normalize())


def canon(v):
    if isinstance(v, list): return [canon(x) for x in v]
    return v if v.startswith("h") else number(v)


def tokens(raw):
    """tokens of printed text; quoted text becomes h and its characters"""
    out, p = [], 0
    while p < len(raw):
        c = chr(raw[p])
        if c in " \t\n": p += 1; continue
        if c in "[]{},:<>": out.append(c); p += 1; continue
        if c == '"':
            e = raw.find(b'"', p + 1)
            if e < 0: out.append("unterminated"); break
            out.append("h" + "".join(".%x" % b for b in raw[p + 1:e])); p = e + 1; continue
        q = p
        while q < len(raw) and chr(raw[q]) not in ' \t\n[]{},:"<>': q += 1
        out.append(number(raw[p:q].decode("latin1"))); p = q
    return out


def text(rng, n, nul=False):
    pool = [32, 44, 91, 93, 123, 125, 58, 9, 10, 92, 39, 37, 255, 65, 97, 48] + ([0] if nul else [])
    return "h" + "".join(".%x" % (rng.choice(pool) if rng.random() < .6 else rng.choice([x for x in range(1, 256) if x != 34])) for _ in range(n))


PLAIN = [c for c in range(32, 127) if chr(c) not in '"\\<>&'] + [0xc3]


def value(rng, t, size, plain=False):
    """plain: numbers exact in every reader, finite; text without characters with a meaning in JSON or HTML"""
    if plain and t.k == "leaf":
        c = t.leafkind
        if c in BITS: return str(max(min(int(value(rng, t, size)), 2 ** 53 - 1), 1 - 2 ** 53))
        if c in ("float", "double", "long double"):
            v = value(rng, t, size)
            while "inf" in v or (c == "long double" and "e" in v and abs(int(v.split("e")[1])) > 290): v = value(rng, t, size)
            return v
        if c in TEXTS or c.startswith("char["):
            n = 1 if c == "char" else rng.choice([0, 1, 2, 5, 17]) if size > 1 else rng.randint(0, 2)
            w = [rng.choice(PLAIN) for _ in range(n)]
            return "h" + "".join(".c3.a9" if x == 0xc3 and n > 1 and len(w) < 12 else ".%x" % (x if x != 0xc3 else 65) for x in w)
    if t.k in ("leaf", "any"):
        c = t.leafkind
        if c in ("bool", "Strong"): return str(rng.randint(0, 1))
        if c == "Plain": return rng.choice(["0", "1", "1000000"])
        if c in BITS:
            b = BITS[c]
            lo, hi = (0, 2 ** b - 1) if c.startswith("unsigned") else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            return str(rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -99), 99)]))
        if c in ("float", "double", "long double"):
            m = rng.randint(-99999, 99999)
            top = 30 if c == "float" else 300 if c == "double" else 4900
            e = rng.choice([0, 0, -2, -5, 3, rng.randint(20, top), -rng.randint(20, top)])
            if c == "long double" and rng.random() < .4: return "%de%d" % (m, rng.choice([4000, -4000]))
            return rng.choice(["-0.0", "0", "inf", "-inf", "0.1", "%de%d" % (m, e), "%de%d" % (m, e), "%de-4" % m, "100000", "1000000", "2.5"])
        if c == "char": return text(rng, 1, True)
        n = rng.choice([0, 1, 2, 5, 17]) if size > 1 else rng.randint(0, 2)
        return text(rng, n, c == "std::string")
    if t.k == "seq":
        n = rng.choice([0, 1, 2, 3]) if size > 1 else rng.choice([0, 1, 1, 2])
        return [value(rng, t.e[0], size - 1, plain) for _ in range(n)]
    if t.k == "arr":
        return [value(rng, t.e[0], size - 1, plain) for _ in range(t.n)]
    return [value(rng, x, size, plain) for x in t.e]


def enlarge(rng, t, v, n, plain=False):
    """a value with many elements or characters, where the type admits them"""
    if t.k == "leaf" and t.leafkind == "std::string":
        return text(rng, n, False) if not plain else "h" + "".join(".%x" % rng.choice([x for x in PLAIN if x != 0xc3]) for _ in range(n))
    if t.k == "seq" and t.e[0].k == "leaf": return v + [value(rng, t.e[0], 1, plain) for _ in range(n - len(v))]
    if t.k in ("seq", "arr"): return [enlarge(rng, t.e[0], x, n, plain) if j == 0 else x for j, x in enumerate(v)]
    if t.k in ("leaf", "any") or not t.e: return v
    i = rng.randrange(len(t.e))
    return [enlarge(rng, t.e[j], x, n, plain) if i == j else x for j, x in enumerate(v)]


class Maker:
    def __init__(s, rng, fid, plain=False):
        s.plain = plain             # only types whose text is JSON
        s.rng, s.fid, s.defs, s.nc, s.bindings = rng, fid, [], 0, []

    def key(s, hashed=False):
        r = s.rng
        if s.plain: return leaf(r.choice(["int", "short", "bool", "std::string", "double"]))
        if hashed: return leaf(r.choice(["int", "char", "unsigned long", "std::string", "bool", "short"]))
        x = r.random()
        if x < .6: return leaf(r.choice(["int", "char", "short", "signed char", "unsigned char", "bool", "std::string", "double", "Plain", "unsigned long long"]))
        a, b = s.key(), leaf(r.choice(["int", "std::string", "char"]))
        if x < .75: return Ty("std::pair<%s, %s>" % (a.cpp, b.cpp), "pair", [a, b])
        if x < .85: return Ty("std::tuple<%s, %s>" % (a.cpp, b.cpp), "tup", [a, b])
        if x < .93: return Ty("std::vector<%s>" % a.cpp, "seq", [a])
        return Ty("std::set<%s>" % a.cpp, "seq", [a])

    def make(s, depth):
        r = s.rng
        sub = lambda: s.make(r.randint(0, depth - 1))
        if depth == 0:
            x = r.random()
            return leaf("bool") if x < .12 else leaf(r.choice(NUMS if x < .65 else TEXTS))
        x = r.random()
        if x < .22:
            c = r.choice(["vector", "vector", "deque", "list", "forward_list", "valarray"])
            e = sub()
            return Ty("std::%s<%s>" % (c, e.cpp), "seq", [e])
        if x < .3:
            e, n = sub(), r.choice([0, 1, 2, 3, 4])
            return Ty("std::array<%s, %d>" % (e.cpp, n), "arr", [e], n)
        if x < .36:
            n = r.choice([1, 2, 3, 4])
            e = leaf(r.choice(["double", "float", "int", "long", "long double"]))
            return Ty("%s<%d, %s>" % (r.choice(["Vector", "Vertex"]), n, e.cpp), "arr", [e], n)
        if x < .43:
            h = r.random() < .4
            e = s.key(h)
            return Ty("std::%s%s<%s>" % ("unordered_" if h else "", r.choice(["set", "multiset"]), e.cpp), "seq", [e])
        if x < .53:
            if s.plain: return s.klass(depth)
            h = r.random() < .4
            k, e = s.key(h), sub()
            return Ty("std::%s%s<%s, %s>" % ("unordered_" if h else "", r.choice(["map", "map", "multimap"]), k.cpp, e.cpp), "seq", [Ty("", "pair", [k, e])])
        if x < .65:
            n = r.choice([0, 1, 2, 2, 3, 4])
            e = [sub() for _ in range(n)]
            if n == 2 and r.random() < .6 and not s.plain: return Ty("std::pair<%s, %s>" % (e[0].cpp, e[1].cpp), "pair", e)
            return Ty("std::tuple<%s>" % ", ".join(x.cpp for x in e), "tup", e)
        if x < .73:
            def ok():
                e = sub()
                while e.cpp == "bool": e = sub()
                return e
            if r.random() < .6:
                e = ok()
                while e.cpp.startswith("std::tuple<"): e = ok()      # a tuple lists one type per dimension
                dims = r.choice(["0", "3", "3, 0", "2, 1, 0", "1, 3, 12", "10, 102"])
                name, es = "MeshDataContainer<%s, %s>" % (e.cpp, dims), [e] * len(dims.split(","))
            else:
                es = [ok() for _ in range(r.randint(1, 3))]
                dims = ", ".join(map(str, r.sample([0, 1, 2, 3], len(es))))
                name = "MeshDataContainer<std::tuple<%s>, %s>" % (", ".join(e.cpp for e in es), dims)
            t = Ty(name, "cls", [Ty("", "seq", [e]) for e in es], 0, range(1, len(es) + 1))
            t.at, t.cls, t.nm = list(t.at), name, [nameof("dim " + d) for d in dims.split(", ")]
            return t
        return s.klass(depth)

    def klass(s, depth):
        r = s.rng
        n = r.choice([1, 2, 2, 3, 4, 5])
        mem = [s.make(r.randint(0, depth - 1)) for _ in range(n)]
        s.nc += 1
        name = "C%d_%d" % (s.fid, s.nc)
        kind = r.choice(["plain"] * 5 + ["ns", "templ", "conv"] + ([] if s.plain else ["hook"]))
        if kind == "ns": full = "space::" + name
        elif kind == "templ": full = "%s<%s, 3>" % (name, mem[0].cpp)
        else: full = name
        at = r.sample(range(1, n + 1), r.randint(1, n))
        if r.random() < .1 and not s.plain: at.append(at[0])        # one member under two names
        d = ["%sstruct %s {" % ("namespace space { " if kind == "ns" else "template <class T, int N> " if kind == "templ" else "", name)]
        decl = ["T" if kind == "templ" and j == 0 else m.cpp for j, m in enumerate(mem)]
        for j in range(n): d.append("    %s m%d{};" % (decl[j], j + 1))
        acc = {}
        for j in range(n):
            c = r.choice(["member"] * 3 + ["getset", "refget", "ref", "free"])
            if kind in ("templ", "hook"): c = "member"
            acc[j + 1] = c
            T = decl[j]
            if c == "getset": d.append("    %s get%d() const { return m%d; } void set%d(%s const& v) { m%d = v; }" % (T, j + 1, j + 1, j + 1, T, j + 1))
            if c == "refget": d.append("    %s const& get%d() const { return m%d; } void set%d(%s const& v) { m%d = v; }" % (T, j + 1, j + 1, j + 1, T, j + 1))
            if c == "ref": d.append("    %s const& get%d() const { return m%d; } %s& set%d() { return m%d; }" % (T, j + 1, j + 1, T, j + 1, j + 1))
        if kind == "conv": d.append("    operator %s() const { return 0; }" % r.choice(["double", "bool", "const char*", "int"]))
        d.append("};%s" % (" }" if kind == "ns" else ""))
        for j in range(n):
            if acc[j + 1] == "free":
                d.append("inline %s const& cr%d(const %s& c) { return c.m%d; } inline %s& r%d(%s& c) { return c.m%d; }" % (decl[j], j + 1, full, j + 1, decl[j], j + 1, full, j + 1))
        cls = "%s<T, N>" % name if kind == "templ" else full

        def ref(j):
            a = acc[j]
            if a == "member": return "&%s::m%d" % (cls, j) if kind != "templ" else "(&%s::m%d)" % (cls, j)
            if a in ("getset", "refget", "ref"): return "std::make_pair(&%s::get%d, &%s::set%d)" % (cls, j, cls, j)
            return "std::make_pair(static_cast<%s const&(*)(const %s&)>(cr%d), static_cast<%s&(*)(%s&)>(r%d))" % (decl[j - 1], full, j, decl[j - 1], full, j)
        if kind == "hook":
            t = Ty(full, "hook", mem)
            d.append("inline void PrintTo(const %s& x, std::ostream& ost) { ost << \"custom<\"; %s ost << \">\"; }" % (full, " ".join("VariableExport::exportVariable(ost, x.m%d); ost << \" \";" % (j + 1) for j in range(n))))
            d.append("inline void PrintTo(const %s& x) { printf(\"custom<\"); %s printf(\">\"); }" % (full, " ".join("VariableExport::exportVariable(x.m%d); printf(\" \");" % (j + 1) for j in range(n))))
        else:
            t = Ty(full, "cls", mem, 0, at)
            t.cls = full
            simple = all(acc[j] == "member" for j in at)
            style = r.choice(["ATTRIBUTE", "NAMED_ATTRIBUTE", "CUSTOM"]) if simple else "CUSTOM"
            if style == "ATTRIBUTE" and len(set(at)) < len(at): style = "CUSTOM"
            names = {"ATTRIBUTE": "m%d", "NAMED_ATTRIBUTE": r.choice(["the m%d", "m%d [m/s]", "n%d" if s.plain else "%d"]), "CUSTOM": r.choice(["c%d", "x, {%d}"])}[style]
            if style == "ATTRIBUTE": args = ", ".join("m%d" % j for j in at)
            elif style == "NAMED_ATTRIBUTE": args = ", ".join('"%s", m%d' % (names % j, j) for j in at)
            else: args = ", ".join('"%s", %s' % (names % j, ref(j)) for j in at)
            t.nm = [nameof(names % j) for j in at]
            which = r.choice(["", "_IO", "both"])
            other = r.sample(range(1, n + 1), r.randint(1, n))
            for wh in ([which] if which != "both" else ["_IO", "_ARITHMETIC"]):
                a = args if wh != "_ARITHMETIC" else ", ".join('"ar%d", %s' % (j, ref(j)) for j in other)
                st = style if wh != "_ARITHMETIC" else "CUSTOM"
                if kind == "templ": d.append("MAKE_%s_TEMPLATE_TRAIT%s((%s), (class T, int N), %s);" % (st, wh, cls, a))
                else: d.append("MAKE_%s_TRAIT%s(%s, %s);" % (st, wh, full, a))
            for q in range(r.choice([1, 2])):
                b = r.sample(range(1, n + 1), r.randint(1, n))
                nb = ["b%d%s" % (j, "abc"[q]) for j in b]
                if kind == "templ": tr = "makeTraits<%s>(%s)" % (full, ", ".join('"%s", &%s::m%d' % (x, full, j) for x, j in zip(nb, b)))
                else: tr = "makeTraits<%s>(%s)" % (full, ", ".join('"%s", %s' % (x, ref(j)) for x, j in zip(nb, b)))
                s.bindings.append((tr, {"c": full, "at": b, "nm": [nameof(x) for x in nb]}))
        d.append("template <> struct IO<%s> {" % full)
        d.append("    static std::string show(const %s& x) { return \"[\" + %s + \"]\"; }" % (full, ' + "," + '.join("::show(x.m%d)" % (j + 1) for j in range(n))))
        d.append("    static void put(%s& x, std::istream& in) { %s }\n};" % (full, " ".join("::put(x.m%d, in);" % (j + 1) for j in range(n))))
        s.defs += d
        return t


def nameof(s):
    return "h" + "".join(".%x" % ord(c) for c in s)


def nameof8(s):
    return "h" + "".join(".%x" % c for c in s.encode("utf8"))


def classes(t):
    r = {t.cls} if t.k == "cls" else set()
    for e in t.e: r |= classes(e)
    return r


class Family:
    pass


def family(rng, fid, ntypes, forced=()):
    f = Family()
    f.id = fid
    m = Maker(rng, fid)
    f.types = [g(m) for g in forced]
    seen = set()
    while len(f.types) < ntypes:
        t = m.make(rng.choice([0, 1, 1, 2, 2, 3]))
        if len(t.cpp) > 220 or t.cpp in seen: continue
        if len(words(t, value(rng, t, 3))) > 160: continue
        seen.add(t.cpp)
        f.types.append(t)
    f.defs = m.defs
    f.vals = [[value(rng, t, 3) for _ in range(4)] for t in f.types]
    f.vals = [[enlarge(rng, t, v, rng.choice([101, 129, 260])) if rng.random() < .12 else v for v in vs] for t, vs in zip(f.types, f.vals)]
    for k, t in enumerate(f.types):
        if t.k == "seq": f.vals[k][rng.randint(0, 3)] = []
        # views: attributes bound to the variable
        t.views = []
        own = [b for b in m.bindings if b[1]["c"] in classes(t)]
        if own:
            for j in range(rng.choice([1, 2, 3])):
                if j == 0:          # something for every class it consists of
                    b = [rng.choice([x for x in own if x[1]["c"] == c]) for c in sorted({x[1]["c"] for x in own})]
                else:
                    b = rng.sample(own, min(len(own), rng.choice([1, 1, 2, 3])))
                if rng.random() < .3: b += rng.sample(m.bindings, 1)
                rng.shuffle(b)
                t.views.append(b[:6])
        elif m.bindings and rng.random() < .2:
            t.views.append(rng.sample(m.bindings, 1))
    return f


def record(f):
    return {"types": [{"t": tree(t), "views": [[]] + [[b[1] for b in v] for v in t.views], "vals": len(f.vals[k])} for k, t in enumerate(f.types)]}


def emit(f):
    out = ['#include "explib.h"'] + f.defs
    out.append("struct H { Printed p;")
    for k, t in enumerate(f.types):
        out.append("    std::remove_const_t<%s> v%d%s;" % (t.cpp, k, "{}") if not t.cpp.startswith("char[") else "    char v%d%s{};" % (k, t.cpp[4:]))
        for w, v in enumerate(t.views):
            tr = " ".join("static const auto t%d = %s;" % (j, b[0]) for j, b in enumerate(v))
            a = ", ".join("t%d" % j for j in range(len(v)))
            out.append("    void bound%d_%d(Out o, bool direct) { %s auto b = bindTraits(v%d, %s); if (direct) o(v%d, b.tupTraits); else o(b); }" % (k, w + 2, tr, k, a, k))
    n = len(f.types)
    out.append("    std::string show(int k) { switch (k) {%s } return \"\"; }" % "".join(" case %d: return ::show(v%d);" % (k, k) for k in range(n)))
    out.append("    void put(int k, std::istream& in) { switch (k) {%s } }" % "".join(" case %d: ::put(v%d, in); break;" % (k, k) for k in range(n)))
    sw = ""
    for k, t in enumerate(f.types):
        sw += " case %d: o(v%d); break;" % (k * 10 + 1, k)
        for w in range(len(t.views)): sw += " case %d: bound%d_%d(o, direct); break;" % (k * 10 + w + 2, k, w + 2)
    out.append("    void print(int k, int w, bool direct, Out o) { switch (k * 10 + w) {%s default: refuse(\"view\"); } }\n};" % sw)
    out.append("int main() { auto* h = new H; std::string line; while (std::getline(std::cin, line)) { if (line.empty()) continue; std::istringstream in(line); std::string op, out; in >> op;")
    out.append("    if (op == \"new\") { h->p.os.str(\"\"); h->p.os.clear(); h->p.seen = 0; h->p.cap.say(\"{}\"); continue; }")
    out.append("    int k, w; in >> k; if (op == \"p\") h->put(k, in); else { std::string how; bool direct; in >> w >> how >> direct; h->print(k, w, direct, Out{h->p, how, out}); }")
    out.append("    h->p.cap.say(\"{\\\"v\\\":\" + h->show(k) + \",\\\"txt\\\":\\\"\" + hex(out) + \"\\\"}\"); }\n    delete h; }")
    return "\n".join(out)


def script(f, h):
    s = [("new", {"op": "new", "types": record(f)["types"]})]
    for r in h:
        k = r["k"] - 1
        if r["op"] == "p": s.append(("p %d %s" % (k, " ".join(words(f.types[k], f.vals[k][r["c"] - 1]))), {"op": "p", "k": r["k"]}))
        else: s.append(("x %d %d %s %d" % (k, r["w"], r["how"], r["c"] - 1), {"op": "x", "k": r["k"], "w": r["w"], "how": r["how"], "c": r["c"]}))
    return s


def finish(traces):
    """printed text as tokens"""
    for t in traces:
        for r in t:
            if "v" in r: r["v"] = canon(r["v"])
            if "txt" in r: r["tok"] = tokens(bytes.fromhex(r["txt"]))
    return traces
