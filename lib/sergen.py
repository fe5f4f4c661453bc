"""Generates families of serializable types with their values, and the drivers for them."""
import struct

LEAVES = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "float", "double", "long double", "Level", "Plain", "wchar_t", "char16_t"]
BITS = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32, "long": 64, "unsigned long": 64, "long long": 64, "wchar_t": 32, "char16_t": 16}
STRINGS = ["std::string", "std::string", "std::wstring", "std::u16string"]


class Ty:
    """cpp: the type; k, e, n, at: as in SerTypes; views: other attributes bound (list of (makeTraits text, tree))"""
    def __init__(s, cpp, k, e=(), n=0, at=()):
        s.cpp, s.k, s.e, s.n, s.at = cpp, k, list(e), n, list(at)
        s.views = []
        s.leafkind = None


def tree(t):
    return {"k": t.k, "e": [tree(x) for x in t.e], "n": t.n, "at": t.at}


def leaf(cpp):
    t = Ty(cpp, "leaf")
    t.leafkind = cpp
    return t


def hexf(x):
    return float(x).hex()


def value(rng, t, size):
    """a value: leaves are words of text"""
    if t.k == "leaf":
        c = t.leafkind
        if c == "bool": return str(rng.randint(0, 1))
        if c == "Level": return rng.choice(["-3", "0", "700", "42"])
        if c == "Plain": return rng.choice(["0", "1", "1000000"])
        if c in BITS:
            b = BITS[c]
            uns = c.startswith("unsigned") or c == "char16_t"
            lo, hi = (0, 2 ** b - 1) if uns else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            return str(rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -99), 99)]))
        if c == "float":
            return rng.choice(["-0.0", "inf", "nan", "0x1.fffffep+127", "0x1p-149", hexf(struct.unpack("f", struct.pack("f", rng.uniform(-9, 9)))[0])])
        if c == "double":
            return rng.choice(["-0.0", "-inf", "0x1.fffffffffffffp+1023", "0x1p-1074", hexf(rng.uniform(-9, 9)), hexf(rng.gauss(0, 1) * 1e30)])
        if c == "long double":
            return rng.choice(["-0.0", "0x1p-16445", "0x%x.%xp-7" % (rng.randint(1, 7), rng.getrandbits(56)), hexf(rng.uniform(-9, 9))])
        n = rng.choice([0, 1, 2, 5, 17, 40]) if size > 1 else rng.randint(0, 2)
        top = {"std::string": 255, "std::wstring": 0x10ffff, "std::u16string": 65535}[c]
        return "h" + "".join(".%x" % rng.choice([0, 32, 34, 92, 97, 255, rng.randint(0, top)]) for _ in range(n))
    if t.k == "seq":
        n = rng.choice([0, 1, 2, 3]) if size > 1 else rng.choice([0, 1, 1, 2])
        return [value(rng, t.e[0], size - 1) for _ in range(n)]
    if t.k == "arr":
        return [value(rng, t.e[0], size - 1) for _ in range(t.n)]
    return [value(rng, x, size) for x in t.e]


def words(t, v):
    if t.k in ("leaf", "any"): return [v]
    if t.k in ("seq", "arr"):
        return [str(len(v))] + [w for x in v for w in words(t.e[0], x)]
    return [w for x, y in zip(t.e, v) for w in words(x, y)]


def enlarge(rng, t, v, n):
    """a value with many elements or characters, where the type admits them"""
    if t.k == "leaf" and isinstance(v, str) and t.leafkind in ("std::string", "std::wstring", "std::u16string"):
        return "h" + "".join(".%x" % rng.randint(1, 255) for _ in range(n))
    if t.k == "seq" and (t.e[0].k == "leaf" or rng.random() < .3 and n < 1000):
        m = n if t.e[0].k == "leaf" and t.e[0].leafkind in BITS or n < 1000 else n % 300
        return v + [value(rng, t.e[0], 1) for _ in range(m - len(v))]
    if t.k == "seq": return [enlarge(rng, t.e[0], x, n) if j == 0 else x for j, x in enumerate(v)]
    if t.k == "arr": return [enlarge(rng, t.e[0], x, n) if j == 0 else x for j, x in enumerate(v)]
    if t.k == "leaf" or not t.e: return v
    j = rng.randrange(len(t.e))
    return [enlarge(rng, t.e[i], x, n) if i == j else x for i, x in enumerate(v)]


class Maker:
    def __init__(s, rng, fid):
        s.rng, s.fid, s.defs, s.nc = rng, fid, [], 0

    def key(s, hashed=False):
        r = s.rng
        if hashed: return leaf(r.choice(["int", "char", "unsigned long", "std::string", "Level", "bool", "short"]))
        x = r.random()
        if x < .6: return leaf(r.choice([c for c in LEAVES if c not in ("float", "double", "long double")] + STRINGS))
        a, b = s.key(), leaf(r.choice(["int", "std::string", "char"]))
        if x < .75: return Ty("std::pair<%s, %s>" % (a.cpp, b.cpp), "tup", [a, b])
        if x < .9: return Ty("std::vector<%s>" % a.cpp, "seq", [a])
        return Ty("std::set<%s>" % a.cpp, "seq", [a])

    def make(s, depth, cls=True):
        r = s.rng
        if depth == 0:
            return leaf(r.choice(LEAVES if r.random() < .75 else STRINGS))
        x = r.random()
        if x < .26:
            c = r.choice(["vector", "vector", "deque", "list", "valarray"])
            e = s.make(r.randint(0, depth - 1))
            t = Ty("std::%s<%s>" % (c, e.cpp), "seq", [e])
            if c in ("vector", "deque", "valarray"):
                t.views = [(tr, lambda t2=t, v=v: dict(tree(t2), e=[v()])) for tr, v in e.views]
            return t
        if x < .38:
            n = r.choice([0, 1, 2, 3, 4])
            e = s.make(r.randint(0, depth - 1))
            t = Ty("std::array<%s, %d>" % (e.cpp, n), "arr", [e], n)
            t.views = [(tr, lambda t2=t, v=v: dict(tree(t2), e=[v()])) for tr, v in e.views]
            return t
        if x < .45:
            n = r.choice([1, 2, 3, 4])
            e = leaf(r.choice(["double", "float", "int", "long", "long double"]))
            return Ty("%s<%d, %s>" % (r.choice(["Vector", "Vertex"]), n, e.cpp), "arr", [e], n)
        if x < .53:
            h = r.random() < .4
            e = s.key(h)
            return Ty("std::%s%s<%s>" % ("unordered_" if h else "", r.choice(["set", "multiset"]), e.cpp), "seq", [e])
        if x < .65:
            h = r.random() < .4
            k, e = s.key(h), s.make(r.randint(0, depth - 1))
            return Ty("std::%s%s<%s, %s>" % ("unordered_" if h else "", r.choice(["map", "map", "multimap"]), k.cpp, e.cpp), "seq", [Ty("", "tup", [k, e])])
        if x < .77:
            n = r.choice([1, 2, 2, 3, 4])
            e = [s.make(r.randint(0, depth - 1)) for _ in range(n)]
            if n == 2 and r.random() < .7: return Ty("std::pair<%s, %s>" % (e[0].cpp, e[1].cpp), "tup", e)
            return Ty("std::tuple<%s>" % ", ".join(x.cpp for x in e), "tup", e)
        if x < .84:
            if r.random() < .6:
                e = s.make(r.randint(0, depth - 1))
                while e.cpp == "bool" or e.cpp.startswith(("MeshData", "std::tuple<")): e = s.make(r.randint(0, depth - 1))
                dims = r.choice(["0", "3", "3, 0", "2, 1, 0", "0, 0", "1, 3, 12"])
                return Ty("MeshDataContainer<%s, %s>" % (e.cpp, dims), "tup", [Ty("", "seq", [e]) for _ in dims.split(",")])
            n = r.randint(1, 3)
            es = []
            while len(es) < n:
                e = s.make(r.randint(0, depth - 1))
                if e.cpp != "bool" and not e.cpp.startswith("MeshData"): es.append(e)
            return Ty("MeshDataContainer<std::tuple<%s>, %s>" % (", ".join(e.cpp for e in es), ", ".join(str(r.choice([0, 1, 2, 3])) for _ in es)), "tup", [Ty("", "seq", [e]) for e in es])
        return s.klass(depth) if cls else s.make(depth)

    def klass(s, depth):
        r = s.rng
        n = r.choice([1, 2, 2, 3, 4, 5])
        mem = [s.make(r.randint(0, depth - 1)) for _ in range(n)]
        s.nc += 1
        name = "C%d_%d" % (s.fid, s.nc)
        kind = r.choice(["plain"] * 5 + ["ns", "templ", "conv", "container", "hook", "pod"])
        if kind == "pod":
            mem = [leaf(r.choice(LEAVES)) for _ in range(n)]
        if kind == "ns": full = "space::" + name
        elif kind == "templ": full = "%s<%s, 3>" % (name, mem[0].cpp)
        else: full = name
        at = r.sample(range(1, n + 1), r.randint(1, n))
        d = []
        d.append("%sstruct %s {" % ("namespace space { " if kind == "ns" else "template <class T, int N> " if kind == "templ" else "", name))
        decl = ["T" if kind == "templ" and j == 0 else m.cpp for j, m in enumerate(mem)]
        for j, m in enumerate(mem):
            d.append("    %s m%d{};" % (decl[j], j + 1))
        acc = {}
        for j in range(n):
            c = r.choice(["member"] * 3 + ["getset", "refget", "ref", "free"])
            if kind in ("templ", "pod", "hook"): c = "member"
            acc[j + 1] = c
            T = decl[j]
            if c == "getset": d.append("    %s get%d() const { return m%d; } void set%d(const %s& v) { m%d = v; }" % (T, j + 1, j + 1, j + 1, T, j + 1))
            if c == "refget": d.append("    const %s& get%d() const { return m%d; } void set%d(const %s& v) { m%d = v; }" % (T, j + 1, j + 1, j + 1, T, j + 1))
            if c == "ref": d.append("    const %s& get%d() const { return m%d; } %s& set%d() { return m%d; }" % (T, j + 1, j + 1, T, j + 1, j + 1))
        if kind == "conv": d.append("    operator %s() const { return 0; }" % r.choice(["double", "bool", "const char*", "int"]))
        if kind == "container": d.append("    const int* begin() const { return nullptr; } const int* end() const { return nullptr; } size_t size() const { return 0; }")
        d.append("};%s" % (" }" if kind == "ns" else ""))
        for j in range(n):
            if acc[j + 1] == "free":
                d.append("inline const %s& cr%d(const %s& c) { return c.m%d; } inline %s& r%d(%s& c) { return c.m%d; }" % (decl[j], j + 1, full, j + 1, decl[j], j + 1, full, j + 1))
        cls = "%s<T, N>" % name if kind == "templ" else full

        def ref(j):
            a = acc[j]
            if a == "member": return "&%s::m%d" % (cls, j) if kind != "templ" else "(&%s::m%d)" % (cls, j)
            if a in ("getset", "refget"): return "std::make_pair(&%s::get%d, &%s::set%d)" % (cls, j, cls, j)
            if a == "ref": return "std::make_pair(&%s::get%d, &%s::set%d)" % (cls, j, cls, j)
            return "std::make_pair(static_cast<const %s&(*)(const %s&)>(cr%d), static_cast<%s&(*)(%s&)>(r%d))" % (decl[j - 1], full, j, decl[j - 1], full, j)
        t = Ty(full, "cls", mem, 0, at)
        if kind == "pod":
            t.at = list(range(1, n + 1))        # copied as a whole inside sequences; written by attributes alone
            d.append("MAKE_ATTRIBUTE_TRAIT(%s, %s);" % (full, ", ".join("m%d" % j for j in t.at)))
            d.append("namespace Interface { template <> struct Compact<%s, void> : public std::true_type {}; }" % full)
        elif kind == "hook":
            d.append("inline void BinarySerialize(BinarySerializer::ByteContainer& c, const %s& x) { %s }" % (full, " ".join("BinarySerializer::addNext(c, x.m%d);" % j for j in at)))
            d.append("inline void BinaryDeserialize(BinarySerializer::ByteContainerIterator& it, %s& x) { %s }" % (full, " ".join("BinarySerializer::readNext(it, x.m%d);" % j for j in at)))
        else:
            simple = all(acc[j] == "member" for j in at)
            if simple and r.random() < .6:
                style = r.choice(["ATTRIBUTE", "NAMED_ATTRIBUTE"])
                args = ", ".join(("m%d" if style == "ATTRIBUTE" else '"the m%d", m%%d' % j) % j for j in at)
            else:
                style = "CUSTOM"
                args = ", ".join('"m%d", %s' % (j, ref(j)) for j in at)
            which = r.choice(["", "_ARITHMETIC", "both"])
            other = r.sample(range(1, n + 1), r.randint(1, n))
            for wh in ([which] if which != "both" else ["_IO", "_ARITHMETIC"]):
                a = args if wh != "_IO" else ", ".join('"io%d", %s' % (j, ref(j)) for j in other)
                st = style if wh != "_IO" else "CUSTOM"
                if kind == "templ": d.append("MAKE_%s_TEMPLATE_TRAIT%s((%s), (class T, int N), %s);" % (st, wh, cls, a))
                else: d.append("MAKE_%s_TRAIT%s(%s, %s);" % (st, wh, full, a))
            for _ in range(r.choice([0, 1, 2])):
                b = r.sample(range(1, n + 1), r.randint(1, n))
                if kind == "templ": tr = "makeTraits<%s>(%s)" % (full, ", ".join('"b%d", &%s::m%d' % (j, full, j) for j in b))
                else: tr = "makeTraits<%s>(%s)" % (full, ", ".join('"b%d", %s' % (j, ref(j)) for j in b))
                t.views.append((tr, lambda t2=t, b=b: dict(tree(t2), at=b)))
        d.append("template <> struct IO<%s> {" % full)
        d.append("    static std::string show(const %s& x) { return \"[\" + %s + \"]\"; }" % (full, ' + "," + '.join("::show(x.m%d)" % (j + 1) for j in range(n))))
        d.append("    static void put(%s& x, std::istream& in) { %s }\n};" % (full, " ".join("::put(x.m%d, in);" % (j + 1) for j in range(n))))
        s.defs += d
        return t


class Family:
    pass


def family(rng, fid, ntypes, forced=()):
    f = Family()
    f.id = fid
    m = Maker(rng, fid)
    f.types = []
    seen = set()
    for g in forced:
        f.types.append(g(m))
    while len(f.types) < ntypes:
        t = m.make(rng.choice([0, 1, 1, 2, 2, 3]))
        if len(t.cpp) > 220 or t.cpp in seen: continue
        if len(words(t, value(rng, t, 3))) > 160: continue
        seen.add(t.cpp)
        f.types.append(t)
    f.defs = m.defs
    f.vals = [[value(rng, t, 3) for _ in range(5)] for t in f.types]
    for k, t in enumerate(f.types):
        if t.k == "seq": f.vals[k][rng.randint(0, 1)] = []
    # what is written really: some values are large (generation does not depend on it)
    f.real = [[enlarge(rng, t, v, rng.choice([129, 260, 300])) if rng.random() < .15 else v for v in f.vals[k]] for k, t in enumerate(f.types)]
    f.huge = [[enlarge(rng, t, v, 66000) if j == 0 else v for j, v in enumerate(f.vals[k])] for k, t in enumerate(f.types)]
    f.groups = []
    slots = [[k, q] for k in range(1, len(f.types) + 1) for q in (1, 2)]
    for n in (2, 2, 3, 4):
        f.groups.append(rng.sample(slots, min(n, len(slots))))
    return f


def record(f):
    return {"types": [{"views": [tree(t)] + [v() for _, v in t.views], "vals": f.vals[k]} for k, t in enumerate(f.types)], "groups": f.groups}


def emit(f):
    out = ['#include "serlib.h"'] + f.defs
    out.append("struct H : Base {")
    for k, t in enumerate(f.types):
        out.append("    using T%d = %s; T%d v%d[2]{};" % (k, t.cpp, k, k))
        for w, (tr, _) in enumerate(t.views):
            out.append("    template <class F> static void bound%d_%d(T%d& x, F f) { static const auto traits = %s; auto b = bindTraits(x, traits); f(b); }" % (k, w + 2, k, tr))
    n = len(f.types)
    out.append('    std::string vars() override { return std::string("[") + %s + "]"; }' % ' + "," + '.join('"[" + ::show(v%d[0]) + "," + ::show(v%d[1]) + "]"' % (k, k) for k in range(n)))
    out.append("    void put(int k, int q, std::istream& in) override { switch (k) {%s } }" % "".join(" case %d: ::put(v%d[q], in); break;" % (k, k) for k in range(n)))

    def sw(call):
        o = []
        for k, t in enumerate(f.types):
            o.append(" case %d: %s(v%d[q]); break;" % (k * 10 + 1, call, k))
            for w in range(len(t.views)):
                o.append(" case %d: bound%d_%d(v%d[q], %s); break;" % (k * 10 + w + 2, k, w + 2, k, call))
        return "switch (k * 10 + w) {%s default: refuse(\"view\"); }" % "".join(o)
    out.append("    void write(int k, int q, int w, const std::string& how) override { Write c{s, how}; %s }" % sw("c"))
    ret = "".join(" case %d: v%d[q] = s.read<T%d>(); return;" % (k, k, k) for k in range(n))
    out.append("    void read(int k, int q, int w, const std::string& how) override { if (how == \"ret\") switch (k) {%s } Read c{s, how}; %s }" % (ret, sw("c")))
    out.append("    void add(int k, int q, int w, BinarySerializer::ByteContainer& d) override { Add c{d}; %s }" % sw("c"))
    out.append("    void next(int k, int q, int w, BinarySerializer::ByteContainerIterator& it) override { Next c{it}; %s }" % sw("c"))
    gs = ""
    for g, sl in enumerate(f.groups):
        a = ", ".join("v%d[%d]" % (k - 1, q - 1) for k, q in sl)
        gs += " case %d: if (write) s.write(%s); else s.read(%s); break;" % (g, a, a)
    out.append("    void group(int g, bool write) override { switch (g) {%s } }\n};" % gs)
    out.append("int main() { std::unique_ptr<H> h; std::string line; while (std::getline(std::cin, line)) { if (line.empty()) continue; std::istringstream in(line); std::string op; in >> op;")
    out.append("    if (op == \"new\") { h.reset(new H); %s std::cout << h->reply() << \"\\n\"; }" % " ".join("::put(h->v%d[0], in); ::put(h->v%d[1], in);" % (k, k) for k in range(n)))
    out.append("    else std::cout << h->exec(op, in) << \"\\n\"; } }")
    return "\n".join(out)


def script(f, h, huge=False):
    """commands and records of a history; huge: with a huge value of the variable used first"""
    big = h[0]["k"] - 1 if huge else -1
    vals = [f.huge[k] if k == big else f.vals[k] if huge else f.real[k] for k in range(len(f.types))]
    new = " ".join(w for k, t in enumerate(f.types) for q in (0, 1) for w in words(t, vals[k][q]))
    s = [("new " + new, {"op": "new", "types": [{"views": x["views"]} for x in record(f)["types"]]})]
    for r in h:
        k, q = r["k"] - 1, r["q"] - 1
        b = {"op": r["op"], "k": r["k"], "q": r["q"], "w": r["w"], "how": r["how"]}
        if r["op"] == "p": c = "p %d %d %s" % (k, q, " ".join(words(f.types[k], vals[k][r["c"] - 1])))
        elif r["op"] in "wr": c = "%s %d %d %d %s" % (r["op"], k, q, r["w"], r["how"])
        elif r["op"] == "c": c = "c %d %d %d" % (k, q, r["w"])
        else:
            c = "%s %d" % (r["op"], r["c"] - 1)
            b["g"] = f.groups[r["c"] - 1]
        s.append((c, b))
    return s
