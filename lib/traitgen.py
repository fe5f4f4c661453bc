"""Generates drivers with classes registered in Traits in many ways, from their descriptions."""
TYPES = ["int", "double", "string", "long", "short", "float", "vector<int>", "Nest"]
MACRO_KINDS = ["mem", "reffun", "memref", "getset", "free", "bind", "ncget"]
LOCAL_KINDS = MACRO_KINDS + ["lambda", "lamref"]
DIRECT = {"mem", "reffun", "memref", "lamref"}
CONST = {"mem", "reffun", "memref", "lamref", "getset", "free", "lambda", "bind"}


def make_class(rng, n=None, templ=None, regs=None, allmem=None):
    """A class: members, and the registrations (which traits, style, attributes)."""
    nm = rng.randint(1, 5) if n is None else n
    members, cell = [], 1
    for k in range(nm):
        t = rng.choice(TYPES if nm <= 6 else ["int", "double", "long"])
        ln = 3 if t == "Nest" else 1
        members.append({"name": "%s%d" % (rng.choice(["rho", "m", "v_", "Px", "name", "data"]), k), "type": t, "cell": cell, "len": ln})
        cell += ln
    templ = rng.random() < .35 if templ is None else templ
    c = {"members": members, "ncell": cell - 1, "templ": templ, "reg": {"D": [], "I": [], "A": [], "L": []}, "style": {}}
    regs = regs or (["L"] + [r for r in "DIA" if rng.random() < .55])
    for r in regs:
        style = "local" if r == "L" else rng.choice(["attribute", "named", "custom", "custom"])
        if allmem:
            style = allmem if r != "L" else "local"
        cnt = nm if n is not None else rng.randint(1, min(7, nm + 2))
        pool = members[:]
        rng.shuffle(pool)
        if cnt > len(pool):
            pool += [rng.choice(members) for _ in range(cnt - len(pool))]
        if style == "attribute":
            pool = members[:]
            rng.shuffle(pool)
            cnt = min(cnt, len(pool))
        atts = []
        for j in range(cnt):
            m = pool[j]
            kind = "mem" if style in ("attribute", "named") else rng.choice(LOCAL_KINDS if style == "local" else MACRO_KINDS)
            off = 0 if kind in DIRECT or rng.random() < .4 else rng.choice([1, -2, 7])
            name = m["name"] if style == "attribute" else rng.choice(["a%d", "density %d", "x.%d", "$%d", "long name of the attribute %d", "%d"]) % j
            if style != "attribute" and rng.random() < .05: name = rng.choice(["", "same", " "])
            atts.append({"name": name, "acc": kind, "cell": m["cell"], "len": m["len"], "off": off, "m": m["name"], "type": m["type"]})
        c["reg"][r] = atts
        c["style"][r] = style
    return c


def attribute_views(c):
    v = {}
    for t in "DIAL":
        a = c["reg"][t] or (c["reg"]["D"] if t in "IA" else [])
        if a:
            v[t] = a
    return v


def record(c):
    return {"ncell": c["ncell"], "reg": {t: [{k: a[k] for k in ("name", "acc", "cell", "len", "off")} for a in c["reg"][t]] for t in "DIAL"}}


def cstr(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def emit_class(c, cid, rng):
    """C++ source of one class and its harness."""
    C = "C%d" % cid
    tp = c["templ"]
    head = "template <class T, int N> " if tp else ""
    CT = "%s<T, N>" % C if tp else C          # inside of templates
    CI = "%s<int, %d>" % (C, cid) if tp else C  # the instance
    out, inner, free = [], [], []
    refs = {}
    for t in "DIAL":
        for j, a in enumerate(c["reg"][t]):
            u = "%s%d" % (t.lower(), j)
            m, k = a["m"], a["acc"]
            ty, off = a["type"], a["off"]
            byval = rng.random() < .4
            arg = ty if byval else "const %s&" % ty
            loc = t == "L"
            cls = CI if loc else CT
            fa = "" if not tp else ("<int, %d>" % cid if loc else "<T, N>")
            F = lambda f: "%s_%s%s" % (f, cid, u) + fa
            if k == "mem":
                e = "&%s::%s" % (cls, m)
            elif k == "reffun":
                free.append("%sconst %s& crf_%s%s(const %s& c) { return c.%s; } %s%s& rf_%s%s(%s& c) { return c.%s; }" % (head, ty, cid, u, CT, m, head, ty, cid, u, CT, m))
                e = "std::make_pair(%s, %s)" % (F("crf"), F("rf"))
            elif k == "memref":
                inner.append("const %s& x_%s() const { return %s; } %s& x_%s() { return %s; }" % (ty, u, m, ty, u, m))
                e = "std::make_pair(static_cast<const %s& (%s::*)() const>(&%s::x_%s), static_cast<%s& (%s::*)()>(&%s::x_%s))" % (ty, cls, cls, u, ty, cls, cls, u)
            elif k == "getset":
                inner.append("%s get_%s() const { return shift(%s, %d); } void set_%s(%s v) { %s = shift(v, %d); }" % (rng.choice([ty, "const " + ty]) if ty != "Nest" else ty, u, m, off, u, arg, m, -off))
                e = "std::make_pair(&%s::get_%s, &%s::set_%s)" % (cls, u, cls, u)
            elif k == "ncget":
                inner.append("%s nget_%s() { return shift(%s, %d); } void nset_%s(%s v) { %s = shift(v, %d); }" % (ty, u, m, off, u, arg, m, -off))
                e = "std::make_pair(&%s::nget_%s, &%s::nset_%s)" % (cls, u, cls, u)
            elif k == "free":
                free.append("%s%s fg_%s%s(const %s& c) { return shift(c.%s, %d); } %svoid fs_%s%s(%s& c, %s v) { c.%s = shift(v, %d); }" % (head, ty, cid, u, CT, m, off, head, cid, u, CT, arg, m, -off))
                e = "std::make_pair(%s, %s)" % (F("fg"), F("fs"))
            elif k == "bind":
                if rng.random() < .5:
                    free.append("%s%s bg_%s%s(const %s& c, int k) { return shift(c.%s, k); } %svoid bs_%s%s(%s& c, const %s& v, int k) { c.%s = shift(v, -k); }" % (head, ty, cid, u, CT, m, head, cid, u, CT, ty, m))
                    e = "std::make_pair(std::bind(%s, std::placeholders::_1, %d), std::bind(%s, std::placeholders::_1, std::placeholders::_2, %d))" % (F("bg"), off, F("bs"), off)
                else:
                    inner.append("%s bget_%s(int k) const { return shift(%s, k); } void bset_%s(const %s& v, int k) { %s = shift(v, -k); }" % (ty, u, m, u, ty, m))
                    e = "std::make_pair(std::bind(&%s::bget_%s, std::placeholders::_1, %d), std::bind(&%s::bset_%s, std::placeholders::_1, std::placeholders::_2, %d))" % (cls, u, off, cls, u, off)
            elif k == "lambda":
                e = "std::make_pair([](const %s& c) { return shift(c.%s, %d); }, [](%s& c, const %s& v) { c.%s = shift(v, %d); })" % (cls, m, off, cls, ty, m, -off)
            elif k == "lamref":
                e = "std::make_pair([](const %s& c) -> const %s& { return c.%s; }, [](%s& c) -> %s& { return c.%s; })" % (cls, ty, m, cls, ty, m)
            refs[t, j] = e
    out.append("%sstruct %s {" % (head, C))
    out += ["    %s %s{};" % (m["type"], m["name"]) for m in c["members"]]
    out += ["    " + x for x in inner] + ["};"] + free
    for t in "DIA":
        atts = c["reg"][t]
        if not atts:
            continue
        suf = {"D": "", "I": "_IO", "A": "_ARITHMETIC"}[t]
        st = c["style"][t]
        if st == "attribute":
            args = ", ".join(a["m"] for a in atts); nm = "MAKE_ATTRIBUTE%s_TRAIT%s"
        elif st == "named":
            args = ", ".join("%s, %s" % (cstr(a["name"]), a["m"]) for a in atts); nm = "MAKE_NAMED_ATTRIBUTE%s_TRAIT%s"
        else:
            args = ", ".join("%s, %s" % (cstr(a["name"]), "(%s)" % refs[t, j] if tp else refs[t, j]) for j, a in enumerate(atts)); nm = "MAKE_CUSTOM%s_TRAIT%s"
        nm = nm % ("_TEMPLATE" if tp else "", suf)
        out.append("%s(%s, %s);" % (nm, ("(%s), (class T, int N)" % CT) if tp else C, args))
    views = attribute_views(c)
    out.append("struct H%d : Base {\n    using C = %s; C obj[2];" % (cid, CI))
    for t in views:
        if t == "L":
            out.append("    static const auto& trL() { static const auto t = makeTraits<C>(%s); return t; }" % ", ".join("%s, %s" % (cstr(a["name"]), refs["L", j]) for j, a in enumerate(views[t])))
        else:
            out.append("    static auto tr%s() { return %s<C>::getTraits(); }" % (t, {"D": "DefaultTraits", "I": "DefaultIOTraits", "A": "DefaultArithmeticTraits"}[t]))
    out.append("    V cells(const C& c) { V v; %s return v; }" % " ".join("append(v, tov(c.%s));" % m["name"] for m in c["members"]))
    out.append("    void poke(C& c, int k, int x) { switch (k) {")
    for m in c["members"]:
        for q in range(m["len"]):
            out.append("        case %d: { V v = tov(c.%s); v[%d] = x; fromv(c.%s, v); break; }" % (m["cell"] + q, m["name"], q, m["name"]))
    out.append("        default: refuse(\"cell\"); } }")
    for t, atts in views.items():
        out.append("    string show%s(C& c) { const auto& tr = tr%s(); vector<string> vals, names; set<string> s;" % (t, t))
        for j, a in enumerate(atts):
            l = "s.clear(); readBase<%d>(s, c, tr);" % j
            if a["acc"] in CONST: l += " readConst<%d>(s, c, tr);" % j
            if a["acc"] in DIRECT: l += " readDirect<%d>(s, c, tr);" % j
            if a["acc"] == "mem": l += " readMem<%d>(s, c, tr);" % j
            if a["acc"] in DIRECT and t == "A": l += " readFree<%d>(s, c);" % j
            if a["acc"] in DIRECT and t == "A" and a["type"] == "Nest": l += " readPath<%d>(s, c);" % j
            out.append("        %s vals.push_back(jarr(s)); names.push_back(jstr(tr.template getName<%d>()));" % (l, j))
        out.append("        return \"{\\\"names\\\":\" + jarr(names) + \",\\\"vals\\\":\" + jarr(vals) + \",\\\"app\\\":\" + collected(c, tr) + \"}\"; }")
        out.append("    bool write%s(C& c, int j, int w, const V& v) { const auto& tr = tr%s(); switch (j) {" % (t, t))
        for j, a in enumerate(atts):
            mkx = "auto x = mk<%s>(v);" % a["type"]
            l = "writeBase<%d>(w, c, tr, x)" % j
            if a["acc"] in DIRECT: l += " || writeDirect<%d>(w, c, tr, x)" % j
            if a["acc"] in DIRECT and t == "A": l += " || writeFree<%d>(w, c, x)" % j
            out.append("        case %d: { %s return %s; }" % (j + 1, mkx, l))
        out.append("        } return false; }")
    # nested access by a path of the arithmetic traits
    out.append("    bool path(C& c, int j, int k, int w, int v) { switch (j) {")
    for j, a in enumerate(views.get("A", [])):
        if a["acc"] in DIRECT and a["type"] == "Nest":
            out.append("        case %d: return writePath<%d>(c, k, w, v);" % (j + 1, j))
    out.append("        } return false; }")
    out.append("    string dump() { vector<string> vs;")
    for t, atts in views.items():
        siz = "decay_t<decltype(tr%s())>::size()" % t
        chk = "" if t == "L" else " + (%s<C>::size() == %s ? 0u : 1000u)" % ({"D": "DefaultTraits", "I": "DefaultIOTraits", "A": "DefaultArithmeticTraits"}[t], siz)
        out.append("        { using TR = decay_t<decltype(tr%s())>; vs.push_back(string(\"{\\\"t\\\":\\\"%s\\\",\\\"size\\\":\") + to_string(TR::size()%s) + \",\\\"direct\\\":\" + directs<TR>(make_integer_sequence<unsigned, %d>{}) + \",\\\"const\\\":\" + consts<TR>(make_integer_sequence<unsigned, %d>{}) + \",\\\"obj\\\":[\" + show%s(obj[0]) + \",\" + show%s(obj[1]) + \"]}\"); }" % (t, t, chk, len(atts), len(atts), t, t))
    out.append("        return \"\\\"cells\\\":[\" + jarr(cells(obj[0])) + \",\" + jarr(cells(obj[1])) + \"],\\\"views\\\":\" + jarr(vs); }")
    out.append("    string run(const string& op, istream& in) override { string extra;")
    out.append("        auto rd = [&]{ int k; if (!(in >> k)) refuse(\"args\"); return k; };")
    out.append("        if (op == \"new\") { for (int o = 0; o < 2; o++) for (int k = 1; k <= %d; k++) poke(obj[o], k, (o + 2) * k);" % c["ncell"])
    out.append("            extra = string(\"\\\"has\\\":{\\\"D\\\":\") + (HasDefaultTraits<C>::value ? \"true\" : \"false\") + \",\\\"I\\\":\" + (HasDefaultIOTraits<C>::value ? \"true\" : \"false\") + \",\\\"A\\\":\" + (HasDefaultArithmeticTraits<C>::value ? \"true\" : \"false\") + \"},\"; }")
    out.append("        else if (op == \"set\") { int o = rd() - 1; string t; in >> t; int j = rd(), w = rd(); V v; int x; while (in >> x) v.push_back(x); bool ok = false;")
    for t in views:
        out.append("            if (t == \"%s\") ok = write%s(obj[o], j, w, v);" % (t, t))
    out.append("            if (!ok) refuse(\"way\"); }")
    out.append("        else if (op == \"path\") { int o = rd() - 1, j = rd(), k = rd(), w = rd(); if (!path(obj[o], j, k, w, rd())) refuse(\"path\"); }")
    out.append("        else if (op == \"poke\") { int o = rd() - 1, k = rd(); poke(obj[o], k, rd()); }")
    out.append("        else if (op == \"app\") { int o = rd() - 1; string t; in >> t; int k = rd();")
    for t in views:
        out.append("            if (t == \"%s\") addAll(obj[o], tr%s(), k);" % (t, t))
    out.append("        }\n        else if (op == \"copy\") { int o = rd() - 1; obj[o] = obj[1 - o]; }\n        else refuse(op);")
    out.append("        return \"{\" + extra + dump() + \"}\"; }\n};")
    return "\n".join(out)


def emit_driver(classes, rng):
    src = ['#include "traitlib.h"']
    for k, c in enumerate(classes):
        src.append(emit_class(c, k, rng))
    src.append("int main() { unique_ptr<Base> b; string line; while (getline(cin, line)) { if (line.empty()) continue; istringstream in(line); string op; in >> op;")
    src.append("    if (op == \"new\") { int k; in >> k; switch (k) {")
    for k in range(len(classes)):
        src.append("        case %d: b.reset(new H%d); break;" % (k, k))
    src.append("        default: refuse(\"class\"); } }\n    cout << b->run(op, in) << \"\\n\"; } }")
    return "\n".join(src) + "\n"


# ------------------------------------------------------------------ selection among bound traits
SEL = {"S1": {"D": ["S1Dx", "S1Dy"], "L1": ["S1L1x"], "L2": ["S1L2y", "S1L2x"]},
       "S2": {"D": ["S2Dx"], "I": ["S2Iy"], "A": ["S2Ax", "S2Ay"], "L1": ["S2L1y", "S2L1x", "S2L1z"]},
       "S3": {"L1": ["S3L1x"]}}
BOUND = [("S1", "L1"), ("S1", "L2"), ("S2", "L1"), ("S3", "L1")]


def sel_default(cl, which):
    d = SEL[cl]
    return which if which in d else "D" if "D" in d else None


def emit_sel(combos):
    out = ['#include "traitlib.h"']
    for s in SEL:
        out.append("struct %s { int x = 1; double y = 2; long z = 3; };" % s)
        for t, n in SEL[s].items():
            args = ", ".join('"%s", &%s::%s' % (a, s, a[-1]) for a in n)
            if t in "DIA":
                out.append("MAKE_CUSTOM_TRAIT%s(%s, %s);" % ({"D": "", "I": "_IO", "A": "_ARITHMETIC"}[t], s, args))
            else:
                out.append("static const auto %s%s = makeTraits<%s>(%s);" % (s, t, s, args))
    out.append("int main() {")
    for k, (b, cl, which) in enumerate(combos):
        own = cl if k % 2 else "S1"
        d = {"I": "DefaultIOTraits", "A": "DefaultArithmeticTraits"}[which]
        if b:
            out.append("    { %s o; auto b = bindTraits(o, %s); const auto& t = b.tupTraits;" % (own, ", ".join("%s%s" % x for x in b)))
        else:
            out.append("    { %s o; struct { %s& object; } b{o}; tuple<> t;" % (own, own))
        types = "".join(", const decltype(%s%s)&" % x if k % 3 else ", decay_t<decltype(%s%s)>" % x for x in b)
        out.append("      using Sel = %s;" % ("SelectTraits<%s, 0, %s%s>" % (cl, d, types) if k % 2 == 0 else "SelectTraitsWith%sDefault<%s%s>" % ({"I": "IO", "A": "Arithmetic"}[which], cl, types)))
        same = " && ".join(["&b.object == &o"] + ["&get<%d>(t) == &%s%s" % (q, x[0], x[1]) for q, x in enumerate(b)])
        out.append("      cout << \"{\\\"valid\\\":\" << (Sel::valid ? \"true\" : \"false\") << \",\\\"own\\\":\" << (%s ? \"true\" : \"false\") << \",\\\"name\\\":\" << jstr(selName<Sel>(t)) << \",\\\"shown\\\":\" << selShown<Sel>(t) << \"}\\n\"; }" % same)
    out.append("}")
    return "\n".join(out) + "\n"
