"""Generates drivers that log variables with all loggers, and reads the logs."""
import json, os, re, subprocess
import expgen as eg
from expgen import Ty, leaf, words

LOGGERS = ["json", "json", "html", "html", "console", "stdio", "message"]


class Family:
    pass


def family(rng, fid, ntypes, nsites, quiet=False):
    f = Family()
    f.id, f.quiet = fid, quiet
    m = eg.Maker(rng, fid, plain=True)
    f.types = [leaf(rng.choice(["int", "bool", "double"])), leaf(rng.choice(["std::string", "const char*", "char[24]", "char"])), m.klass(2)]
    while len(f.types) < ntypes:
        t = m.make(rng.choice([0, 1, 1, 2, 2]))
        if len(t.cpp) > 200 or len(words(t, eg.value(rng, t, 3, True))) > 60: continue
        f.types.append(t)
    f.defs = m.defs
    f.vals = [[eg.value(rng, t, 2, True) for _ in range(3)] for t in f.types]
    f.vals = [[eg.enlarge(rng, t, v, rng.choice([70, 140, 260]), True) if rng.random() < .12 else v for v in vs] for t, vs in zip(f.types, f.vals)]
    f.sites = []
    for s in range(nsites):
        n = [1, 2, 3, [12, 40, 23, 31][fid % 4]][s] if s < 4 else rng.choice([1, 1, 2, 3, 5, 8])
        args = []
        for _ in range(n):
            k = rng.randrange(ntypes)
            form = rng.choice(["v%d"] * 3 + ["(v%d)", "*&v%d", 'pick("a", v%d)', "pick('x', v%d)", 'pick("b\\\\n", v%d)', "pick(1 < 2, v%d)", "pick(\"it's\", v%d)", "(0, v%d)"])
            args.append((form % k, k))
        file = rng.choice(["main.cpp", "/usr/src/x y/main.cpp", "sub/deep/f.hpp", "dir\\sub\\win.cpp", "a\\b\\", "it's/x.h"] if s > 1 else ["\\\\host\\new\\\\\\win.cpp"] if s else ["/usr/src/x y/main.cpp"])
        f.sites.append({"line": rng.choice([1, 7, 77, 1203, 45000]), "file": file, "args": args})
    return f


def record(f):
    return {"quiet": f.quiet, "types": [{"t": eg.tree(t), "vals": 3} for t in f.types],
            "sites": [{"line": str(s["line"]), "file": eg.nameof(s["file"]), "slash": "/" in s["file"], "args": [{"k": k + 1, "expr": eg.nameof(e), "p": e.count("pick")} for e, k in s["args"]]} for s in f.sites]}


def cstr(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


def emit(f):
    out = ['#include "loglib.h"'] + f.defs
    for k, t in enumerate(f.types):
        out.append("static %s v%d%s;" % (t.cpp, k, "{}") if not t.cpp.startswith("char[") else "static char v%d%s{};" % (k, t.cpp[4:]))
    out.append("void putVar(int k, std::istream& in) { switch (k) {%s } }" % "".join(" case %d: ::put(v%d, in); break;" % (k, k) for k in range(len(f.types))))
    out.append("void putAll(std::istream& in) { for (int k = 0; k < %d; k++) putVar(k, in); }" % len(f.types))
    out.append('std::string show() { return std::string("[") + %s + "]"; }' % ' + "," + '.join("::show(v%d)" % k for k in range(len(f.types))))
    calls = []
    for j, s in enumerate(f.sites):
        args = ", ".join(e for e, _ in s["args"])
        for L, mac in ((1, "DBGVAR_JSON"), (3, "DBGVAR_HTML"), (5, "DBGVAR"), (6, "DBGVAR_STDIO"), (7, "DBGMSG"), (8, "DBGTRY")):
            out.append("#line %d %s" % (s["line"], cstr(s["file"])))
            out.append("static void s%d_%d_1() { %s(%s); }" % (j, L, mac, args if L < 8 else "use(" + args + ")"))
            calls.append((L, j, 1, "s%d_%d_1();" % (j, L)))
            if L == 8 and not f.quiet:
                out.append("#line %d %s" % (s["line"], cstr(s["file"])))
                out.append("static void s%d_8_2() { DBGTRY(use(%s); throw std::out_of_range(\"reason %d\")); }" % (j, args, j))
                calls.append((8, j, 2, "s%d_8_2();" % j))
            if L > 6: continue
            cond = mac.replace("DBGVAR", "DBGVARCOND")
            out.append("#line %d %s" % (s["line"], cstr(s["file"])))
            out.append("static void s%d_%d_2(bool c) { %s(c, %s); }" % (j, L, cond, args))
            calls.append((L, j, 2, "s%d_%d_2(true);" % (j, L)))
            calls.append((L, j, 3, "s%d_%d_2(false);" % (j, L)))
        if f.quiet: continue
        pairs = ", ".join("%s, %s" % (cstr(e), e) for e, _ in s["args"])
        calls.append((2, j, 1, "json.writeVar(%d, %s, %s);" % (s["line"], cstr(s["file"]), pairs)))
        calls.append((4, j, 1, "html.writeVar(%d, %s, %s);" % (s["line"], cstr(s["file"]), pairs)))
    out.append("void site(int logger, int s, int how, JSONLogger& json, HtmlLogger& html) { switch (logger * 1000 + s * 10 + how) {")
    for L, j, h, c in calls: out.append("    case %d: %s break;" % (L * 1000 + j * 10 + h, c))
    out.append("    default: refuse(\"site\"); } }\nint main() { return run(); }")
    return "\n".join(out)


def script(f, h, rng):
    if f.quiet: h = [r for r in h if r["op"] in ("p", "log") and r["a"] not in (2, 4)]
    s = [("new " + " ".join(w for k, t in enumerate(f.types) for w in words(t, f.vals[k][0])), dict(record(f), op="new"))]
    for r in h:
        b = {"op": r["op"], "a": r["a"], "b": r["b"], "c": r["c"]}
        if r["op"] == "p": c = "p %d %s" % (r["a"] - 1, " ".join(words(f.types[r["a"] - 1], f.vals[r["a"] - 1][r["b"] - 1])))
        elif r["op"] == "log": c = "log %d %d %d" % (r["a"], r["b"] - 1, r["c"])
        elif r["op"] in ("create", "opt"): c = "%s %d %d" % (r["op"], r["a"], r["b"])
        elif r["op"] == "close": c = "close %d" % r["a"]
        else: continue
        s.append((c, b))
    if f.quiet or rng.random() < 0.7: s.append(("end", {"op": "end", "a": 0, "b": 0, "c": 0}))
    else:
        j = rng.randrange(len(f.sites))
        s.append(("throw %d" % j, {"op": "throw", "a": 8, "b": j + 1, "c": 2}))
    return s


# ---- reading the logs
class Bad(Exception):
    pass


class Num(str):
    pass


def flat(v):
    """a parsed value as the tokens of ExpRender"""
    if v is True: return ["true"]
    if v is False: return ["false"]
    if isinstance(v, Num): return [eg.number(v)]
    if isinstance(v, str): return [eg.nameof8(v)]
    if isinstance(v, Obj):
        r = ["{"]
        for j, (k, x) in enumerate(v): r += ([","] if j else []) + [eg.nameof8(k), ":"] + flat(x)
        return r + ["}"]
    if isinstance(v, list):
        r = ["["]
        for j, x in enumerate(v): r += ([","] if j else []) + flat(x)
        return r + ["]"]
    raise Bad()


class Obj(list):
    pass


def const(s):
    raise Bad()


NONE = {"kind": "broken", "entries": []}


def entry(g, line, file, expr, data):
    if not (isinstance(g, Num) and isinstance(line, Num) and isinstance(file, str) and isinstance(expr, str)): raise Bad()
    return {"g": str(g), "line": str(line), "file": eg.nameof8(file), "expr": eg.nameof8(expr), "tok": flat(data)}


def readjson(raw):
    try:
        d = json.loads(raw.decode("utf8"), parse_int=Num, parse_float=Num, parse_constant=const, object_pairs_hook=Obj)
        if not isinstance(d, Obj) or [k for k, _ in d] != ["logs"] or isinstance(d[0][1], Obj) or not isinstance(d[0][1], list): return NONE
        es = []
        for e in d[0][1]:
            if not isinstance(e, Obj): return NONE
            x = dict(e)
            if len(x) != len(e) or not {"gInd", "line", "file", "expr", "data"} <= set(x): return NONE
            es.append(entry(x["gInd"], x["line"], x["file"], x["expr"], x["data"]))
        return {"kind": "json", "entries": es}
    except (Bad, ValueError, RecursionError):
        return NONE


def num(x):
    if isinstance(x, dict) and "n" in x: return Num(x["n"])
    if isinstance(x, dict) and "o" in x: return Obj([(k, num(v)) for k, v in x["o"]])
    if isinstance(x, list): return [num(v) for v in x]
    return x


def readhtml(docs, folder):
    """evaluates the documents' scripts; one process for all"""
    f = os.path.join(folder, "html.json")
    json.dump([d.decode("latin1") for d in docs], open(f, "w"))
    r = subprocess.run(["node", os.path.join(os.path.dirname(__file__), "evalhtml.js"), f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    res = json.loads(r.stdout)
    out = []
    for x in res:
        if x is None: out.append(NONE); continue
        try:
            es = []
            for e in num(x["data"]):
                if not isinstance(e, list) or len(e) != 5: raise Bad()
                es.append(entry(e[0], e[1], e[2], e[3], e[4]))
            out.append({"kind": "html", "entries": es} if x["rows"] == len(es) else NONE)
        except Bad:
            out.append(NONE)
    return out


def console(r, site):
    """printed text of a call"""
    err, out = bytes.fromhex(r.pop("err")), bytes.fromhex(r.pop("out"))
    r["elsewhere"] = bool(err) if r["a"] == 6 else bool(out)
    if r["a"] < 5 or (r["a"] == 8 and r["c"] == 1):
        r["elsewhere"] = bool(out or (err and r["a"] > 4))
        return
    raw = out if r["a"] == 6 else err
    r["colored"] = b"\x1b" in raw
    raw = re.sub(rb"\x1b\[[0-9;]*m", b"", raw)
    r["entries"] = []
    for l in raw.split(b"\n"):
        m = re.search(rb"\[\[ (.*) \]\] ==> (.*)$" if r["a"] < 7 else rb"()==> (.*) <==$", l)
        if m: r["entries"].append({"expr": "h" + "".join(".%x" % c for c in m.group(1)), "tok": eg.tokens(m.group(2))})
    full = site["file"].encode()
    short = full[full.rfind(b"/") + 1:]
    line = str(site["line"]).encode()
    def places(n): return len(re.findall(rb"(?<![\w./\\])" + re.escape(n) + rb": ?" + line + rb"\b", raw))
    r["full"], r["short"] = places(full), places(short)
    r["said"] = b"reason %d" % (r["b"] - 1) in raw
    r["func"] = raw.count(b"s%d_%d_" % (r["b"] - 1, r["a"]))
    r["dots"] = len(re.findall(rb"(?m)^\.\.\.\[\[", raw))
    r["bars"] = len(re.findall(rb"(?m)^\|\|     \[\[", raw))


def finish(traces, fam, folder):
    docs = {}
    for t in traces:
        for r in t:
            for x in r.get("files", []):
                if x: docs.setdefault(bytes.fromhex(x[1:]), None)
    html = []
    for d in docs:
        docs[d] = readjson(d)
        if docs[d] is NONE: html.append(d)
    if html:
        for d, x in zip(html, readhtml(html, folder)): docs[d] = x
    for t in traces:
        for r in t:
            if "files" in r: r["files"] = [docs[bytes.fromhex(x[1:])] if x else {"kind": "none", "entries": []} for x in r["files"]]
            if "vals" in r: r["vals"] = eg.canon(r["vals"])
            if "err" in r: console(r, fam.sites[r["b"] - 1])
            if "opts" in r: r["ident"] = r["opts"].pop()
    return traces
