#!/usr/bin/env python3
"""automut.py FILE PROP[,PROP] N [SEED]: random small mutants of a file against the checks; prints the survivors.
Judged by exit code 1; mutants that do not compile are dropped. Uses a copy of /repo and a cache of TLC's output."""
import sys, os, re, random, subprocess, tempfile, shutil
name, props, n = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3])
rng = random.Random(name + (sys.argv[4] if len(sys.argv) > 4 else ""))
os.makedirs("/tmp/tlccache", exist_ok=True)
SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"\+\+", "--"),
        (r" ?\+ ?1\b", ""), (r" ?- ?1\b", ""), (r"&&", "||"), (r"\|\|", "&&"), (r"!(?=[\w(])", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"),
        (r"Left", "Right"), (r"Right", "Left"), (r"\.first\b", ".second"), (r"\.second\b", ".first"), (r"\+=", "-="), (r"\+=", "="), (r"-=", "+="), (r"\bbreak;", ""), (r"\bcontinue;", ""),
        (r"getVertexA", "getVertexB"), (r"getVertexB", "getVertexA"), (r"\.at\(i\)", ".at(0)"), (r"\[i\]", "[0]"), (r"\[j\]", "[i]"), (r"if ?\((.*)\) ?\{", r"if (!(\1)) {"), (r"if ?\((.*)\) ?\{", r"if (true) {"), (r"\bmin\b", "max"), (r"begin\(\)", "end()"), (r"\bconst T& ", "const T "), (r"static_cast<.*?>", "")]
w = tempfile.mkdtemp(prefix="amut", dir="/tmp")
try:
    shutil.copytree("/repo/src", w + "/repo/src")
    path = subprocess.run(["find", w + "/repo/src", "-name", name], capture_output=True, text=True).stdout.split()[0]
    src = open(path).read()
    lines = src.split("\n")
    code, comment = [], False
    for l in lines:
        t = l.strip()
        if comment:
            code.append(False)
            if "*/" in t: comment = False
            continue
        if t.startswith("/*") and "*/" not in t: comment = True
        code.append(not (t.startswith(("//", "/*", "*", "#", "using ", "typedef", "template", "namespace", "static_assert")) or not t))
    muts = []
    for i, l in enumerate(lines):
        if not code[i]: continue
        body = l.split("//")[0]
        for pat, rep in SUBS:
            for m in re.finditer(pat, body):
                x = body[:m.start()] + m.expand(rep) + body[m.end():]
                if x != body: muts.append((i, x))
        t = body.strip()
        if t.endswith(";") and re.search(r"[=(]", t) and not re.match(r"(return|using|typedef|static|constexpr|for|const|auto|break|throw)\b", t) and re.match(r"^[^()=]*[\w\])>]\s*(\(|=|\+=|\.|\[)", t):
            muts.append((i, ";"))
    rng.shuffle(muts)
    surv = tried = 0
    seen = set()
    for i, x in muts:
        if tried >= n: break
        if (i, x) in seen: continue
        seen.add((i, x))
        new = lines[:]; new[i] = x
        open(path, "w").write("\n".join(new))
        res = None
        for pr in props:
            r = subprocess.run(["timeout", "900", "python3", "/verif/bin/check.py", pr, "quick"], env=dict(os.environ, GTMESH_REPO=w + "/repo", VERIF_SEED="1", VERIF_CACHE="/tmp/tlccache"), capture_output=True, text=True)
            if "compile" in r.stdout + r.stderr and r.returncode: res = "nocompile"; break
            if r.returncode == 1: res = "caught"; break
            if r.returncode != 0: res = "error %d" % r.returncode; break
            res = "SURVIVED"
        if res == "nocompile": continue
        tried += 1
        if res != "caught":
            print("%s %s:%d\n  - %s\n  + %s" % (res, name, i + 1, lines[i].strip(), x.strip()), flush=True)
            surv += 1
    print("== %s [%s]: %d tried, %d not caught (of %d mutants)" % (name, ",".join(props), tried, surv, len(muts)), flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
