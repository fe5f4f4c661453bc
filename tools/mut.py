#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE OLD NEW [occurrence] : run checks against a mutated scratch copy"""
import sys, os, subprocess, tempfile, shutil
props, f, old, new = sys.argv[1:5]
occ = int(sys.argv[5]) if len(sys.argv) > 5 else 0
w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
try:
    shutil.copytree("/repo/src", w + "/repo/src")
    p = subprocess.run("find %s/repo/src -name '%s*'" % (w, f), shell=True, capture_output=True, text=True).stdout.split()[0]
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < occ + 2:
        print("pattern not found", len(parts) - 1); sys.exit(3)
    s = old.join(parts[:occ + 1]) + new + old.join(parts[occ + 1:])
    open(p, "w").write(s)
    for pr in props.split(","):
        r = subprocess.run(["timeout", "900", "python3", "/verif/bin/check.py", pr, "quick"], env=dict(os.environ, GTMESH_REPO=w + "/repo", VERIF_SEED=os.environ.get("SEED", "1")), capture_output=True, text=True)
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print("%s %-28s exit %d | %s" % (pr, (old.strip()[:14] + "->" + new.strip()[:14]).replace("\n", " "), r.returncode, " ".join(lines[:2])[:220] if r.returncode else "SURVIVED"), flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
