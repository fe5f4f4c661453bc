#!/usr/bin/env python3
"""Prepare /verif: make the working folders and parse every specification module once."""
import glob, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in ("build", "replays", "evidence"):
    os.makedirs(os.path.join(V, d), exist_ok=True)
mods = sorted(glob.glob(os.path.join(V, "spec", "*.tla")))
r = subprocess.run(["java", "-Djava.io.tmpdir=" + os.path.join(V, "build"), "-DTLA-Library=" + os.path.join(V, "spec"), "-cp",
                    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tla2sany.SANY"] + mods,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=os.path.join(V, "spec"))
out = r.stdout.decode(errors="replace")
bad = [l for l in out.splitlines() if "rror" in l and "Errors: 0" not in l]
if r.returncode or bad:
    print(out[-3000:])
    sys.exit(1)
print("parsed %d specification modules" % len(mods))
