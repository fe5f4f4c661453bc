"""Common machinery of the checks: compiling drivers against /repo/src, running TLC,
generating behaviours from the specification, replaying them, validating traces."""
import json, os, random, re, shutil, subprocess, sys, time, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GTMESH_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))


class CheckError(Exception):
    """The check itself failed (not a verdict about the code)."""


def fin(code):
    sys.stdout.flush()
    sys.exit(code)


class CompileError(CheckError):
    """A driver does not compile. Where the property quantifies over the programs users write (ctx.compile_verdict)
    this is a violation, otherwise the check gives no answer."""


def compiler_works():
    r = subprocess.run(["g++", "-x", "c++", "-std=c++14", "-", "-o", "/dev/null"], input=b"#include <vector>\n#include <iostream>\nint main(){ std::cout << std::vector<int>(3).size(); }\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return r.returncode == 0


class Rejection:
    def __init__(self, kind, where, detail, records):
        self.kind, self.where, self.detail, self.records = kind, where, detail, records


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.build = os.path.join(VERIF, "build", prop)
        shutil.rmtree(self.build, ignore_errors=True)
        os.makedirs(self.build, exist_ok=True)
        self.states = 0          # distinct states found by exhaustive model checking
        self.transitions = 0     # states generated by exhaustive model checking
        self.traces = 0          # traces (scenarios) of the implementation accepted by the spec
        self.trace_steps = 0     # steps of those traces
        self.models = {}         # per model-checking run counts
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []     # (path, text)
        self.known = []          # known findings demonstrated in this run
        self._n = 0
        self.pool = ThreadPoolExecutor(NCPU)
        self.compile_verdict = False

    quick = property(lambda s: s.tier != "thorough")

    # ------------------------------------------------------------------ building
    def compile(self, name, src, defs=(), flags=("-O0",), std="c++14", cxx="g++", undebug=True, timeout=600):
        """Compile a driver against the headers of the working tree. Returns the path."""
        exe = os.path.join(self.build, name)
        cmd = [cxx, "-std=" + std, "-w", "-I", os.path.join(REPO, "src"), "-I", os.path.join(VERIF, "drivers")]
        if undebug:
            cmd.append("-DUNDEBUG")
        cmd += list(flags) + ["-D" + d for d in defs] + [os.path.join(VERIF, "drivers", src), "-o", exe, "-pthread"]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("compilation of %s timed out" % src)
        if r.returncode != 0:
            raise CompileError("driver %s does not compile:\n%s" % (src, r.stdout.decode(errors="replace")[:3000]))
        return exe

    def compile_all(self, jobs):
        """jobs: list of dicts of arguments for compile; compiled in parallel; returns {name: exe}."""
        fs = {j["name"]: self.pool.submit(lambda j=j: self.compile(**j)) for j in jobs}
        return {k: f.result() for k, f in fs.items()}

    # ------------------------------------------------------------------ TLC
    def _tlc(self, module, cfg, env=None, workers=1, timeout=600, extra=(), heap="3g"):
        self._n += 1
        tag = "%s_%d_%d" % (module, os.getpid(), self._n)
        meta = os.path.join(self.build, "tlc_" + tag)
        os.makedirs(meta, exist_ok=True)
        cfgp = cfg
        if "\n" in cfg or not cfg.endswith(".cfg"):
            cfgp = os.path.join(self.build, tag + ".cfg")
            with open(cfgp, "w") as f:
                f.write(cfg)
        else:
            cfgp = os.path.join(SPEC, cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-DTLA-Library=" + SPEC,
               "-Djava.io.tmpdir=" + meta, "-cp", TLAJARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers), "-config", cfgp, "-deadlock" ] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        # -deadlock switches deadlock checking OFF
        cache = None
        if os.environ.get("VERIF_CACHE") and not module.endswith("Trace"):     # for mutation campaigns (tools/automut.py) only
            h = hashlib.sha256(repr((module, extra, open(cfgp).read())).encode())
            for f in sorted(os.listdir(SPEC)):
                if f.endswith(".tla"):
                    h.update(open(os.path.join(SPEC, f), "rb").read())
            for v in sorted((env or {}).values()):
                h.update(open(v, "rb").read() if os.path.isfile(v) else str(v).encode())
            cache = os.path.join(os.environ["VERIF_CACHE"], h.hexdigest())
            if os.path.exists(cache):
                shutil.rmtree(meta, ignore_errors=True)
                return 0, open(cache).read()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(os.path.join(meta, "states"), ignore_errors=True)
        out = r.stdout.decode(errors="replace")
        shutil.rmtree(meta, ignore_errors=True)
        if cache and r.returncode == 0:
            open(cache, "w").write(out)
        return r.returncode, out

    @staticmethod
    def _counts(out):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if not m:
            return 0, 0
        return int(m[-1][0]), int(m[-1][1])

    def model_check(self, module, cfg=None, workers=4, timeout=600, heap="4g", label=None, env=None):
        """Exhaustive check of the design; any violated invariant is an error of the spec, not of the code."""
        rc, out = self._tlc(module, cfg or module + ".cfg", workers=workers, timeout=timeout, heap=heap, env=env)
        gen, dist = self._counts(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s failed:\n%s" % (module, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models[label or (module if not cfg or "\n" in cfg else cfg)] = {"states": dist, "transitions": gen}
        return out

    def model_rejects(self, module, cfg, workers=2, timeout=300, env=None):
        """A weakened design has to violate its invariant (the model is able to tell)."""
        rc, out = self._tlc(module, cfg, workers=workers, timeout=timeout, env=env)
        if "is violated" not in out:
            raise CheckError("the weakened design %s was not refuted:\n%s" % (cfg, out[-2000:]))
        self.extra["weakened_designs_refuted"] = self.extra.get("weakened_designs_refuted", 0) + 1

    def generate(self, module, cfg=None, workers=1, timeout=600, simulate=None, count=True, heap="4g", env=None):
        """Run TLC and collect the JSON values printed by the spec (behaviours to replay)."""
        extra = []
        if simulate:
            num, depth = simulate
            extra = ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]
        rc, out = self._tlc(module, cfg or module + ".cfg", workers=workers, timeout=timeout, extra=extra, heap=heap, env=env)
        if rc != 0:
            raise CheckError("generation from %s failed:\n%s" % (module, out[-3000:]))
        gen, dist = self._counts(out)
        if count and not simulate:
            if "No error has been found" not in out:
                raise CheckError("generation from %s failed:\n%s" % (module, out[-3000:]))
            self.states += dist
            self.transitions += gen
            self.models[module if not cfg or "\n" in cfg else cfg] = {"states": dist, "transitions": gen}
        res = []
        for line in sorted(out.splitlines()):           # workers print in any order
            if line.startswith('"') and line.endswith('"'):
                try:
                    res.append(json.loads(json.loads(line)))
                except ValueError:
                    raise CheckError("cannot parse generated value: " + line[:300])
        return res

    # ------------------------------------------------------------------ running drivers
    def run_raw(self, exe, inp, args=(), timeout=120, cwd=None):
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, start_new_session=True)
        try:
            out, err = p.communicate(inp.encode(), timeout)
            return p.returncode, out.decode(errors="replace"), err.decode(errors="replace")
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)      # with its own child processes
            except ProcessLookupError:
                pass
            out, err = p.communicate()
            return "timeout", out.decode(errors="replace"), ""

    def replay(self, exe, scenarios, args=(), timeout=120, shards=None, cwd=None):
        """scenarios: list of lists of (command-text, base-record). The driver answers one JSON line per
        command. Returns a list of traces (lists of records = base-record + driver's answer)."""
        if not scenarios:
            raise CheckError("no scenarios to replay")
        shards = shards or NCPU
        parts = [list(range(i, len(scenarios), shards)) for i in range(min(shards, len(scenarios)))]
        res = [None] * len(scenarios)
        crashed = []

        def work(idx, solo=False):
            if solo and crashed:
                return               # one crash per replay is enough for a verdict
            text = []
            for k in idx:
                for c, _ in scenarios[k]:
                    text.append(c)
            rc, out, err = self.run_raw(exe, "\n".join(text) + "\n", args, min(timeout, 30) if solo else timeout, cwd)
            lines = [l for l in out.split("\n") if l]
            n = sum(len(scenarios[k]) for k in idx)
            if rc != 0 or len(lines) != n:
                if not solo and len(idx) > 1:
                    for k in idx:
                        work([k], True)
                    if not crashed:  # none fails alone: does the whole batch fail again?
                        rc2, out2, err2 = self.run_raw(exe, "\n".join(text) + "\n", args, timeout, cwd)
                        if rc2 == 0 and len([l for l in out2.split("\n") if l]) == n:
                            raise CheckError("driver failed once (%s) and not again" % rc)
                        self.violation({"kind": "crash", "driver": os.path.basename(exe), "status": str(rc2), "stderr": err2[:2000], "commands": text},
                                       "the program ended with %s on a sequence of %d scenarios" % (rc2, len(idx)))
                    return
                k = idx[0]
                tr = []
                for i, (c, b) in enumerate(scenarios[k]):
                    if i < len(lines):
                        try:
                            tr.append(dict(b, **json.loads(lines[i])))
                        except ValueError:
                            break
                bad = len(tr)
                crashed.append(k)
                self._crash(exe, args, scenarios[k], bad, rc, err, cwd)
                res[k] = None
                return
            p = 0
            for k in idx:
                tr = []
                for c, b in scenarios[k]:
                    try:
                        tr.append(dict(b, **json.loads(lines[p])))
                    except ValueError:
                        raise CheckError("driver printed no JSON: %r" % lines[p][:300])
                    p += 1
                res[k] = tr
        list(self.pool.map(work, parts))
        return [t for t in res if t is not None]

    def _crash(self, exe, args, scenario, step, rc, err, cwd=None):
        if rc == 77:
            raise CheckError("driver refused its input: %s\n%s" % (err[:500], scenario[min(step, len(scenario) - 1)][0][:300]))
        text = "\n".join(c for c, _ in scenario) + "\n"
        rc2, out2, err2 = self.run_raw(exe, text, args, 60, cwd)
        lines = [l for l in out2.split("\n") if l]
        if rc2 == 0 and len(lines) == len(scenario):
            self.extra["unreproduced_crashes"] = self.extra.get("unreproduced_crashes", 0) + 1
            raise CheckError("driver failed once (%s) and not again" % rc)
        self.violation({"kind": "crash", "driver": os.path.basename(exe), "status": str(rc2), "stderr": err2[:2000],
                        "step": step, "commands": [c for c, _ in scenario]},
                       "the program ended with %s at step %d: %s" % (rc2, step, scenario[min(step, len(scenario) - 1)][0][:200]))

    # ------------------------------------------------------------------ trace validation
    def _validate_file(self, module, cfg, path, timeout, env=None):
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = self._tlc(module, cfg, env=e, workers=1, timeout=timeout, heap="2500m")
        gen, dist = self._counts(out)
        if rc == 0 and "No error has been found" in out:
            return True, dist, out
        rej = re.findall(r'<<"REJECT", (\d+), (.*)>>', out)
        if rej:
            return False, int(rej[-1][0]), rej[-1][1]
        if ("POSTCONDITION" in out or "Postcondition" in out or "postcondition" in out) and "violated" in out or re.search(r"post.?condition.*(false|violated)", out, re.I):
            m = re.search(r"depth of the complete state graph search is (\d+)", out)
            return False, int(m.group(1)) if m else -1, "no step of the specification explains this record"
        ev = re.search(r"(Attempted to [^\n]*|[^\n]*which is not in the domain[^\n]*|The argument of [^\n]*|In computing [^\n]*|"
                       r"The (?:first|second|third|\w+) argument of [^\n]*|[^\n]*is not an element of[^\n]*|Evaluating [^\n]*|"
                       r"[^\n]*nonexistent (?:field|record)[^\n]*|[^\n]*out of (?:bounds|range)[^\n]*)", out)
        if ev and "Parsing or semantic analysis failed" not in out and "OutOfMemory" not in out and "StackOverflow" not in out:
            return None, gen, ev.group(1)[:400] + "\n" + out[-1500:]
        raise CheckError("trace validation with %s failed:\n%s" % (module, out[-3000:]))

    def validate(self, module, traces, cfg=None, timeout=600, shards=None, env=None, sample=2, note=None):
        """Check the traces (lists of records) against the trace specification `module`."""
        cfg = cfg or "Trace.cfg"
        if not traces:
            if self.violations:
                return
            raise CheckError("no traces to validate")
        shards = min(shards or NCPU, len(traces))
        parts = [traces[i::shards] for i in range(shards)]
        self._n += 1
        base = os.path.join(self.build, "trace_%s_%d" % (module, self._n))

        def dump(part, path):
            with open(path, "w") as f:
                for t in part:
                    for r in t:
                        f.write(json.dumps(r, separators=(",", ":")) + "\n")

        def work(i):
            part = parts[i]
            path = "%s_%d.ndjson" % (base, i)
            dump(part, path)
            ok, line, detail = self._validate_file(module, cfg, path, timeout, env)
            if ok:
                os.unlink(path)
                return None
            # locate the trace, repeat on it alone before believing the rejection
            if ok is None:
                cands = None
            else:
                n, k = 0, 0
                while k < len(part) and n + len(part[k]) < line:
                    n += len(part[k]); k += 1
                cands = [part[min(k, len(part) - 1)]]
            if cands is None:   # evaluation error: find the trace by bisection
                lo = part
                while len(lo) > 1:
                    h = lo[:len(lo) // 2]
                    dump(h, path)
                    o, _, d = self._validate_file(module, cfg, path, timeout, env)
                    if o:
                        lo = lo[len(lo) // 2:]
                    else:
                        lo, detail = h, d
                cands = lo
            dump(cands[:1], path)
            o, ln, d = self._validate_file(module, cfg, path, timeout, env)
            if o:
                raise CheckError("a rejection by %s did not repeat: %s" % (module, detail))
            return (cands[0], ln if o is False else None, d)
        rejs = [r for r in self.pool.map(work, range(shards)) if r]
        for tr, ln, d in rejs:
            rec = tr[ln - 1] if ln and 0 < ln <= len(tr) else None
            self.violation({"kind": "rejected trace", "spec": module, "line": ln, "reason": d, "record": rec, "trace": tr},
                           "%s rejects step %s of a trace: %s" % (module, ln, d[:300]))
        if not rejs:
            self.traces += len(traces)
            self.trace_steps += sum(len(t) for t in traces)
            for t in traces[:sample]:
                s = json.dumps(t)
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500] + "...")
        return rejs

    def binding_demo(self, module, trace, corrupt, cfg=None, env=None, name=None):
        """Corrupt one recorded field and make sure that the specification rejects the trace."""
        t = json.loads(json.dumps(trace))
        corrupt(t)
        path = os.path.join(self.build, "demo_%s_%d.ndjson" % (module, self._n))
        self._n += 1
        with open(path, "w") as f:
            for r in t:
                f.write(json.dumps(r) + "\n")
        ok, line, d = self._validate_file(module, cfg or "Trace.cfg", path, 300, env)
        os.unlink(path)
        if ok:
            raise CheckError("%s accepts a corrupted trace (%s)" % (module, name))
        self.extra.setdefault("corrupted_traces_rejected", 0)
        self.extra["corrupted_traces_rejected"] += 1

    # ------------------------------------------------------------------ verdict
    def violation(self, data, text):
        if len(self.violations) >= 10:
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%d.json" % (self.prop, len(self.violations)))
        data = dict(data, property=self.prop, seed=self.seed, tier=self.tier, what=text)
        with open(path, "w") as f:
            json.dump(data, f, indent=1)
        self.violations.append((path, text))

    def evidence(self, level):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "trace_steps": self.trace_steps,
               "models": self.models, "samples": self.samples[:6]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": "thorough" if self.tier == "thorough" else "quick", "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions, "violations": len(self.violations)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def finish(self, level="model_checking"):
        self.evidence(level)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for path, text in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + text.replace("\n", " ")[:600])
        if self.violations:
            fin(1)
        print("property %s: held; %d model states, %d traces / %d steps accepted, %.1f s" %
              (self.prop, self.states, self.traces, self.trace_steps, time.time() - self.t0))
        shutil.rmtree(self.build, ignore_errors=True)
        fin(0)
