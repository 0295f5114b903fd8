"""Driver side of a check: runs recorders against /repo, runs TLC on the specification, reports.

A check of property <ID> consists of
  * model runs:  spec/MC_*.tla, exhaustive exploration of the specification itself;
  * trace runs:  behaviour recorded from the real code (props/<id>.py: record) is written as ndjson and judged by
                 spec/T_*.tla, which names the failing clause of every case it rejects.
Exit codes: 0 held, 1 with a VIOLATION line, 2 machinery failure.
"""
import glob, importlib, json, os, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
EVID = os.path.join(ROOT, "evidence")
PY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Machinery(Exception):
    pass


class TLCResult:
    def __init__(self, out):
        self.out = out
        m = re.search(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.verdicts = []
        for m in re.finditer(r'^<<"VERDICT", (\d+), "((?:[^"\\]|\\.)*)"(?:, (.*))?>>$', out, re.M):
            self.verdicts.append((int(m.group(1)), m.group(2), m.group(3)))
        self.prints = re.findall(r'^<<"OUT", "((?:[^"\\]|\\.)*)">>$', out, re.M)
        self.ok = "Model checking completed. No error has been found." in out or "Finished in" in out and "Error:" not in out
        m = re.search(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated|Temporal properties were violated|Error: Deadlock reached", out)
        self.design_violation = m.group(0) if m else None


def env_for_code():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0",
             PYTHONPATH="/repo:" + ROOT)
    e.setdefault("PYTHONHASHSEED", "0")
    return e


class Check:
    def __init__(self, pid, tier, seed, quiet=False):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.cases = 0
        self.models, self.traceruns = [], []
        self.samples, self.notes, self.assumptions = [], [], []
        self.violations = []       # (clause, replay path)
        self.known_hits = {}
        self.known = self._load_known()
        self.quick = tier != "thorough"
        self.nproc = 8
        self.slowest = (0.0, 0.0, "")

    def _load_known(self):
        ks = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.pid:
                    ks.append((m.group(2), m.group(3).strip()))
        return ks

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ------------------------------------------------------------------ recorders
    def record(self, part="main", shards=8, timeout=None, hashseed=None, mod=None, **params):
        """Run the recorder of this property in `shards` processes; returns the list of records in shard order."""
        timeout = timeout or self.pick(600, 3000)
        procs = []
        d = tempfile.mkdtemp(prefix="rec-", dir=self.work)
        for s in range(shards):
            out = os.path.join(d, "s%d.ndjson" % s)
            env = env_for_code()
            if hashseed is not None:
                env["PYTHONHASHSEED"] = str(hashseed)
            cmd = [PY, "-B", "-m", "vlib.rec", mod or self.pid, part, str(self.seed), self.tier, str(s), str(shards), out,
                   json.dumps(params)]
            errf = open(out + ".err", "w")
            procs.append((subprocess.Popen(cmd, cwd=ROOT, env=env, stdout=errf, stderr=subprocess.STDOUT), out, errf))
        recs = []
        deadline = time.time() + timeout
        for p, out, errf in procs:
            try:
                rc = p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = -9
            errf.close()
            if os.path.exists(out):
                for line in open(out):
                    try:
                        recs.append(json.loads(line))
                    except ValueError:
                        pass
            if os.path.exists(out + ".slow"):
                self.slowest = max(self.slowest, tuple(map(float, open(out + ".slow").read().split())) + (part,))
            if rc != 0:
                tail = open(out + ".err").read()[-3000:]
                last = ""
                if os.path.exists(out + ".now"):
                    last = open(out + ".now").read()
                kind = "hang" if rc == -9 else "crash"
                self.driver_failure(part, kind, rc, tail, last)
        shutil.rmtree(d, ignore_errors=True)
        return recs

    def driver_failure(self, part, kind, rc, tail, last):
        """A recorder died. If the traceback ends inside the code under test (or the process hung there) that is a
        violation; anything else is a machinery failure."""
        if kind == "hang" or rc < 0:
            if last:
                self.violate("driver-" + kind, {"part": part, "while": last, "tail": tail})
                return
            raise Machinery("recorder %s %s rc=%s\n%s" % (part, kind, rc, tail))
        frames = re.findall(r'File "([^"]+)", line \d+', tail)
        if any("/repo/" in f for f in frames):
            self.violate("unexpected-exception", {"part": part, "while": last, "tail": tail})
            return
        raise Machinery("recorder %s failed rc=%s\n%s" % (part, rc, tail))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, env=None, workers=8, timeout=None, extra=(), heap="6g"):
        timeout = timeout or self.pick(400, 3400)
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + md, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
               "-noGenerateSpecTE", "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
            out = p.stdout
        except subprocess.TimeoutExpired as x:
            raise Machinery("TLC timeout on %s after %ss" % (module, timeout))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        return TLCResult(out)

    def model(self, module, cfg=None, expect_min=1, **kw):
        """Explore a design model exhaustively; a violated invariant of the specification itself is a machinery failure
        (the specification does not depend on /repo)."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        if r.design_violation or "Model checking completed. No error has been found." not in r.out:
            raise Machinery("model %s: %s\n%s" % (module, r.design_violation, r.out[-4000:]))
        if r.distinct < expect_min:
            raise Machinery("model %s explored only %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "distinct": r.distinct, "generated": r.generated, "s": round(time.time() - t, 1)})
        return r

    def simulate(self, module, cfg, num, depth, **kw):
        """Random walks of a design model (for behaviours longer than can be enumerated)."""
        t = time.time()
        r = self.tlc(module, cfg, workers=1, extra=("-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)), **kw)
        if r.design_violation or "Error:" in r.out:
            raise Machinery("simulation of %s: %s\n%s" % (module, r.design_violation, r.out[-4000:]))
        m = re.search(r"The number of states generated: (\d+)", r.out)
        n = int(m.group(1)) if m else 0
        self.states += n
        self.transitions += n
        self.models.append({"module": module, "cfg": cfg, "simulated_states": n, "walks": num, "s": round(time.time() - t, 1)})
        return r

    def refuted(self, module, cfg, invariant, **kw):
        """A deliberately broken variant of a design model: TLC has to refute it (else the invariant says nothing)."""
        t = time.time()
        r = self.tlc(module, cfg, **kw)
        if ("Invariant %s is violated" % invariant) not in r.out:
            raise Machinery("model %s (%s) should violate %s\n%s" % (module, cfg, invariant, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "cfg": cfg, "refuted": invariant, "distinct": r.distinct, "s": round(time.time() - t, 1)})

    def emitted(self, r, limit=None, rng_seed=0, keep=None):
        """behaviours printed by a model run, written to a file for the recorders (a seeded sample if limit is given)"""
        lines = [json.loads('"%s"' % s) for s in r.prints]
        if keep:
            lines = [x for x in lines if keep(x)]
        total = len(lines)
        if limit is not None and total > limit:
            import random
            lines.sort()
            lines = random.Random("%d/%d" % (self.seed, rng_seed)).sample(lines, limit)
        path = os.path.join(self.work, "emitted-%d.ndjson" % len(self.models))
        with open(path, "w") as f:
            f.write("\n".join(lines) + ("\n" if lines else ""))
        self.notes.append("%d of %d behaviours generated by TLC from %s were replayed on the code" % (len(lines), total, self.models[-1]["module"]))
        return path

    def judge(self, module, recs, cfg=None, states_per=None, key=None, known_key=None, name=None, extra_env=None, **kw):
        """Validate recorded cases with trace module `module`. recs: list of {"case":..., "meta":...}."""
        if not recs:
            return
        t = time.time()
        path = os.path.join(self.work, "cases-%s-%d.ndjson" % (module, len(self.traceruns)))
        with open(path, "w") as f:
            for r in recs:
                f.write(json.dumps(r["case"]) + "\n")
        env = {"CASES": path}
        env.update(extra_env or {})
        r = self.tlc(module, cfg, env=env, **kw)
        finished = "Model checking completed. No error has been found." in r.out
        if "Parsing or semantic analysis failed" in r.out:
            raise Machinery("module %s does not parse\n%s" % (module, r.out[-3000:]))
        if not finished and not r.verdicts:
            bad = self._bisect(module, cfg, recs, env, kw)
            if bad is None:
                raise Machinery("trace module %s failed\n%s" % (module, r.out[-6000:]))
            i, out = bad
            self.violate("not-interpretable", {"module": module, "record": recs[i], "tlc": out[-3000:]})
        elif finished:
            exp = states_per(recs) if callable(states_per) else (states_per * len(recs) if states_per else None)
            if exp is not None and not r.verdicts and r.distinct != exp:
                raise Machinery("trace module %s: %d distinct states, expected %d (unjudged cases)" % (module, r.distinct, exp))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(recs)
        self.traceruns.append({"module": module, "name": name or module, "cases": len(recs), "distinct": r.distinct, "generated": r.generated, "s": round(time.time() - t, 1)})
        if len(self.samples) < 6:
            for rec in recs[:: max(1, len(recs) // 2)][:2]:
                s = json.dumps(rec.get("meta") or rec["case"])
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
        for c, clause, extra in r.verdicts:
            rec = recs[c - 1]
            k = (known_key(rec, clause) if known_key else clause)
            hit = [w for kk, w in self.known if kk == k]
            if hit:
                self.known_hits.setdefault(k, [hit[0], 0])[1] += 1
            else:
                self.violate(clause, {"module": module, "cfg": cfg, "record": rec, "detail": extra, "key": k, "seed": self.seed, "tier": self.tier})
        os.remove(path)
        return r

    def _bisect(self, module, cfg, recs, env, kw):
        """TLC could not evaluate some case: find one. On the unchanged tree this never happens."""
        lo, hi = 0, len(recs)
        def fails(a, b):
            path = os.path.join(self.work, "bisect.ndjson")
            with open(path, "w") as f:
                for r in recs[a:b]:
                    f.write(json.dumps(r["case"]) + "\n")
            e = dict(env, CASES=path)
            r = self.tlc(module, cfg, env=e, **kw)
            bad = "Model checking completed. No error has been found." not in r.out
            return r.out if bad else None
        out = fails(lo, hi)
        if not out:
            return None
        while hi - lo > 1:
            mid = (lo + hi) // 2
            o = fails(lo, mid)
            if o:
                hi, out = mid, o
            else:
                o = fails(mid, hi)
                if not o:
                    return None
                lo, out = mid, o
        return lo, out

    def violate(self, clause, info):
        d = os.path.join(EVID, "replay")
        os.makedirs(d, exist_ok=True)
        n = len(self.violations)
        if n >= 20:
            self.violations.append((clause, None))
            return
        path = os.path.join(d, "%s-%d.json" % (self.pid, n))
        with open(path, "w") as f:
            json.dump(dict(info, property=self.pid, clause=clause), f, indent=1, default=str)
        self.violations.append((clause, path))

    # ------------------------------------------------------------------ end
    def finish(self):
        for k, (w, n) in sorted(self.known_hits.items()):
            print("KNOWN-FINDING: property=%s %s (%d cases, key=%s)" % (self.pid, w, n, k))
        for clause, path in self.violations[:20]:
            if path:
                print("VIOLATION property=%s replay=%s" % (self.pid, path))
                print("  clause: %s" % clause)
        if not self.samples:
            self.samples = [m for m in self.models[:2]]
        ev = {
            "property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                "evaluations": self.traces, "models": self.models, "trace_runs": self.traceruns, "samples": self.samples[:6],
                "known_findings_seen": {k: v[1] for k, v in self.known_hits.items()}, "notes": self.notes,
                "slowest_call": {"cpu_s": self.slowest[0], "wall_s": self.slowest[1], "part": self.slowest[2]},
            },
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.work, ignore_errors=True)
        print("%s %s: %s, %d model states+trace states, %d transitions, %d cases of the real code judged, %.1fs (slowest call %.1fs in %s)" % (
            self.pid, ev["tier"], "VIOLATED" if self.violations else "held", self.states, self.transitions, self.traces, ev["wall_s"], self.slowest[0], self.slowest[2] or "-"))
        return 1 if self.violations else 0


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("vlib.props." + pid.lower())
    for f in glob.glob(os.path.join(EVID, "replay", pid + "-*.json")):
        os.remove(f)
    chk = Check(pid, tier, seed)
    try:
        mod.plan(chk)
        return chk.finish()
    except Machinery as e:
        if chk.violations:
            return chk.finish()
        shutil.rmtree(chk.work, ignore_errors=True)
        print("MACHINERY FAILURE: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
