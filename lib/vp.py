"""Common machinery: scratch directories, running the drivers, running TLC, reporting."""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

import build

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "spec")
JAVA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = tempfile.mkdtemp(prefix="vp842-%s-" % prop, dir="/tmp")
        self.rng = random.Random("%s/%d" % (prop, seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.models = []
        self.notes = []
        self._libs = {}
        self.violations = []
        os.environ["VP_SCRATCH"] = self.scratch
        os.environ["POCL_CACHE_DIR"] = os.path.join(self.scratch, "pocl")
        os.makedirs(os.environ["POCL_CACHE_DIR"])

    thorough = property(lambda self: self.tier == "thorough")

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, x, limit=6):
        if len(self.samples) < limit:
            self.samples.append(x)

    def path(self, name):
        return os.path.join(self.scratch, name)

    # ------------------------------------------------------------ harnesses
    def lib(self, variant="plain"):
        if variant not in self._libs:
            self._libs[variant] = build.Lib(self.scratch, variant)
        return self._libs[variant]

    def harness(self, src, variant="plain", name=None, extra=(), link_extra=()):
        name = name or os.path.splitext(os.path.basename(src))[0]
        key = (name, variant)
        if key not in self._libs:
            self._libs[key] = self.lib(variant).harness(src, name, extra, link_extra)
        return self._libs[key]

    # ------------------------------------------------------------ drivers
    def run_jobs(self, exe, jobs, name, shards=NCPU, timeout=60, env=None, budget=None):
        """Runs job lines in parallel driver processes; returns the list of raw record lines."""
        shards = max(1, min(shards, len(jobs)))
        parts = [jobs[i::shards] for i in range(shards)]

        def work(k):
            rep = self.path("%s.%d.rec" % (name, k))
            todo, restarts, out = parts[k], 0, []
            while todo:
                if os.path.exists(rep):
                    os.unlink(rep)
                e = dict(os.environ)
                e.update({"ASAN_OPTIONS": "halt_on_error=0:detect_leaks=0:allow_user_segv_handler=1:handle_segv=0:handle_abort=0:handle_sigbus=0:allocator_may_return_null=1"})
                # no two processes may share pocl's cache: it fails to build now and then if they do
                e["POCL_CACHE_DIR"] = self.path("pocl/%s.%d.%d" % (name, k, restarts))
                os.makedirs(e["POCL_CACHE_DIR"], exist_ok=True)
                e.update(env or {})
                p = subprocess.Popen([exe, rep, str(timeout)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, env=e)
                try:
                    p.communicate(("\n".join(todo) + "\n").encode())
                except BrokenPipeError:
                    p.wait()
                recs = open(rep, "rb").read().decode("latin1").splitlines() if os.path.exists(rep) else []
                recs = [r for r in recs if r.endswith("}")]
                out += recs
                if p.returncode == 0:
                    break
                restarts += 1
                seen = set(re.search(r'"id":"([^"]*)"', r).group(1).split(".")[0] for r in recs)
                left = [j for j in todo if j.split(" ", 2)[1] not in seen]
                if len(left) == len(todo):
                    # died without a word: that job is a fault of its own
                    j = todo[0].split(" ")
                    out.append(json.dumps({"t": j[0], "id": j[1], "died": p.returncode, "live": [], "cost": 0, "in": [], "outs": [],
                                           "calls": [{"impl": 0, "cap": 0, "ret": 0, "olen": 0, "idx": 0, "fault": 1,
                                                      "ia": 0, "oa": 0, "amp": 0}], "dec": [], "decouts": [],
                                           "fault": 1, "chunks": [], "ret": 0, "wild": 0, "n": 0, "op": "", "impl": 0}))
                    left = todo[1:]
                todo = left
                if restarts > 20:
                    self.log("too many restarts of the driver; leaving %d jobs" % len(todo))
                    break
            return out

        with ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(work, range(shards)))
        recs = [r for part in res for r in part]
        self.log("%s: %d jobs -> %d records, %.1f MB" % (name, len(jobs), len(recs), sum(map(len, recs)) / 1e6))
        return recs

    # ------------------------------------------------------------ TLC
    def tlc(self, module, constants, invariants=(), properties=(), spec="Spec", extra="", workers=NCPU, timeout=800,
            simulate=None, depth=None, seed=None, name=None, heap="6g", deadlock=False, view=None, alias=None,
            constraint=None, symmetry=None):
        """Runs TLC; returns a dict with ok / violated / output / states."""
        name = name or module
        d = tempfile.mkdtemp(prefix="tlc-%s-" % name, dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfg = ["SPECIFICATION " + spec]
        if constants:
            cfg.append("CONSTANTS")
            for k, v in constants.items():
                cfg.append("  %s %s %s" % (k, "<-" if isinstance(v, Subst) else "=", v))
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        for kw, v in (("VIEW", view), ("ALIAS", alias), ("CONSTRAINT", constraint), ("SYMMETRY", symmetry)):
            if v:
                cfg.append("%s %s" % (kw, v))
        if not deadlock:
            cfg.append("CHECK_DEADLOCK FALSE")
        cfg.append(extra)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, min(4, workers)),
               "-cp", JAVA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(d, "states"),
               "-workers", str(workers), "-config", "M.cfg"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                cmd += ["-depth", str(depth)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd.append(module + ".tla")
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), -1
        r = {"out": out, "rc": rc, "violated": None, "ok": rc == 0, "timeout": rc == -1}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            r["generated"] = r["distinct"] = int(m.group(1))
        m = re.search(r"Error: Invariant (\S+) is violated", out) or re.search(r"Error: (?:Temporal properties were|Action property (\S+) is) violated", out) \
            or re.search(r"Error: (Deadlock) reached", out) or re.search(r"Error: Property (\S+) is violated", out)
        if m:
            r["violated"] = m.group(1) if m.groups() and m.group(1) else "temporal"
        elif rc not in (0, -1):
            r["error"] = out[-3000:]
        shutil.rmtree(d, ignore_errors=True)
        return r

    def add_model(self, r, what):
        self.states += r.get("distinct", 0)
        self.transitions += r.get("generated", 0)
        self.models.append({"model": what, "distinct_states": r.get("distinct", 0), "states_generated": r.get("generated", 0)})

    # ------------------------------------------------------------ trace validation
    def validate(self, recs, module, constants, invariants, name, view="View", alias="Shown", spec="Spec", timeout=800,
                 workers=NCPU, describe=None):
        """Checks recorded behaviours of the real code against a specification."""
        if not recs:
            raise RuntimeError("no records to validate for " + name)
        f = self.path(name + ".ndjson")
        with open(f, "w") as fh:
            fh.write("\n".join(recs) + "\n")
        c = dict(constants)
        c["RecFile"] = '"%s"' % f
        r = self.tlc(module, c, invariants=invariants, spec=spec, view=view, alias=alias, timeout=timeout, workers=workers, name=name)
        os.unlink(f)
        if r["timeout"]:
            raise RuntimeError("TLC ran out of time validating " + name)
        self.add_model(r, "%s (trace validation of %d recorded behaviours)" % (module, len(recs)))
        self.traces += len(recs)
        self.log("%s: validated %d records with %s: %s distinct states%s" %
                 (name, len(recs), module, r.get("distinct"), "" if r["ok"] else " REJECTED"))
        if r["ok"]:
            return r
        if not r["violated"]:
            raise RuntimeError("TLC failed on %s: %s" % (name, r.get("error")))
        m = re.findall(r"/\\ rec = (\d+)", r["out"])
        k = int(m[-1]) - 1 if m else 0
        self.fail("%s violated by record of %s" % (r["violated"], name),
                  {"invariant": r["violated"], "module": module, "record": json.loads(recs[k]),
                   "tlc": r["out"][r["out"].find("Error:"):][:6000]}, recs[k])
        return r

    def check_model(self, module, constants, invariants=(), properties=(), what=None, **kw):
        """Model checking of a design; a violation here is a defect of the specification itself."""
        r = self.tlc(module, constants, invariants, properties, **kw)
        if not r["ok"]:
            raise RuntimeError("model %s: %s\n%s" % (module, r["violated"] or r.get("error") or "timeout", r["out"][-1500:]))
        self.add_model(r, what or module)
        self.log("model %s: %s distinct states" % (what or module, r.get("distinct")))
        return r

    def fail(self, what, replay, raw=None):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        with open(p, "w") as f:
            json.dump(replay, f, indent=1, default=str)
        self.violations.append((what, p))
        self.log("VIOLATION:", what)


class Subst(str):
    pass
