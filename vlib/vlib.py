"""Machinery shared by all checks: content-hashed builds from /repo's working tree, exploration of the real code
under ksim, model checking and trace validation with TLC, evidence and verdicts."""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
NCPU = int(os.environ.get("VERIF_CPUS", "8"))
FAST = float(os.environ.get("VERIF_FAST", "0"))    # development only: a fraction of the runs, no model checking, stop at the first violation
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "clang++-20"
BASE = ["-std=gnu++23", "-O1", "-g", "-I" + VERIF + "/ksim/shim", "-Wno-everything"]
INSTR = ["-I" + VERIF + "/ksim", "-I" + REPO, "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0",
         "-femulated-tls", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DNDEBUG"]


class CheckError(Exception):
    pass


# ------------------------------------------------------------------ build
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


_file_hash = {}


def fhash(p):
    if p not in _file_hash:
        try:
            with open(p, "rb") as f:
                _file_hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _file_hash[p] = "missing"
    return _file_hash[p]


def _deps_hash(deps):
    return _sha(*[d + "=" + fhash(d) for d in deps])


def compile_obj(src, flags, tag="x"):
    """Object for src, reused only if the content of everything it includes is unchanged."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    key = _sha(src, " ".join(flags), CXX)[:24]
    meta = f"{BUILD}/obj/{key}.deps"
    obj = f"{BUILD}/obj/{key}.o"
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if _deps_hash(m["deps"]) == m["hash"]:
                return obj, m["hash"]
        except Exception:
            pass
    tmp = f"{obj}.{os.getpid()}.tmp"
    dfile = tmp + ".d"
    r = subprocess.run([CXX, *flags, "-MD", "-MF", dfile, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError(f"compiling {src} failed:\n{r.stderr[-6000:]}")
    deps = open(dfile).read().replace("\\\n", " ").split(":", 1)[1].split()
    deps = sorted({os.path.abspath(d) for d in deps if not d.startswith(("/usr/", "/opt/"))})
    os.unlink(dfile)
    h = _deps_hash(deps)
    os.replace(tmp, obj)
    json.dump({"deps": deps, "hash": h}, open(meta, "w"))
    return obj, h


def build_exe(name, harness, sources=(), defs=(), incs=()):
    """Links harness (in /verif/harness) + /repo sources + the ksim runtime."""
    rt = [f"{VERIF}/ksim/{f}.cpp" for f in ("ksim", "tsan_rt", "shim")]
    extra = ["-D" + d for d in defs] + ["-I" + i for i in incs]
    jobs = [(s, BASE) for s in rt]
    jobs.append((f"{VERIF}/harness/{harness}", BASE + extra + INSTR))
    for s in sources:
        p = s if s.startswith("/") else f"{REPO}/{s}"
        jobs.append((p, BASE + extra + INSTR))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_obj(*j), jobs))
    h = _sha(*[o[0] + o[1] for o in objs])[:24]
    exe = f"{BUILD}/bin/{name}-{h}"
    if not os.path.exists(exe):
        os.makedirs(BUILD + "/bin", exist_ok=True)
        for f in os.listdir(BUILD + "/bin"):
            if f.startswith(name + "-") and len(f) == len(name) + 25:
                try:
                    if time.time() - os.stat(f"{BUILD}/bin/{f}").st_mtime > 3600:
                        os.unlink(f"{BUILD}/bin/{f}")
                except OSError:
                    pass
        tmp = exe + f".{os.getpid()}"
        r = subprocess.run([CXX, *[o[0] for o in objs], "-o", tmp, "-rdynamic", "-Wl,--wrap=memchr,--wrap=memcmp"], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError(f"linking {name} failed:\n{r.stderr[-6000:]}")
        os.replace(tmp, exe)
    os.utime(exe)
    return exe


# ------------------------------------------------------------------ TLC
def tlc(spec, cfg, env=None, workers=1, timeout=600, heap="3g", extra=(), tmp=None):
    meta = tempfile.mkdtemp(prefix="tlcmeta", dir=tmp)
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", f"-Xmx{heap}", "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", f"{SPEC}/{cfg}", *extra, f"{SPEC}/{spec}.tla"]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, cwd=SPEC, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC timed out on {spec} {cfg} after {timeout}s")
        return r.returncode, r.stdout + r.stderr
    finally:
        shutil.rmtree(meta, ignore_errors=True)


_ST = re.compile(r"(\d+) states generated, (\d+) distinct states found")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.states = self.trans = 0
        self.validated = 0
        self.evals = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known_hit = []
        self.lock = threading.Lock()
        self.tmp = tempfile.mkdtemp(prefix=f"verif-{prop}-")
        self.known = load_known(prop)
        self.assumptions = []

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    # -------- model checking of the specification itself
    def model(self, spec, cfg, timeout=600, workers=4, heap="6g", extra=(), expect_violation=False):
        if FAST:
            return ""
        rc, out = tlc(spec, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, tmp=self.tmp)
        m = _ST.findall(out)
        if expect_violation:
            if rc not in (12, 13) or "is violated" not in out and "violated" not in out:
                raise CheckError(f"model {spec}/{cfg}: expected a counterexample\n{out[-3000:]}")
        elif rc != 0 or "No error has been found" not in out:
            raise CheckError(f"model {spec}/{cfg} failed (rc {rc}):\n{out[-6000:]}")
        g, d = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        dm = re.search(r"depth of the complete state graph search is (\d+)", out)
        with self.lock:
            self.states += d
            self.trans += g
            self.parts.append({"model": spec, "cfg": cfg, "states": d, "transitions": g, "depth": int(dm.group(1)) if dm else None,
                               "mutant_refuted" if expect_violation else "holds": True})
        return out

    # -------- explore the real code and validate what it did
    def explore(self, exe, scenario, spec, cfg=None, runs=2000, mode="mix", preempt=2, shards=NCPU, time_limit=None, base=None,
                env=None, batch=None, timeout=600, nseeds=1, also=()):
        """dfs: `nseeds` parameter seeds, each searched up to `runs` schedules; otherwise `runs` runs over the shards."""
        base = self.seed if base is None else base
        if FAST:
            runs = max(8, int(runs * FAST))
            if self.violations:
                return []
        jobs = []
        if mode == "dfs":
            for s in range(nseeds):
                jobs.append((s, runs))
        else:
            shards = max(1, min(shards, runs))
            per = (runs + shards - 1) // shards
            for s in range(shards):
                jobs.append((s * per, per))
        tl = time_limit or self.scale(150, 1500)

        def one(job):
            s0, n = job
            out = tempfile.mktemp(dir=self.tmp, suffix=".json")
            cmd = [exe, "--scenario", scenario, "--seed0", str(s0), "--runs", str(n), "--base", str(base), "--mode", mode,
                   "--preempt", str(preempt), "--time", str(tl), "--out", out]
            e = dict(os.environ)
            e.update(env or {})
            r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, cwd=self.tmp)
            try:
                summ = json.loads(r.stderr.strip().splitlines()[-1])
            except Exception:
                raise CheckError(f"harness {os.path.basename(exe)} {scenario} failed (rc {r.returncode}):\n{r.stderr[-3000:]}")
            return out, summ

        with cf.ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, jobs))
        seen = {}
        nruns = nsteps = 0
        oc = {}
        exhausted = True
        for out, summ in res:
            nruns += summ["runs"]
            nsteps += summ["steps"]
            exhausted = exhausted and summ["exhausted"]
            for k, v in summ["outcomes"].items():
                oc[k] = oc.get(k, 0) + v
            with open(out, "rb") as f:
                for line in f:
                    k = line.index(b'"h":[') if b'"h":[' in line else 0
                    h = hashlib.sha1(line[k:]).digest()
                    if h not in seen:
                        seen[h] = line
            os.unlink(out)
        lines = list(seen.values())
        cmdinfo = {"exe": os.path.basename(exe), "scenario": scenario, "mode": mode, "base": base, "preempt": preempt, "env": env or {}}
        for k, sp in enumerate([spec, *also]):
            acc, rej, st, tr = self.validate(lines, sp, cfg if cfg and not k else sp + ".cfg", batch=batch, timeout=timeout)
            with self.lock:
                self.evals += 0 if k else nruns
                self.validated += acc
                self.states += st
                self.trans += tr
                p = {"scenario": scenario, "mode": mode, "runs": nruns, "distinct_histories": len(lines), "scheduling_steps": nsteps,
                     "outcomes": oc, "spec": sp, "accepted": acc, "rejected": len(rej), "spec_states": st}
                if mode == "dfs":
                    p["schedules_exhausted_within_preemption_bound"] = exhausted
                    p["preemptions"] = preempt
                self.parts.append(p)
                if not k and lines and len(self.samples) < 3:
                    d = json.loads(lines[min(len(lines) - 1, 7)])
                    self.samples.append({"scenario": scenario, "id": d.get("id"), "events": d["h"][:25]})
                for line, pos, err in rej:
                    self.report(line, pos, err, sp, cmdinfo)
        return lines

    def validate(self, lines, spec, cfg, batch=None, timeout=600):
        if not lines:
            raise CheckError("no histories recorded")
        # balance: batches by total size
        nb = max(min(NCPU, (len(lines) + 39) // 40), (len(lines) + (batch or 1500) - 1) // (batch or 1500))
        groups = [lines[i::nb] for i in range(nb)]
        rej = []
        tot = [0, 0]

        def check(group):
            if not group:
                return
            f = tempfile.mktemp(dir=self.tmp, suffix=".ndjson")
            with open(f, "wb") as o:
                o.writelines(group)
            try:
                rc, out = tlc(spec, cfg, env={"TRACE": f}, workers=1, timeout=timeout, extra=["-deadlock"], tmp=self.tmp)
            finally:
                os.unlink(f)
            m = _ST.findall(out)
            rs = {int(a): int(b) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)}
            if rc == 0 and not rs and "No error has been found" in out:
                with self.lock:
                    if m:
                        tot[0] += int(m[-1][1])
                        tot[1] += int(m[-1][0])
                return
            if rs:
                with self.lock:
                    for r, pos in rs.items():
                        rej.append((group[r - 1], pos, None))
                    if m:
                        tot[0] += int(m[-1][1])
                        tot[1] += int(m[-1][0])
                return
            # the specification could not even evaluate something: find the history that causes it
            if "Parsing or semantic analysis failed" in out or "OutOfMemory" in out or "Error: Could not" in out:
                raise CheckError(f"TLC failed on {spec}:\n{out[-4000:]}")
            if len(group) == 1:
                if os.environ.get("VERIF_DEBUG"):
                    print(out[-3000:])
                with self.lock:
                    rej.append((group[0], 0, out[-1500:]))
                return
            k = len(group) // 2
            check(group[:k])
            if len(rej) < 20:
                check(group[k:])

        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(check, groups))
        return len(lines) - len(rej), rej, tot[0], tot[1]

    def report(self, line, pos, err, spec, info):
        d = json.loads(line)
        evs = d["h"]
        at = evs[pos - 1] if 0 < pos <= len(evs) else None
        for kf in self.known:
            if kf.matches(info.get("scenario"), evs, at):
                self.known_hit.append(kf)
                return
        if len(self.violations) >= 10:
            self.violations.append(None)
            return
        os.makedirs(VERIF + "/replays", exist_ok=True)
        h = hashlib.sha1(line).hexdigest()[:12]
        path = f"{VERIF}/replays/{self.prop}-{h}.json"
        with open(path, "w") as f:
            json.dump({"property": self.prop, "spec": spec, "rejected_at": pos, "event": at, "run": d, "how": info, "eval_error": err,
                       "replay": f"python3 {VERIF}/run.py replay {path}"}, f, indent=1)
        self.violations.append(path)
        print(f"  {info.get('scenario')}: history {d.get('id')} ({d.get('out')}) not allowed by {spec} at event {pos}: {json.dumps(at)[:400]}")
        if d.get("notes"):
            print("    " + d["notes"].strip().replace("\n", "\n    ")[:800])

    # -------- verdict
    def finish(self):
        wall = time.time() - self.t0
        n = len(self.violations)
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.validated,
               "samples": self.samples or [{"none": True}], "evaluations": self.evals, "parts": self.parts}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": n}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.prop}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for kf in self.known:
            if kf in self.known_hit:
                print(f"KNOWN-FINDING: property={self.prop} {kf.text}")
        shutil.rmtree(self.tmp, ignore_errors=True)
        for p in self.violations:
            if p:
                print(f"VIOLATION property={self.prop} replay={p}")
        print(f"{self.prop} {self.tier}: {self.validated} histories validated, {self.states} specification states, "
              f"{n} violations, {wall:.1f}s")
        return 1 if n else 0


# ------------------------------------------------------------------ known findings
class Known:
    """known: property=C.. scenario=<name> event=<json subset> :: text   (file known_findings.txt)"""

    def __init__(self, scenario, event, text):
        self.scenario, self.event, self.text = scenario, event, text

    def matches(self, scenario, evs, at):
        return scenario == self.scenario and at is not None and all(at.get(k) == v for k, v in self.event.items())


def load_known(prop):
    r = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) scenario=(\S+) event=(\{.*?\}) :: (.*)", l)
            if m and m.group(1) == prop:
                r.append(Known(m.group(2), json.loads(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return r


def main(checks, argv):
    if len(argv) >= 3 and argv[1] == "replay":
        return replay(argv[2], checks)
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if prop not in checks:
        print("unknown property", prop)
        return 2
    os.makedirs(BUILD, exist_ok=True)
    lk = open(BUILD + "/.lock", "w")
    fcntl.flock(lk, fcntl.LOCK_SH)
    ctx = Ctx(prop, tier, seed)
    try:
        checks[prop](ctx)
    except CheckError as e:
        print("CHECK ERROR:", e)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        if ctx.violations:
            return ctx.finish()
        return 2
    return ctx.finish()


def replay(path, checks):
    d = json.load(open(path))
    ctx = Ctx(d["property"], "quick", 1)
    f = tempfile.mktemp(dir=ctx.tmp, suffix=".ndjson")
    with open(f, "w") as o:
        o.write(json.dumps(d["run"]) + "\n")
    acc, rej, _, _ = ctx.validate([open(f, "rb").read()], d["spec"], d["spec"] + ".cfg")
    print(json.dumps(d["run"]["h"], indent=None))
    print("rejected" if rej else "accepted", [r[1] for r in rej])
    shutil.rmtree(ctx.tmp, ignore_errors=True)
    return 1 if rej else 0
