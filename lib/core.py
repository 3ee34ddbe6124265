"""Common machinery of the checks: building the harness, running TLC, validating traces, evidence."""
import concurrent.futures as cf
import fcntl, glob, json, os, random, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
TLA = "/opt/veriftools/tla"
CLASSES = os.path.join(BUILD, "classes")
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar:{CLASSES}"
CORES = min(8, os.cpu_count() or 1)


class ToolError(Exception):
    pass


def log(*a):
    print("[check]", *a, flush=True)


class Check:
    """One run of one check: collects coverage and violations and writes the evidence."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(f"{self.seed}/{prop}")
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.assumptions, self.violations = [], [], [], []
        self.extra = {}
        self.n = self.hangs = 0

    thorough = property(lambda s: s.tier == "thorough")

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, f"{self.n:03d}-{name}")

    # ---- building -------------------------------------------------------------------------
    def build(self, crate, deep=False):
        """Builds harness/<crate> against /repo's working tree; with the deeper hooks if they compile."""
        tries = [("--cfg jester_verif --cfg jester_verif_deep", crate + "-deep")] if deep else []
        tries.append(("--cfg jester_verif", crate))
        err = ""
        for flags, name in tries:
            exe, err = self._cargo(crate, flags, name)
            if exe:
                if deep:
                    self.extra["deep_hook"] = "deep" in name
                return exe
        raise ToolError(f"harness {crate} does not build:\n{err[-4000:]}")

    def _cargo(self, crate, flags, name):
        d = os.path.join(VERIF, "harness", crate)
        target = os.path.join(BUILD, "cargo", name)
        os.makedirs(target, exist_ok=True)
        env = dict(os.environ, RUSTFLAGS=flags, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
                   RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTC_WRAPPER="", HOME="/root")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        for k in ("CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
            env.pop(k, None)
        with open(os.path.join(target, ".verif-lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", target],
                               cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return None, p.stdout
        return os.path.join(target, "release", "h_" + crate), ""

    # ---- running the implementation -------------------------------------------------------
    def harness(self, exe, args, trace, timeout=500, env=None):
        """Runs the harness; a crash of the process is an event of the trace like any other."""
        try:
            lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
            p = subprocess.run([exe] + args + [trace], preexec_fn=lim, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            self.hangs += 1
            with open(trace, "a") as f:
                f.write('{"ev":"hang"}\n')
            return
        if p.returncode == 7:   # its watchdog has written the event
            self.hangs += 1
            return
        inside = re.search(r"panicked at (/repo/)?jester_\w+/|panicked at /repo/", p.stderr)   # a panic of the code, where the harness expected none
        if p.returncode < 0 or p.returncode in (134, 139) or (p.returncode == 101 and inside):
            with open(trace, "a") as f:
                f.write('\n' if os.path.getsize(trace) and open(trace, "rb").read()[-1:] != b"\n" else "")
                f.write(json.dumps({"ev": "crash", "status": p.returncode, "why": p.stderr[-300:]}) + "\n")
        elif p.returncode != 0:
            raise ToolError(f"harness failed ({p.returncode}): {exe} {args}\n{p.stderr[-3000:]}")

    def pool(self, jobs, workers=CORES):
        """Runs callables in parallel, in order of submission; returns their results."""
        with cf.ThreadPoolExecutor(workers) as ex:
            return [f.result() for f in [ex.submit(j) for j in jobs]]

    @staticmethod
    def overrides():
        """Compiles the native evaluation of BigNat's operators."""
        os.makedirs(CLASSES, exist_ok=True)
        src, out = os.path.join(SPEC, "java", "BigNat.java"), os.path.join(CLASSES, "BigNat.class")
        with open(os.path.join(CLASSES, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
                p = subprocess.run(["javac", "-cp", CP, "-d", CLASSES, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode:
                    raise ToolError("javac: " + p.stdout)

    # ---- TLC ------------------------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers="1", timeout=600, args=(), heap="2g", props=()):
        self.overrides()
        meta = self.path("tlc")
        cmd = ["java", "-Djava.io.tmpdir=" + self.dir, "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"]
        cmd += list(props)
        cmd += ["-cp", CP, "tlc2.TLC", "-metadir", meta, "-workers", workers, "-noGenerateSpecTE",
                "-config", cfg, *args, module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module} {cfg}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.returncode, p.stdout

    def model(self, module, cfg=None, workers=str(CORES), timeout=800, heap="8g", args=(), what=""):
        """Model checks a design; it does not depend on the code, so a failure is a tool error."""
        cfg = cfg or module + ".cfg"
        t = time.time()
        rc, out = self._tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, args=args)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
        if rc != 0 or not m or "No error has been found" not in out:
            raise ToolError(f"the model {module} ({cfg}) does not satisfy its properties:\n{out[-3000:]}")
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        dm = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.states += dist
        self.transitions += gen
        self.models.append(dict(module=module, config=cfg, what=what, states=dist, transitions=gen,
                                depth=int(dm.group(1)) if dm else None, wall_s=round(time.time() - t, 1)))
        log(f"model {module} [{cfg}]: {dist} states, {gen} transitions, {time.time()-t:.1f}s")
        return out

    def simulate(self, module, cfg, num, depth, env=None, timeout=300, seed=None):
        """Behaviours of a specification: lines the model prints as ("BEHAVIOUR", json)."""
        rc, out = self._tlc(module, cfg, env=env, timeout=timeout,
                            args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed or self.seed)])
        if rc != 0:
            raise ToolError(f"simulation of {module} failed:\n{out[-3000:]}")
        return behaviours(out)

    def enumerate(self, module, cfg, env=None, timeout=600, workers="1", heap="4g"):
        """All behaviours of a (finite, history-carrying) specification, printed at their ends."""
        t = time.time()
        rc, out = self._tlc(module, cfg, env=env, timeout=timeout, workers=workers, heap=heap)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", out)
        if rc != 0 or not m:
            raise ToolError(f"enumeration of {module} ({cfg}) failed:\n{out[-3000:]}")
        gen, dist = (int(x.replace(",", "")) for x in m.groups())
        self.states += dist
        self.transitions += gen
        b = behaviours(out)
        self.models.append(dict(module=module, config=cfg, what="schedule generation", states=dist,
                                transitions=gen, behaviours=len(b), wall_s=round(time.time() - t, 1)))
        return b

    # ---- trace validation -----------------------------------------------------------------
    def validate(self, module, traces, cfg=None, env=None, timeout=800, heap="2g", explain=None, workers=CORES):
        """Validates trace files against a trace specification, in parallel.
        traces: list of (path, replay-information).  Returns the number of rejected ones."""
        cfg = cfg or module + ".cfg"
        t = time.time()

        def one(tr):
            path, info = tr
            with open(path) as f:
                n = sum(1 for _ in f)
            if n == 0:
                return (tr, 0, None)
            e = dict(env or {}, TRACE=path)
            rc, out = self._tlc(module, cfg, env=e, timeout=timeout, heap=heap)
            m = re.search(r'"REJECTED", (\d+), (\d+)', out)
            if m:
                return (tr, n, int(m.group(1)))
            if rc == 0 and "No error has been found" in out:
                return (tr, n, None)
            raise ToolError(f"validation of {path} by {module} failed to run:\n{out[-3000:]}")

        bad = 0
        for (path, info), n, at in self.pool([(lambda x=x: one(x)) for x in traces], workers):
            self.traces += 1 if n else 0
            self.events += (n if at is None else at)
            if at is not None:
                bad += 1
                self._reject(module, cfg, path, info, at, n)
        log(f"{module}: {len(traces)} traces validated, {bad} rejected, {time.time()-t:.1f}s")
        return bad

    def _reject(self, module, cfg, path, info, at, n):
        lines = open(path).read().split("\n")
        ev = lines[at - 1] if at - 1 < len(lines) else ""
        self.violations.append(dict(spec=module, config=cfg, trace=path, event_number=at, of=n,
                                    event=ev[:20000], before=[x[:2000] for x in lines[max(0, at - 6):at - 1]],
                                    info=info))

    def violation(self, **kw):
        self.violations.append(kw)

    def sample(self, x, limit=4):
        if len(self.samples) < limit:
            self.samples.append(x)

    # ---- the end --------------------------------------------------------------------------
    def finish(self):
        known = known_findings(self.prop)
        new = []
        for v in self.violations:
            text = json.dumps(v)
            k = next((k for k in known if k in text), None)
            if k:
                print(f"KNOWN-FINDING: property={self.prop} {k}")
            else:
                new.append(v)
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_validated=self.events,
                   samples=self.samples, models=self.models, **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if new:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(new[:5]):
                if v.get("trace") and os.path.exists(v["trace"]):
                    keep = os.path.join(rd, f"{self.prop}-{i}.ndjson")
                    shutil.copy(v["trace"], keep)
                    v["trace"] = keep
                p = os.path.join(rd, f"{self.prop}-{i}.json")
                with open(p, "w") as f:
                    json.dump(v, f, indent=1)
                log(json.dumps(v)[:1500])
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
        shutil.rmtree(self.dir, ignore_errors=True)
        log(f"{self.prop} {self.tier}: {self.states} states, {self.traces} traces / {self.events} events, "
            f"{len(new)} violations, {time.time()-self.t0:.1f}s")
        return 1 if new else 0


def behaviours(out):
    """Lines of the form BEHAVIOUR<json> printed by a model (one JSON string per behaviour)."""
    res = []
    for line in out.split("\n"):
        if line.startswith('"BEHAVIOUR'):
            res.append(json.loads(json.loads(line)[len("BEHAVIOUR"):]))
    return res


def known_findings(prop):
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def shards(cases, n=CORES):
    """Deals cases (lists of lines) to at most n shards."""
    k = max(1, min(n, len(cases)))
    out = [[] for _ in range(k)]
    for i, c in enumerate(cases):
        out[i % k].append(c)
    return out


def write_lines(path, lines):
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    return path
