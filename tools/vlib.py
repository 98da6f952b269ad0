"""Common machinery: build the drivers from /repo, run them, validate their
traces against the TLA+ specifications with TLC, explore the specifications
exhaustively, and report."""
import concurrent.futures as cf
import fcntl, json, os, re, shutil, subprocess, sys, time

ROOT = "/verif"
REPO = "/repo"
OUTD = ROOT + "/out"
TLA = "/opt/veriftools/tla"
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss256m", "-cp",
        TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar", "tlc2.TLC"]
BUILDS = {"asan": ["SAN=-fsanitize=address"], "tsan": ["SAN=-fsanitize=thread"], "plain": []}


UNREPEATABLE = {"thrdrv"}
STALL = 60


class MachineError(Exception):
    pass


def build(kind="asan", targets=("all",), drivers=None):
    """Builds the library of the current working tree and the drivers."""
    out = ROOT + "/build/" + kind
    os.makedirs(out, exist_ok=True)
    with open(out + "/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cmd = ["make", "-s", "-j8", "-C", ROOT + "/harness", "OUT=" + out] + BUILDS[kind] + list(targets)
        if drivers:
            cmd.append("DRIVERS=" + " ".join(drivers))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise MachineError("build failed\n" + p.stdout[-4000:])
    return out


def env_for(kind, scratch):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048",
             TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1",
             TYPELIB_PLUGIN_PATH=ROOT + "/build/" + kind + "/plug_min", VERIF_SCRATCH=scratch)
    return e


class Job:
    """One driver run and the validation of its trace."""

    def __init__(self, module, driver, ops, wd, kind="asan", timeout=600):
        self.module, self.driver, self.ops, self.wd, self.kind, self.timeout = module, driver, ops, wd, kind, timeout

    def drive(self):
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.opsf, self.trace = self.wd + "/ops.jsonl", self.wd + "/trace.ndjson"
        with open(self.opsf, "w") as f:
            for o in self.ops:
                f.write(json.dumps(o) + "\n")
        self.crash = None
        self.killed = False
        with open(self.wd + "/stderr", "wb") as err:
            p = subprocess.Popen([ROOT + "/build/%s/%s" % (self.kind, self.driver), self.opsf, self.trace],
                                 env=env_for(self.kind, self.wd), stdout=subprocess.DEVNULL, stderr=err)
            # an operation that does not return is a crash: every event is written as it happens
            size, since = -1, time.time()
            while True:
                try:
                    p.wait(timeout=.2)
                    break
                except subprocess.TimeoutExpired:
                    now = os.path.getsize(self.trace) if os.path.exists(self.trace) else 0
                    if now != size:
                        size, since = now, time.time()
                    elif time.time() - since > STALL:
                        p.kill()
                        p.wait()
                        self.crash = "the operation did not return in %d s" % STALL
                        break
        with open(self.wd + "/stderr", "rb") as err:
            text = err.read(1 << 20).decode(errors="replace")
        if p.returncode == 97:
            raise MachineError("driver: " + text[-500:])
        if p.returncode and not self.crash:
            self.killed = p.returncode == -9
            self.crash = "driver ended with %d: %s" % (p.returncode, text[:3000])
        try:
            with open(self.trace) as f:
                txt = f.read()
        except OSError:
            txt = ""
        if txt and not txt.endswith("\n"):
            txt = txt[:txt.rfind("\n") + 1]
            with open(self.trace, "w") as f:
                f.write(txt)
        self.events = txt.count("\n")
        if self.crash is None and self.events != len(self.ops):
            self.crash = "driver logged %d events of %d" % (self.events, len(self.ops))
        self.stats = {}
        for m in re.finditer(r'^\{"op":"([^"]*)".*?"res":"([^"]*)"', txt, re.M):
            k = m.group(1) + ":" + m.group(2)
            self.stats[k] = self.stats.get(k, 0) + 1

    def validate(self, explain=False):
        self.reject = None
        if self.events == 0:
            return
        e = dict(os.environ, TRACE=self.trace)
        if explain:
            e["EXPLAIN"] = "1"
        p = tlc(self.module, self.module + ".cfg", self.wd + "/meta", e, workers=1, timeout=max(300, self.timeout))
        self.log = p
        m = re.search(r"The depth of the complete state graph search is (\d+)", p)
        if "Model checking completed. No error has been found." in p and m and int(m.group(1)) == self.events + 1:
            return
        if m is None:     # an evaluation error: the last state printed says where
            ls = re.findall(r"^/\\ l = (\d+)", p, re.M)
            if "Computing initial states" not in p or not ls:
                raise MachineError("TLC failed on %s\n%s" % (self.module, p[-3000:]))
            self.reject = int(ls[-1]) - 1
        else:
            self.reject = int(m.group(1)) - 1

    def run(self):
        self.drive()
        self.validate()
        return self


def tlc(module, cfg, meta, env, workers=1, timeout=600, heap="3g"):
    cmd = JAVA[:1] + ["-Xmx" + heap, "-Djava.io.tmpdir=" + meta] + JAVA[1:] + ["-workers", str(workers), "-metadir", meta, "-config", cfg, "-noGenerateSpecTE", module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=ROOT + "/spec", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineError("TLC did not finish in %d s on %s" % (timeout, module))
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout


# ------------------------------------------------------------ exhaustive part
def model_check(module, cfg, universe, wd, timeout=700, workers=1):
    """Explores a universe; returns (states, transitions, edges) where edges is
    a list of (history, op, changes_something)."""
    os.makedirs(wd, exist_ok=True)
    uf = wd + "/universe.json"
    with open(uf, "w") as f:
        json.dump(universe, f)
    out = tlc(module, cfg, wd + "/meta", dict(os.environ, UNIVERSE=uf), workers=workers, timeout=timeout, heap="6g")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
    if "No error has been found" not in out or not m:
        raise MachineError("the specification %s does not have the properties it should\n%s" % (module, out[-3000:]))
    edges = []
    for x in re.finditer(r'<<\s*"EDGE",\s*<<([\d,\s]*)>>,\s*(\d+),\s*(TRUE|FALSE)\s*>>', out):
        h = [int(v) for v in x.group(1).split(",")] if x.group(1).strip() else []
        edges.append((h, int(x.group(2)), x.group(3) == "TRUE"))
    return int(m.group(2)), int(m.group(1)), edges


def edge_histories(universe, edges):
    """Histories that take every transition found by the exploration once."""
    by = {}
    for h, i, ch in edges:
        by.setdefault(tuple(h), ([], []))[1 if ch else 0].append(i)
    out = []
    ops = universe["ops"]
    for h, (loops, moves) in sorted(by.items()):
        base = [dict(op="reset")] + universe["prefix"] + [ops[i - 1] for i in h]
        first = [ops[i - 1] for i in loops]
        if not moves:
            out.append(base + first)
        for k, i in enumerate(moves):
            out.append(base + (first if k == 0 else []) + [ops[i - 1]])
    return out


# ------------------------------------------------------------------ sharding
def split_resets(ops):
    out = []
    for o in ops:
        if o["op"] == "reset":
            out.append([])
        out[-1].append(o)
    return out


def shards(hists, n):
    bins = [[0, []] for _ in range(n)]
    for h in hists:
        b = min(bins, key=lambda x: x[0])
        b[0] += len(h)
        b[1].append(h)
    return [b[1] for b in bins if b[1]]


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.wd = "%s/%s" % (OUTD, prop)
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0, outcomes={}, models={}, samples=[])
        self.assume = []
        self.violations = []
        self.ex = cf.ThreadPoolExecutor(8)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def explore(self, module, items, replay=True):
        """items: list of (name, cfg, universe).  Returns the histories to replay."""
        futs = [(n, u, self.ex.submit(model_check, m or module, c, u, "%s/mc-%s" % (self.wd, n), 3000 if self.thorough else 700))
                for n, c, u, m in [tuple(i) + (None,) * (4 - len(i)) for i in items]]
        hs = []
        for n, u, f in futs:
            st, tr, edges = f.result()
            h = edge_histories(u, edges) if replay else []
            self.cov["states"] += st
            self.cov["transitions"] += tr
            self.cov["models"][n] = dict(states=st, transitions=tr, depth=u.get("depth"), replayed_histories=len(h), replayed_transitions=len(edges))
            hs += h
        return hs

    def theorem(self, module, cfgs, refuted=()):
        """Checks invariants of models that have no counterpart to replay; those of `refuted` must fail."""
        futs = [(c, self.ex.submit(tlc, module, c + ".cfg", "%s/th-%s" % (self.wd, c), dict(os.environ), 2, 3000)) for c in list(cfgs) + list(refuted)]
        for c, f in futs:
            out = f.result()
            m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
            if c in refuted:
                if "is violated" not in out:
                    raise MachineError("%s/%s: what should fail does not\n%s" % (module, c, out[-2000:]))
                continue
            if "No error has been found" not in out or not m:
                raise MachineError("the specification %s does not have the properties it should\n%s" % (module, out[-3000:]))
            self.cov["states"] += int(m.group(2))
            self.cov["transitions"] += int(m.group(1))
            self.cov["models"][c] = dict(states=int(m.group(2)), transitions=int(m.group(1)))

    def conform(self, module, driver, hists, kind="asan", label=None, nsh=8, timeout=None):
        """Runs the histories on the implementation and validates the traces."""
        if self.violations:
            return
        label = label or driver
        timeout = timeout or (3000 if self.thorough else 600)
        jobs = []
        for k, sh in enumerate(shards(hists, nsh)):
            j = Job(module, driver, [o for h in sh for o in h], "%s/%s-%d" % (self.wd, label, k), kind, timeout)
            j.hists = sh
            jobs.append(j)
        for f in [self.ex.submit(j.run) for j in jobs]:
            f.result()
        for j in jobs:
            bad = j.reject if j.reject is not None else (j.events if j.crash else None)
            good = 0
            pos = 0
            for h in j.hists:
                pos += len(h)
                if bad is None or pos <= bad:
                    good += 1
            self.cov["traces_validated_against_impl"] += good
            self.cov["events_validated"] += bad if bad is not None else j.events
            for k, v in j.stats.items():
                self.cov["outcomes"][k] = self.cov["outcomes"].get(k, 0) + v
            if bad is not None and len(self.violations) < 3:
                self.violation(j, bad)
        if not self.cov["samples"] or len(self.cov["samples"]) < 3:
            for j in jobs[:1]:
                self.cov["samples"].append({"driver": driver, "history": (j.hists[len(j.hists) // 2] if j.hists else [])[:12]})
        if not self.violations:
            for j in jobs:
                shutil.rmtree(j.wd, ignore_errors=True)

    def violation(self, j, bad):
        """Reproduces a rejection on the history alone and records it."""
        pos = [0]
        for h in j.hists:
            pos.append(pos[-1] + len(h))
        start = max(p for p in pos if p <= min(bad, len(j.ops) - 1))
        if j.driver in UNREPEATABLE:
            # what threads do differs from run to run: the trace that was recorded is kept
            v = Job(j.module, j.driver, j.ops[start:bad + 1], "%s/violation-%d" % (self.wd, len(self.violations)), j.kind, j.timeout)
            shutil.rmtree(v.wd, ignore_errors=True)
            os.makedirs(v.wd)
            v.opsf, v.trace, v.crash, ops = v.wd + "/ops.jsonl", v.wd + "/trace.ndjson", j.crash, v.ops
            with open(v.opsf, "w") as f:
                f.write("".join(json.dumps(o) + "\n" for o in ops))
            with open(j.trace) as f, open(v.trace, "w") as g:
                lines = f.readlines()[start:bad + 1]
                g.write("".join(lines))
            v.events = len(lines)
            v.validate(explain=True)
            if v.reject is None and not v.crash:
                raise MachineError("rejection that does not repeat on the same trace: %s event %d" % (j.trace, bad))
            why = "recorded run"
        for lo, why in ((start, "history"), (0, "whole run")) if j.driver not in UNREPEATABLE else ():
            ops = j.ops[lo:bad + 1]
            if not ops:
                continue
            v = Job(j.module, j.driver, ops, "%s/violation-%d" % (self.wd, len(self.violations)), j.kind, 600 if lo else j.timeout)
            v.drive()
            v.validate(explain=True)
            if v.reject is not None or v.crash:
                break
        else:
            if j.driver not in UNREPEATABLE:
                # uninitialized memory, addresses...: what was recorded counts, unless something outside stopped the driver
                if j.killed:
                    raise MachineError("a driver was killed: %s event %d" % (j.opsf, bad))
                v.ops, why = ops, "recorded run (does not repeat)"
                v.crash = j.crash
                shutil.copy(j.trace, v.trace)
                with open(v.opsf, "w") as f:
                    f.write("".join(json.dumps(o) + "\n" for o in ops))
                v.events = j.events
                v.validate(explain=True)
                if v.reject is None and not v.crash:
                    raise MachineError("rejection that does not repeat: %s event %d" % (j.opsf, bad))
        info = dict(property=self.prop, build=j.kind, driver=j.driver, module=j.module, ops=v.opsf, trace=v.trace, crash=v.crash,
                    rejected_event=v.reject, scope=why, operation=ops[v.reject if v.reject is not None else min(v.events, len(ops) - 1)],
                    mismatch=re.findall(r'<<\s*"MISMATCH".*?(?=\n(?:<<|[A-Z]))', v.log if hasattr(v, "log") else "", re.S)[:8],
                    replay="%s/tools/replay.sh %s" % (ROOT, v.wd))
        with open(v.wd + "/info.json", "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append(v.wd)
        print("rejected: %s" % json.dumps(info["operation"])[:300])
        for m in info["mismatch"][:3]:
            print("  " + re.sub(r"\s+", " ", m)[:600])
        if v.crash:
            print("  " + v.crash[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, v.wd))
        sys.stdout.flush()

    def fail(self, what, name, text):
        """A violation found outside of trace validation."""
        d = "%s/violation-%d" % (self.wd, len(self.violations))
        os.makedirs(d, exist_ok=True)
        with open(d + "/" + name, "w") as f:
            f.write(text)
        self.violations.append(d)
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, d))
        sys.stdout.flush()

    def finish(self, level="model_checking"):
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=self.cov, assumptions=self.assume,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        with open("%s/evidence/%s.json" % (ROOT, self.prop), "w") as f:
            json.dump(ev, f, indent=1)
        for line in known_findings(self.prop):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, line))
        print("%s %s: %d states, %d transitions, %d traces (%d events) validated, %.1f s" % (
            self.prop, "VIOLATED" if self.violations else "held", self.cov["states"], self.cov["transitions"],
            self.cov["traces_validated_against_impl"], self.cov["events_validated"], time.time() - self.t0))
        return 1 if self.violations else 0


def known_findings(prop):
    out = []
    try:
        for l in open(ROOT + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out
