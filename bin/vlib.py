"""Machinery shared by the checks: building the drivers from the repository's
working tree, running them, running TLC on specifications and on recorded
traces, and reporting."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
NCPU = os.cpu_count() or 4


class ModelError(Exception):
    """The machinery failed: neither held nor broken."""


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations = [], {}, []
        self.assumptions = []
        self.tmp = os.path.join(BUILD, "run", "%s.%d" % (pid, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)
        self.replays = os.path.join(VERIF, "evidence", "replay")
        self.known = load_known(pid)
        self.bdir = None

    # ------------------------------------------------------------ building
    def build(self, *drivers, san=""):
        """Builds the drivers (and the library under them) from REPO."""
        t = time.time()
        key = "repo" if REPO == "/repo" else hashlib.sha1(REPO.encode()).hexdigest()[:8]
        if san:
            key += "." + re.sub(r"\W+", "", san)
        bdir = os.path.join(BUILD, key)
        os.makedirs(bdir, exist_ok=True)
        with open(bdir + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            cxx = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else "g++"
            cc = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else "gcc"
            r = run(["cmake", "-G", "Ninja", "-S", os.path.join(VERIF, "harness"), "-B", bdir,
                     "-DREPO=" + REPO, "-DCMAKE_CXX_COMPILER=" + cxx, "-DCMAKE_C_COMPILER=" + cc,
                     "-DVERIF_SAN=" + san], 120)
            if r.returncode:
                raise ModelError("cmake failed\n" + r.stdout[-3000:])
            r = run(["ninja", "-C", bdir] + list(drivers), 800)
            if r.returncode:
                raise ModelError("build failed\n" + r.stdout[-3000:])
        self.bdir = bdir
        self.timing("build", t)

    # ------------------------------------------------------------ driving
    def drive(self, driver, inputs, args=(), name=None, shards=NCPU, timeout=240, env=None):
        """Feeds scenario lines to the driver (split over processes); returns
        the trace lines.  A scenario that kills or hangs the driver is reported
        as a violation (the code under test died on a legal input)."""
        exe = os.path.join(self.bdir, driver)
        if os.environ.get("VERIF_LINES"):        # debugging aid, see tools/try.py
            with open(os.environ["VERIF_LINES"], "a") as f:
                f.write("\n".join(inputs) + "\n")
        shards = max(1, min(shards, len(inputs)))
        parts = [inputs[i::shards] for i in range(shards)]
        e = dict(os.environ, VERIF_SEED=str(SEED), **(env or {}))

        def one(part):
            out, todo = [], list(part)
            while todo:
                rc, so, se = run_raw([exe] + list(args), "\n".join(todo) + "\n", timeout, e)
                got = [x for x in so.split("\n") if x]
                if so and not so.endswith("\n"):
                    got = got[:-1]
                out += got
                if rc == 0 and len(got) == len(todo):
                    break
                if rc == 3 or len(got) >= len(todo):
                    raise ModelError("%s failed (%s): %s" % (driver, rc, se[-2000:]))
                bad = todo[len(got)]
                # once more, alone
                rc2, so2, se2 = run_raw([exe] + list(args), bad + "\n", timeout, e)
                if rc2 == 0:
                    if rc == -9 or rc is None:
                        raise ModelError("%s was killed or slow (%s)" % (driver, rc))
                    what = "died (status %s) in a run of several scenarios" % rc
                else:
                    what = "did not finish" if rc2 is None else "died (status %s)" % rc2
                    if rc2 == -9:
                        raise ModelError("%s was killed" % driver)
                self.violation("the code under test %s: %s" % (what, tail(se2 or se)),
                               {"driver": driver, "args": list(args), "input": bad,
                                "stderr": (se2 or se)[-3000:]})
                todo = todo[len(got) + 1:]
                if len(self.violations) > 3:
                    break
            return out

        t = time.time()
        with ThreadPoolExecutor(shards) as ex:
            res = [x for p in ex.map(one, parts) for x in p]
        self.timing("drive", t)
        return res

    # ------------------------------------------------------------ TLC
    def java(self):
        cls = os.path.join(BUILD, "java")
        src = os.path.join(SPEC, "java", "Dbl.java")
        out = os.path.join(cls, "Dbl.class")
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            os.makedirs(cls, exist_ok=True)
            with open(cls + ".lock", "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                r = run(["javac", "-cp", TLA + "/tla2tools.jar", "-d", cls, src], 120)
            if r.returncode:
                raise ModelError("javac: " + r.stdout)
        return "%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s" % (TLA, TLA, cls)

    def tlc(self, module, cfg, opts=(), env=None, timeout=600, workers=NCPU, heap="6g", stack="16m"):
        cp = self.java()
        md = tempfile.mkdtemp(dir=self.tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
               "-XX:ParallelGCThreads=4", "-Dfile.encoding=UTF-8",
               "-cp", cp, "tlc2.TLC", "-metadir", md, "-workers", str(workers),
               "-noGenerateSpecTE", "-config", cfg] + list(opts) + [module]
        r = run(cmd, timeout, env=env, cwd=SPEC)
        shutil.rmtree(md, ignore_errors=True)
        if r.returncode is None:
            raise ModelError("TLC ran out of time on " + module)
        return r

    def write_cfg(self, name, text):
        p = os.path.join(self.tmp, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def design(self, module, cfg, opts=(), timeout=600, env=None):
        """Exhaustive check of a design specification: must pass."""
        t = time.time()
        r = self.tlc(module, cfg, opts, timeout=timeout, env=env)
        s = tlc_stats(r.stdout)
        if "No error has been found" not in r.stdout:
            raise ModelError("design specification %s: %s" % (cfg, r.stdout[-3000:]))
        self.states += s[1]
        self.transitions += s[0]
        self.notes.setdefault("design", []).append(
            {"spec": module, "config": os.path.basename(cfg), "generated": s[0], "distinct": s[1],
             "depth": s[2], "s": round(time.time() - t, 1)})

    def scripts(self, module, cfg, num, depth, seed, timeout=300, mark="SCRIPT "):
        """Behaviours of a generator specification, as parsed JSON."""
        def one(k):
            n = num // 4 + (1 if k < num % 4 else 0)
            if n == 0:
                return []
            r = self.tlc(module, cfg, ["-simulate", "num=%d" % n, "-depth", str(depth),
                                       "-seed", str(seed * 4 + k)], workers=1, timeout=timeout, heap="1g")
            out = []
            for line in r.stdout.split("\n"):
                if line.startswith('"' + mark):
                    out.append(json.loads(json.loads(line)[len(mark):]))
            if not out:
                raise ModelError("no scripts from %s: %s" % (module, r.stdout[-2000:]))
            return out
        t = time.time()
        with ThreadPoolExecutor(4) as ex:
            res = [x for p in ex.map(one, range(4)) for x in p]
        self.timing("generate", t)
        return res

    def enumerate(self, module, cfg, timeout=300, mark="SCRIPT "):
        """What a generator specification prints, state by state (breadth
        first, exhaustive), as parsed JSON in a fixed order."""
        t = time.time()
        r = self.tlc(module, cfg, timeout=timeout)
        if "No error has been found" not in r.stdout:
            raise ModelError("generator %s: %s" % (module, r.stdout[-3000:]))
        pre = '"' + mark
        out = sorted(json.loads(x)[len(mark):] for x in r.stdout.split("\n") if x.startswith(pre))
        s = tlc_stats(r.stdout)
        self.states += s[1]
        self.transitions += s[0]
        self.timing("generate", t)
        return [json.loads(x) for x in out]

    def timing(self, k, t):
        self.notes.setdefault("seconds", {})
        self.notes["seconds"][k] = round(self.notes["seconds"].get(k, 0) + time.time() - t, 1)

    def validate(self, module, cfg, lines, env=None, timeout=700, what="trace", chunk=None, heap="6g"):
        """Checks that every trace line is a behaviour of the trace spec."""
        if not lines:
            return
        t0 = time.time()
        chunks = [lines] if not chunk else [lines[i:i + chunk] for i in range(0, len(lines), chunk)]
        for ch in chunks:
            todo = ch
            while todo:
                rej = self._validate(module, cfg, todo, env, timeout, heap)
                if rej is None:
                    break
                i = rej["t"]
                # a rejection counts when validating that trace alone repeats it
                rej2 = self._validate(module, cfg, [todo[i]], env, timeout, heap)
                if rej2 is None:
                    raise ModelError("rejection of a trace did not repeat: " + rej["why"][:2000])
                try:
                    ev = json.loads(todo[i])
                except ValueError:
                    ev = {}
                at = rej2.get("l")
                event = None
                if at is not None and isinstance(ev.get("ev"), list) and 0 < at <= len(ev["ev"]):
                    event = ev["ev"][at - 1]
                self.violation("%s rejected by %s at event %s: %s" %
                               (what, os.path.basename(module), at,
                                json.dumps(event)[:600] if event else rej2["why"][:300]),
                               {"spec": module, "config": os.path.basename(cfg), "event_index": at,
                                "event": event, "trace": ev, "tlc": rej2["why"][-6000:]})
                self.traces += i
                if len(self.violations) > 3:
                    return
                todo = todo[i + 1:]
            self.traces += len(todo)
        self.timing("validate", t0)

    def _validate(self, module, cfg, lines, env, timeout, heap="6g"):
        f = os.path.join(self.tmp, "traces.ndjson")
        with open(f, "w") as h:
            h.write("\n".join(lines) + "\n")
        e = dict(env or {}, TRACES=f)
        r = self.tlc(module, cfg, ["-deadlock"] if False else [], env=e, timeout=timeout, heap=heap)
        o = r.stdout
        s = tlc_stats(o)
        if "No error has been found" in o:
            self.states += s[1]
            self.transitions += s[0]
            return None
        if "OutOfMemory" in o or "StackOverflow" in o or "java.lang.NoClassDef" in o:
            raise ModelError("TLC: " + o[-3000:])
        if "Parsing or semantic analysis failed" in o or "Error: TLC encountered an unexpected" in o:
            raise ModelError("TLC: " + o[-3000:])
        m = re.findall(r"^(?:/\\ )?t = (\d+)$", o, re.M)
        k = re.findall(r"^(?:/\\ )?l = (\d+)$", o, re.M)
        if not m:
            if len(lines) == 1 and re.search(r"^Error: ", o, re.M):
                return {"t": 0, "l": None, "why": clean(o)}
            if re.search(r"^Error: ", o, re.M):
                # an evaluation error with no state: find the trace
                lo = lines
                base = 0
                while len(lo) > 1:
                    h = len(lo) // 2
                    a = self._validate(module, cfg, lo[:h], env, timeout, heap)
                    if a is not None:
                        lo = lo[:h]
                    else:
                        lo, base = lo[h:], base + h
                a = self._validate(module, cfg, lo, env, timeout, heap)
                if a is None:
                    raise ModelError("TLC: " + o[-3000:])
                return dict(a, t=base)
            raise ModelError("TLC: " + o[-3000:])
        return {"t": int(m[-1]) - 1, "l": int(k[-1]) if k else None, "why": clean(o)}

    # ------------------------------------------------------------ reporting
    def violation(self, msg, replay):
        for k in self.known:
            if matches_known(k, replay):
                log("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
                return
        os.makedirs(self.replays, exist_ok=True)
        p = os.path.join(self.replays, "%s-%d.json" % (self.pid, len(self.violations)))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "message": msg, "seed": SEED, "tier": TIER, **replay}, f, indent=1)
        self.violations.append(msg)
        log(msg)
        log("VIOLATION property=%s replay=%s" % (self.pid, p))

    def sample(self, x, limit=3):
        if len(self.samples) < limit:
            self.samples.append(x)

    def finish(self, extra=None):
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples}
        cov.update(self.notes)
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
              "seed": SEED, "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        log("%s: %s  (%d states, %d traces validated, %.0f s)" %
            (self.pid, "VIOLATED" if self.violations else "held", self.states, self.traces, ev["wall_s"]))
        return 1 if self.violations else 0


def tail(s):
    return " | ".join([x for x in s.strip().split("\n") if x][-3:])[:500]


def clean(o):
    return "\n".join(x for x in o.split("\n")
                     if not x.startswith(("Parsing file", "Semantic processing", "Linting")))


def tlc_stats(o):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
    d = re.findall(r"depth of the complete state graph search is (\d+)", o)
    if not m:
        m2 = re.findall(r"number of states generated: (\d+)", o)
        return (int(m2[-1]), int(m2[-1]), 0) if m2 else (0, 0, 0)
    return int(m[-1][0]), int(m[-1][1]), int(d[-1]) if d else 0


class R:
    pass


def run(cmd, timeout, env=None, cwd=None):
    r = R()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=dict(os.environ, **(env or {})), cwd=cwd, text=True, errors="replace")
        r.returncode, r.stdout = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        r.returncode, r.stdout = None, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    return r


def run_raw(cmd, stdin, timeout, env):
    try:
        p = subprocess.run(cmd, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=env, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        f = lambda b: b.decode("utf8", "replace") if isinstance(b, bytes) else (b or "")
        return None, f(e.stdout), f(e.stderr)


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("property") == pid]


def matches_known(k, replay):
    return "input" in k and k["input"] == replay.get("input")


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        log("usage: check.py PROPERTY   (one of %s)" % " ".join(sorted(table)))
        return 2
    try:
        return table[sys.argv[1]](sys.argv[1])
    except ModelError as e:
        log("ERROR (machinery): %s" % e)
        return 2
