"""Shared machinery of the checks: driver process, TLC runs, evidence, verdicts."""
import json, os, re, select, shutil, subprocess, sys, time, hashlib, random, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, ".work")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(WORK, "target/debug/drv")
REPO = "/repo"
NCPU = os.cpu_count() or 4


class ToolError(Exception):
    pass


class DrvDied(Exception):
    def __init__(self, code, text):
        super().__init__("driver ended with %s: %s" % (code, text[-500:]))
        self.code = code
        self.text = text


# answers that never came, in this process; after the first the others are not waited for as long
HUNG = []


class Drv:
    """One driver process. A command is one JSON line, the answer is one JSON line."""

    def __init__(self, env=None, timeout=90, cmd=None):
        e = dict(os.environ)
        e.update(env or {})
        self.errf = tempfile.TemporaryFile()
        self.timeout = timeout
        self.p = subprocess.Popen(cmd or [DRV], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e)
        self.buf = b""

    def send(self, c):
        try:
            self.p.stdin.write((json.dumps(c) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            self._dead()

    def _dead(self, why=None):
        try:
            code = self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            code = "killed"
        self.errf.seek(0)
        raise DrvDied(why or code, self.errf.read().decode("utf8", "replace"))

    def recv(self, timeout=None):
        end = time.time() + (8 if HUNG else timeout or self.timeout)
        fd = self.p.stdout.fileno()
        chunks = []
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                chunks.append(self.buf[:i])
                self.buf = self.buf[i + 1:]
                break
            chunks.append(self.buf)
            self.buf = b""
            left = end - time.time()
            if left <= 0:
                self.p.kill()
                HUNG.append(1)
                self._dead("timeout")
            r, _, _ = select.select([fd], [], [], left)
            if r:
                d = os.read(fd, 1 << 20)
                if not d:
                    self._dead()
                self.buf = d
        a = json.loads(b"".join(chunks))
        return a

    def __call__(self, c, timeout=None):
        self.send(c)
        a = self.recv(timeout)
        self.chk(a)
        return a

    @staticmethod
    def chk(a):
        if isinstance(a, list):
            for x in a:
                Drv.chk(x)
        elif isinstance(a, dict) and ("protocol" in a or str(a.get("panic", "")).startswith("protocol:")):
            raise ToolError("driver protocol: %s" % a)

    def ok(self, c, timeout=None):
        a = self(c, timeout)
        if "ok" not in a:
            raise ToolError("unexpected answer to %s: %s" % (json.dumps(c)[:300], json.dumps(a)[:600]))
        return a["ok"]

    def callbacks(self, n, settle=False):
        """Results of n background saves; fewer when they do not come."""
        cb = self.ok({"op": "cb_wait", "n": n, "settle": settle, "ms": 3000 if HUNG else 30000})
        if len(cb) < n:
            HUNG.append(1)
        return cb

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        try:
            self.p.wait(timeout=5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


_first_build = True


def build():
    """Rebuilds the driver from /repo's current working tree."""
    r = subprocess.run(["bash", os.path.join(VERIF, "harness/build.sh")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise ToolError("build failed:\n" + r.stdout.decode("utf8", "replace")[-3000:])


def build_shim():
    src = os.path.join(VERIF, "shim/shim.c")
    out = os.path.join(WORK, "shim.so")
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-fno-delete-null-pointer-checks", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError("shim build failed: " + r.stdout.decode())
        os.rename(tmp, out)
    return out


TLC_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Tlc:
    """A TLC run in the background; .wait() returns a TlcResult."""

    def __init__(self, ctx, module, cfg, env=None, args=(), heap="2g", jopts=(), timeout=600):
        self.ctx = ctx
        self.module = module
        self.dir = ctx.scratch("tlc")
        cfgp = os.path.join(self.dir, "run.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-DTLA-Library=" + SPEC] + list(jopts) + [
            "-cp", TLC_CP, "tlc2.TLC", "-metadir", os.path.join(self.dir, "states"), "-noGenerateSpecTE",
            "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]  # a module of its own run has a full path
        self.outp = os.path.join(self.dir, "out.txt")
        self.timeout = timeout
        self.t0 = time.time()
        self.f = open(self.outp, "wb")
        self.p = subprocess.Popen(cmd, stdout=self.f, stderr=subprocess.STDOUT, env=e, cwd=self.dir)

    def wait(self):
        try:
            self.p.wait(timeout=max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError("TLC %s timed out" % self.module)
        finally:
            self.f.close()
        return TlcResult(self)


class TlcResult:
    def __init__(self, t):
        self.code = t.p.returncode
        self.wall = round(time.time() - t.t0, 1)
        self.path = t.outp
        self.generated = self.distinct = 0
        self.traces = []
        self.first = None
        tail = []
        self.err = []
        self.lines = []
        with open(t.outp, "rb") as f:
            for raw in f:
                if raw.startswith(b'"TRACE '):
                    self.traces.append(raw.rstrip(b"\n"))
                    continue
                line = raw.decode("utf8", "replace").rstrip("\n")
                if line.startswith('"'):
                    self.lines.append(line)
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    self.generated, self.distinct = int(m[1]), int(m[2])
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    self.generated = int(m[1])
                    self.distinct = max(self.distinct, 0)
                if line.startswith("Error:"):
                    self.err.append(line)
                tail.append(line)
        self.tail = "\n".join(tail[-60:])
        self.violated = [m for m in re.findall(r"Error: (?:Invariant|Action property|Temporal propert\w*|Assumption) ?(\S*)", "\n".join(tail))]

    def tags(self, tag):
        out = []
        for l in self.lines:
            s = json.loads(l)
            if s.startswith(tag + " "):
                out.append(s[len(tag) + 1:])
        return out

    def decode(self, raw):
        return json.loads(json.loads(raw.decode("utf8"))[6:])

    def must_pass(self):
        """The specification itself must satisfy its invariants."""
        if self.code != 0 or self.err:
            raise ToolError("TLC failed (%s): %s" % (self.code, self.tail[-2500:]))
        return self


class Ctx:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.assumptions = []
        self.n = 0
        self.dirs = []
        self.rng = random.Random(seed * 7919 + int(hashlib.md5(pid.encode()).hexdigest()[:6], 16))
        base = os.path.join(WORK, "run")
        os.makedirs(base, exist_ok=True)
        self.root = tempfile.mkdtemp(prefix="%s-" % pid, dir=base)
        self.limit = float(os.environ.get("VP_VIOL_LIMIT", "3"))

    def scratch(self, name):
        name = "%s%d_" % (name, os.getpid())
        while True:
            self.n += 1
            d = os.path.join(self.root, "%s%d" % (name, self.n))
            try:
                os.makedirs(d)
                return d
            except FileExistsError:
                pass    # another thread of this process took the number

    def module(self, name, body):
        """A module of this run only, e.g. with constants that a .cfg cannot express; the name to give to Tlc."""
        p = os.path.join(self.scratch("mod"), name)
        with open(p + ".tla", "w") as f:
            f.write("---- MODULE %s ----\n%s\n====\n" % (name, body))
        return p

    def add(self, k, v=1):
        self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, cap=8):
        if len(self.samples) < cap:
            self.samples.append(s)

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def violation(self, what, data):
        """Records one violation with a replay file. Returns True when enough were found."""
        d = os.path.join(WORK, "replay")
        os.makedirs(d, exist_ok=True)
        key = hashlib.md5(json.dumps([what, data], sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (self.pid, key))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, "data": data}, f, indent=1, default=str)
        self.viol.append((what, path))
        return len(self.viol) >= self.limit

    @property
    def enough(self):
        return len(self.viol) >= self.limit

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": dict(self.cov, samples=self.samples), "wall_s": round(time.time() - self.t0, 2)}
        if self.assumptions:
            ev["assumptions"] = self.assumptions
        ev["violations"] = len(self.viol)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
        for w, path in self.viol:
            print("  " + str(w)[:700])
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        sys.stdout.flush()
        return 1 if self.viol else 0

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)


def known_findings(pid):
    """Committed known findings of a property: key -> text."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == pid:
                out[m[2]] = m[3]
    return out


TRACE_CFG = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
"""


def validate(ctx, module, traces, falsify, heap="2g"):
    """Checks recorded traces (lists of events) against a trace specification; returns [(k, index, kind, text)].
    One trace per kind of event is checked a second time with that event falsified, and must be rejected then."""
    fakes, seen = [], set()
    for k, t in enumerate(traces):
        if len(t) > 120:
            continue
        for i, e in enumerate(t):
            if e["e"] not in seen:
                x = falsify(json.loads(json.dumps(e)))
                if x is not None:
                    seen.add(e["e"])
                    fakes.append((k, e["e"], t[:i] + [x] + (t[i + 1:] if e["e"] == "begin" else [])))
    p = os.path.join(ctx.scratch("trace"), "t.ndjson")
    where = []
    with open(p, "w") as f:
        for k, t in enumerate(list(traces) + [x[2] for x in fakes]):
            for i, e in enumerate(t):
                f.write(json.dumps(e, ensure_ascii=True) + "\n")
                where.append((k, i))
    r = Tlc(ctx, module, TRACE_CFG, env={"TRACE": p}, args=["-workers", "1"], heap=heap, timeout=600).wait()
    if r.code != 0 or r.err:
        raise ToolError("trace validation failed to run: " + r.tail[-2000:])
    errs, rejected = [], set()
    for l in r.tags("ERR"):
        e = json.loads(l)
        k, i = where[e["at"] - 1]
        if k < len(traces):
            errs.append((k, i, e["kind"], e["what"]))
        else:
            rejected.add(k - len(traces))
    bad = {k for k, _, _, _ in errs}
    for n, (k, e, _) in enumerate(fakes):
        if k in bad:
            continue
        if n not in rejected:
            raise ToolError("%s accepts a trace in which a %s event was falsified" % (module, e))
        ctx.add("falsified_traces_rejected", 1)
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    return errs


def pfork(fn, items):
    """Runs fn(item) for every item in a forked process of its own; returns the results."""
    import pickle
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for it in items:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = ("ok", fn(it))
            except BaseException:
                import traceback
                out = ("err", traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            os._exit(0)
        os.close(w)
        kids.append((pid, r))
    res = []
    err = None
    for pid, r in kids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            err = err or "worker died"
            continue
        st, v = pickle.loads(data)
        if st == "err":
            err = err or v
        else:
            res.append(v)
    if err:
        raise ToolError("worker failed: " + err)
    return res


def pmap(fn, items, n=None):
    """Runs fn on items in n threads; exceptions propagate."""
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(n or NCPU) as ex:
        return list(ex.map(fn, items))
