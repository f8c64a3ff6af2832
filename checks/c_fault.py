"""H05, H06, F02, F03: process death and failing file-system calls during saves."""
import json, os, random, shutil, time
import vp, hist, sdir, fault
from hist import Bad

STORE_CFG = """SPECIFICATION Spec
CONSTANTS
 Vers = {1, 2}
 Names = {"a", "b"}
 MaxOps = %d
 MaxCrash = %d
 MaxFail = %d
 Mode = "%s"
INVARIANT Safe
PROPERTY ErrKeeps
CHECK_DEADLOCK FALSE
"""


def store(ctx):
    """The step-by-step design is safe, and the variant that writes in place is not."""
    n = (3, 2, 2) if ctx.quick else (4, 3, 3)
    good = vp.Tlc(ctx, "Store", STORE_CFG % (n + ("rename",)), args=["-workers", "2"])
    bad = vp.Tlc(ctx, "Store", STORE_CFG % (n + ("inplace",)), args=["-workers", "1"])
    r = good.wait().must_pass()
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    if not bad.wait().violated:
        raise vp.ToolError("writing in place should violate the specification")


# ------------------------------------------------------------------ scenes
class HistScene:
    """A program on a history directory whose last save is the victim."""
    doc_like = staticmethod(lambda p: p.endswith(".his"))

    def __init__(self, ctx, k, beh, seed):
        self.ctx, self.k, self.beh = ctx, k, beh
        self.base = ctx.scratch("x")
        self.shim = fault.Shim(self.base)
        self.u = hist.Hist(ctx, self.base, beh["opt"], k, random.Random("%d %d" % (seed, k)))
        self.u.env = self.shim.env
        self.store = self.u.hdir

    def prepare(self):
        u = self.u
        u.begin()
        u.steps(self.beh["log"][:-1])
        u.settle()
        st = self.beh["log"][-1]
        self.root = st["root"]
        u.edit(self.root, st["size"])
        self.tag = u.rng.choice(u.TAGS)
        self.doc = u.dump("r%d" % self.root)
        self.hexd = u.hexdiff("r%d" % self.root)

    def call(self):
        """The victim; its answer."""
        c = {"op": "h_save", "h": "h", "slot": "r%d" % self.root}
        if self.tag is not None:
            c["tag"] = self.tag
        if self.k % 4 == 1:
            self.u.drv.ok(dict(c, op="h_save_nb", key="k"))
            cb = self.u.drv.callbacks(1)
            if len(cb) != 1:
                raise Bad("save", "a background save gave %d results" % len(cb))
            return cb[0][1]
        return self.u.drv(c)

    def done(self, a):
        """The call returned."""
        u = self.u
        if "panic" in a:
            raise Bad("save", "a save panicked: %s" % a["panic"])
        if "ok" in a:
            u.trace.append(u.saved(self.root, a["ok"], self.tag, self.doc, self.hexd))
            u.vopt[u.v] = u.opt
            return True
        u.trace.append({"e": "failsave", "root": self.root})
        return False

    def retry(self):
        if not self.done(self.call()):
            raise Bad("save", "a save fails after the fault is gone")

    def crashed(self):
        u = self.u
        u.trace.append({"e": "crashsave", "root": self.root, "doc": self.doc, "tag": [self.tag] if self.tag is not None else []})
        u.drv.close()
        u.drv = None
        u.restart(u.v)
        extra = [p for v, p in u.files() if v == u.v and (v, p["file"]) not in u.docs]
        u.trace.append({"e": "recover", "extra": [u.saved(self.root, p, self.tag, self.doc, self.hexd) for p in extra]})
        if extra:
            u.vopt[u.v] = u.opt

    def go_on(self, derived=False):
        """Lists, loads and saves as later processes would."""
        u = self.u
        u.list()
        u.load_all()
        v, o = u.v, u.opt
        w = 1 + v % 3
        u.restart(w, u.vopt.get(w))
        u.load_all()
        u.restart(v, o)
        fs = [p["file"] for x, p in u.files() if x == v]
        if fs:
            u.load(1, v, fs[-1])
        for _ in range(2):
            u.edit(1, 2)
            u.save(1)
        u.list()
        u.load_all()
        u.restart(w, u.vopt.get(w))
        u.load_all()
        u.edit(2, 1)
        u.save(2)
        u.list()

    def close(self):
        self.u.close()
        self.shim.close()
        shutil.rmtree(self.base, ignore_errors=True)


class SaveScene:
    """The same on a save directory."""
    doc_like = staticmethod(lambda p: os.path.basename(p) not in ("src.archive", "created_time.dat"))

    def __init__(self, ctx, k, beh, seed):
        self.ctx, self.k, self.beh = ctx, k, beh
        self.base = ctx.scratch("x")
        self.shim = fault.Shim(self.base)
        self.u = sdir.Dir(ctx, self.base, k, random.Random("%d %d" % (seed, k)), arc=k % 5 == 4)
        self.u.env = self.shim.env
        self.store = self.u.sdir

    def prepare(self):
        u = self.u
        u.begin()
        u.steps(self.beh[:-1])
        u.settle()
        st = self.beh[-1]
        self.name, self.ow = u.names[st["name"]], st["ow"]
        u.edit(1, u.rng.choice((1, 3, 5)))
        self.doc = u.snapshot(self.name, 1)

    def call(self):
        c = self.u.save_cmd(self.name, self.ow, 1)
        if self.k % 4 == 1:
            self.u.drv.ok(dict(c, op="s_save_nb", key="k"))
            cb = self.u.drv.callbacks(1)
            if len(cb) != 1:
                raise Bad("save", "a background save gave %d results" % len(cb))
            return cb[0][1]
        return self.u.drv(c)

    def done(self, a):
        self.u.saved_event(self.name, self.ow, self.doc, a, fault=True)
        return "ok" in a

    def retry(self):
        self.u.saved_event(self.name, self.ow, self.doc, self.call())

    def crashed(self):
        u = self.u
        u.saved_event(self.name, self.ow, self.doc, None)
        u.drv.close()
        u.drv = None
        u.restart(u.v)

    def archives(self):
        """Archives that exist must be whole."""
        u = self.u
        with vp.Drv() as d:
            for v, h in u.hash.items():
                p = os.path.join(u.sdir, h, "src.archive")
                if os.path.exists(p):
                    a = d({"op": "src", "arc": p, "to": "x", "validation": False})
                    if a.get("ok") != h:
                        raise Bad("crash", "the archived source is not complete: %s" % json.dumps(a)[:200])

    def go_on(self):
        u = self.u
        self.archives()
        u.load_all()
        v = u.v
        w = 1 + v % 3
        u.restart(w)
        u.load_all()
        u.restart(v)
        u.load(v, self.name)
        u.edit(1)
        u.save(self.name, True)
        u.edit(2)
        u.save("later", False, 2)
        u.load_all()
        u.restart(w)
        u.load_all()
        u.edit(1)
        u.save(self.name, False)
        u.load_all()

    close = HistScene.close


def snap(d):
    """path (relative) -> (inode, size, mtime) of the files below d"""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            st = os.stat(p)
            out[p] = (st.st_ino, st.st_size, st.st_mtime_ns)
    return out


def calls_trace(scene, before, after, log):
    """Events for FsTrace from the recorded calls of one complete save."""
    base = scene.base
    rel = lambda p: p[len(base):]
    kind = lambda p: "arc" if os.path.basename(p) == "src.archive" else "doc" if scene.doc_like(p) and os.path.dirname(os.path.dirname(p)) == scene.store else ""
    init = [{"p": rel(p), "kind": kind(p), "dir": rel(os.path.dirname(p))} for p in before if kind(p)]
    fin = [{"p": rel(p), "kind": kind(p), "dir": rel(os.path.dirname(p)), "len": after[p][1], "same": before.get(p) == after[p]} for p in after if kind(p)]
    like = sorted({q for _, p, p2, _ in log for q in (p, p2) if q and kind(base + q) == "doc"})
    ev = [{"e": "begin", "files": init, "final": fin, "like": like}]
    for k, p, q, n in log:
        if k == "rename":
            ev.append({"e": "rename", "p": p, "q": q})
        elif k in ("create", "write", "truncate", "unlink"):
            ev.append({"e": k, "p": p, "n": n})
        elif k not in ("stat", "open", "read", "opendir", "readdir"):
            ev.append({"e": "other"})
    return ev + [{"e": "end"}]


def points(log, mode):
    """Faults to inject into a save that makes these calls: [(mode, at, errno, part)]"""
    out = []
    for i, (k, _, _, n) in enumerate(log):
        if mode == "crash":
            out.append((fault.DIE, i + 1, 0, 0))
            if k == "write" and n > 1:
                out.append((fault.DIE, i + 1, 0, 50))
        else:
            mut = k in ("create", "write", "rename", "mkdir", "unlink", "truncate", "fsync")
            out.append((fault.ONCE, i + 1, (fault.EIO, fault.EACCES, fault.ENOSPC)[i % 3], 0))
            if mut:
                out.append((fault.STICKY, i + 1, fault.ENOSPC if i % 2 else fault.EIO, 50 if k == "write" and n > 1 else 0))
    return out


def survey(ctx, cls, k, beh, seed, mode):
    """Runs the scene without a fault: its calls, the trace of the run and of the calls."""
    s = cls(ctx, k, beh, seed)
    bad, log, fst = None, [], None
    try:
        s.prepare()
        before = snap(s.store)
        s.shim.arm(fault.COUNT, muts=1 if mode == "crash" else 0)
        a = s.call()
        s.shim.off()
        log = s.shim.log()
        fst = calls_trace(s, before, snap(s.store), log)
        s.done(a)
        s.go_on()
    except Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("died", str(e))
    finally:
        s.close()
    return s.u.trace, bad, log, fst


def inject(ctx, cls, k, beh, seed, mode, pt):
    s = cls(ctx, k, beh, seed)
    bad = None
    hit = 0
    try:
        s.prepare()
        s.shim.arm(pt[0], pt[1], pt[2], pt[3], muts=1 if mode == "crash" else 0)
        try:
            a = s.call()
        except vp.DrvDied as e:
            if mode != "crash" or not s.shim.hit:
                raise
            a = None
        hit = s.shim.hit
        s.shim.off()
        if a is None:
            s.crashed()
        elif not s.done(a):
            # the fault is over: everything is as before, and the same call succeeds
            if isinstance(s, HistScene):
                s.u.list()
            s.u.load_all()
            s.retry()
        s.go_on()
    except Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("died", str(e))
    finally:
        s.close()
    return s.u.trace, bad, hit


ANY = {"crash", "load", "list", "newest", "name", "reuse", "save", "died", "file", "open", "conv", "edit", "remove"}


def campaign(ctx, cls, behs, mode, cap):
    seed = ctx.seed
    n = vp.NCPU
    ids = list(range(len(behs)))
    surveys = [x for r in vp.pfork(lambda ks: [(k,) + survey(ctx, cls, k, behs[k], seed, mode) for k in ks if len(vp.HUNG) < 2], [ids[i::n] for i in range(n) if ids[i::n]]) for x in r]
    surveys.sort(key=lambda x: x[0])
    jobs = []
    for k, trace, bad, log, fst in surveys:
        if bad:
            if ctx.violation("without any fault: " + bad[1], {"fault": mode, "k": k, "beh": behs[k], "seed": seed, "pt": None}):
                return
        jobs += [(k, pt) for pt in points(log, mode)]
    all_points = len(jobs)
    if len(jobs) > cap:
        ctx.rng.shuffle(jobs)
        jobs = sorted(jobs[:cap])
    t = time.time()
    runs = [x for r in vp.pfork(lambda js: [(k, pt) + inject(ctx, cls, k, behs[k], seed, mode, pt) for k, pt in js if len(vp.HUNG) < 2], [jobs[i::n] for i in range(n) if jobs[i::n]]) for x in r]
    if os.environ.get("VP_TIME"):
        print("scenes", len(behs), "points", all_points, "run", len(jobs), round(time.time() - t, 1))
    ctx.add("fault_points", all_points)
    ctx.add("fault_points_run", len(runs))
    ctx.add("faults_hit", sum(1 for r in runs if r[4]))
    ctx.sample(json.dumps({"scene": behs[0], "calls": surveys[0][3][:12]})[:900])
    ctx.sample(json.dumps([r[2][-8:] for r in runs[len(runs) // 2:][:1]])[:900])
    ctx.add("traces_validated_against_impl", len(runs) + 2 * len(surveys))
    for k, pt, trace, bad, hit in runs:
        if bad and bad[0] in ANY and ctx.violation("%s (fault %s in scene %d)" % (bad[1], list(pt), k), {"fault": mode, "k": k, "beh": behs[k], "seed": seed, "pt": pt}):
            return
    # the calls themselves
    fsts = [(k, f) for k, _, _, _, f in surveys if f]
    errs = sdir.validate(ctx, [f for _, f in fsts], "FsTrace")
    incomplete = {j for j, _, kind, _ in errs if kind == "record"}
    ctx.add("call_records_incomplete", len(incomplete))
    if mode == "crash":
        for j, i, kind, what in errs:
            if kind == "crash" and j not in incomplete and ctx.violation(what, {"fault": mode, "k": fsts[j][0], "beh": behs[fsts[j][0]], "seed": seed, "pt": None}):
                return
    check = hist.validate if cls is HistScene else sdir.validate
    parts = [p for p in (runs[i::6] for i in range(6)) if p]
    for part, errs in vp.pmap(lambda p: (p, check(ctx, [r[2] for r in p])), parts, 6):
        for j, i, kind, what in errs:
            k, pt = part[j][:2]
            if kind in ANY and ctx.violation("%s (event %d, fault %s in scene %d)" % (what, i, list(pt), k), {"fault": mode, "k": k, "beh": behs[k], "seed": seed, "pt": pt}):
                return


def pick(behs, n, rng, key):
    """Behaviours that end in a save, as different as possible."""
    out, seen = [], {}
    for b in behs:
        x = key(b)
        if x is not None:
            seen.setdefault(x, []).append(b)
    while len(out) < n and seen:
        keys = sorted(seen)
        rng.shuffle(keys)
        for x in keys:
            l = seen[x]
            out.append(l.pop(rng.randrange(len(l))))
            if not l:
                del seen[x]
            if len(out) >= n:
                break
    return out


def hist_key(b):
    log = b["log"]
    if not log or log[-1]["op"] != "save":
        return None
    before = [x for x in log[:-1]]
    v = 1
    saved = set()
    for x in before:
        if x["op"] == "restart":
            v = x["v"]
        if x["op"] == "save":
            saved.add(v)
    o = b["opt"]
    return json.dumps([v in saved, len(saved - {v}), [x["op"] for x in before[-2:]], min(o["maxp"], 2), o["cum"]])


def hist_scenes(ctx, n, seed):
    import c_history as c
    o = c.all_opts((0, 1, 2), nths=(0, 1), cnts=(0, 2))
    jobs = [dict(opts=o, sizes=(1, 3), saves=9, depth=d, vers=(1, 2), roots=(1, 2), feat=["load", "restart", "new", "prune"], mode="sim", num=m * 4, seed=seed + d, inv="PhaseBound")
            for d, m in ((1, 20), (2, 40), (4, 90), (6, 90))]
    behs = c.behaviours(ctx, jobs)
    return pick(behs, n, ctx.rng, hist_key)


def save_key(b):
    if not b or b[-1]["op"] != "save":
        return None
    v, names, vs = 1, {}, set()
    for x in b[:-1]:
        if x["op"] == "restart":
            v = x["v"]
        elif x["op"] == "save":
            names[(v, x["name"])] = 1
            vs.add(v)
        elif x["op"] == "remove":
            names.pop((x["v"], x["name"]), None)
    return json.dumps([v in vs, (v, b[-1]["name"]) in names, b[-1]["ow"], len(names) > 1])


def save_scenes(ctx, n, seed):
    import c_files as c
    jobs = [dict(names=("a", "b"), vers=(1, 2), depth=d, feat=["remove", "restart"], mode="sim", num=m * 4, seed=seed + d) for d, m in ((1, 20), (2, 40), (3, 80), (5, 80))]
    return pick(c.behaviours(ctx, jobs), n, ctx.rng, save_key)


def h05(ctx):
    store(ctx)
    campaign(ctx, HistScene, hist_scenes(ctx, 70 if ctx.quick else 300, ctx.seed + 50), "crash", 2200 if ctx.quick else 20000)


def h06(ctx):
    store(ctx)
    campaign(ctx, HistScene, hist_scenes(ctx, 40 if ctx.quick else 200, ctx.seed + 60), "fail", 2200 if ctx.quick else 20000)


def f02(ctx):
    store(ctx)
    campaign(ctx, SaveScene, save_scenes(ctx, 90 if ctx.quick else 300, ctx.seed + 20), "crash", 2200 if ctx.quick else 20000)


def f03(ctx):
    store(ctx)
    campaign(ctx, SaveScene, save_scenes(ctx, 80 if ctx.quick else 300, ctx.seed + 30), "fail", 2200 if ctx.quick else 20000)


HCHECKS = {"H05": (h05, "model_checking"), "H06": (h06, "model_checking")}
FCHECKS = {"F02": (f02, "model_checking"), "F03": (f03, "model_checking")}


def replay(ctx, rec):
    d = rec["data"]
    cls = HistScene if ctx.pid[0] == "H" else SaveScene
    campaign_one(ctx, cls, d)


def campaign_one(ctx, cls, d):
    if d["pt"] is None:
        trace, bad, log, fst = survey(ctx, cls, d["k"], d["beh"], d["seed"], d["fault"])
        if fst:
            errs = sdir.validate(ctx, [fst], "FsTrace")
            if not any(k == "record" for _, _, k, _ in errs):
                for _, _, kind, what in errs:
                    ctx.violation(what, d)
    else:
        trace, bad, _ = inject(ctx, cls, d["k"], d["beh"], d["seed"], d["fault"], tuple(d["pt"]))
    if bad:
        ctx.violation(bad[1], d)
    check = hist.validate if cls is HistScene else sdir.validate
    for _, i, kind, what in check(ctx, [trace]):
        if kind in ANY:
            ctx.violation("%s (event %d)" % (what, i), d)
