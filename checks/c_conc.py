"""H04, H09, F05: background and concurrent saves."""
import json, os, random, shutil, time
import vp, hist, sdir, fault
from hist import Bad


def opts():
    import c_history as c
    return [c.opt(0), c.opt(0, cum=False), c.opt(1), c.opt(1, cum=False), c.opt(2, cnt=2), c.opt(2, upd0=False, cum=False), c.opt(3, nth=1)]


# ------------------------------------------------------------------ H04
Q_CFG = """SPECIFICATION Spec
CONSTANTS
 Roots = {1, 2}
 Depth = %d
 MaxCalls = %d
 CountAt = "%s"
 Pick <- %s
INVARIANTS All %s
%s
CHECK_DEADLOCK FALSE
"""


def queue_programs(ctx, num):
    n = (6, 3) if ctx.quick else (7, 4)
    good = vp.Tlc(ctx, "HistoryQueue", Q_CFG % (n + ("call", "Ident", "", "VIEW View")), args=["-workers", "3"])
    bad = vp.Tlc(ctx, "HistoryQueue", Q_CFG % (n + ("start", "Ident", "", "VIEW View")), args=["-workers", "1"])
    sims = [vp.Tlc(ctx, "HistoryQueue", Q_CFG % (d, 40, "call", "One", "EmitInv", ""), args=["-simulate", "num=%d" % m, "-depth", str(5 * d), "-seed", str(ctx.seed + d), "-workers", "1"])
            for d, m in ((6, num), (12, num), (20, num))]
    r = good.wait().must_pass()
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    if not bad.wait().violated:
        raise vp.ToolError("counting saves from their start should violate VacantSafe")
    out = []
    for s in sims:
        r = s.wait().must_pass()
        ctx.add("simulated_steps", r.generated)
        l = sorted(set(r.traces))
        random.Random(ctx.seed).shuffle(l)
        out += [r.decode(x) for x in l[:num]]
    return out


class Queue:
    def __init__(self, ctx, k, log, seed):
        self.k, self.log = k, log
        self.base = ctx.scratch("q")
        self.shim = fault.Shim(self.base)
        self.rng = random.Random("%d %d" % (seed, k))
        self.h = hist.Hist(ctx, self.base, self.rng.choice(opts()), k, self.rng)
        self.h.env = self.shim.env
        self.ev = [{"e": "begin"}]
        self.calls = []
        self.open = []   # calls without callback yet
        self.stop = None

    def hdir(self):
        d = os.path.join(self.h.hdir, self.h.hash[self.h.v])
        return sorted(n for n in os.listdir(d) if n.endswith(".his")) if os.path.isdir(d) else []

    def call(self, root, vacant):
        h, rng = self.h, self.rng
        tag = rng.choice(h.TAGS)
        doc = h.dump("r%d" % root)
        hexd = h.hexdiff("r%d" % root)
        key = "k%d" % (len(self.ev))
        c = {"op": "h_save_nb", "h": "h", "slot": "r%d" % root, "key": key, "vacant": vacant}
        if tag is not None:
            c["tag"] = tag
        if self.stop == "cb":
            c["pause"] = 40
        settled = not self.open
        for _ in range(20):
            res = h.call(c, "save", "a background save").get("ok")
            if res or not settled:
                break
            time.sleep(.1)
        if res:
            self.calls.append({"key": key, "root": root, "tag": tag, "doc": doc, "hex": hexd, "props": None})
            self.open.append(self.calls[-1])
        self.ev.append({"e": "call", "id": key, "vacant": vacant, "res": bool(res), "settled": settled, "name": ""})
        if vacant and res:
            self.ev.append({"e": "obs", "names": self.hdir()})
        if res and self.stop:
            if self.stop == "save":
                for _ in range(1500):
                    if self.shim.hit:
                        break
                    time.sleep(.002)
            self.stop = None
        if rng.random() < .5:
            h.edit(root, rng.choice((1, 2, 3)))   # not part of what was saved

    def drain(self):
        self.shim.off()
        self.stop = None
        h = self.h
        if not self.open:
            return
        for key, a, _ in h.drv.callbacks(len(self.open), True):
            self.ev.append({"e": "cb", "id": key, "ok": "ok" in a, "what": json.dumps(a)[:200]})
            for c in self.calls:
                if c["key"] == key and "ok" in a:
                    c["props"] = a["ok"]
        for c in self.open:
            if c["props"]:
                h.trace.append(h.saved(c["root"], c["props"], c["tag"], c["doc"], c["hex"]))
        self.open = []

    def run(self):
        h = self.h
        h.begin()
        for st in self.log:
            op = st["op"]
            if op == "edit":
                h.edit(st["root"], self.rng.choice((1, 2, 3, 4)))
            elif op in ("nb", "vacant"):
                self.call(st["root"], op == "vacant")
            elif op == "stop":
                self.drain()
                self.stop = st["at"]
                if self.stop == "save":
                    self.shim.arm(fault.STOP, self.rng.choice((1, 2, 3)), muts=1)
            elif op == "release":
                self.shim.off()
            elif op == "drain":
                self.drain()
            elif op == "load":
                self.drain()
                fs = h.files()
                if fs:
                    v, p = self.rng.choice(fs)
                    h.load(st["root"], v, p["file"])
        self.drain()
        self.ev.append({"e": "end"})
        names = {c["key"]: c["props"]["file"] for c in self.calls if c["props"]}
        for e in self.ev:
            if e["e"] == "call":
                e["name"] = names.get(e["id"], "?")
        h.list()
        h.load_all()
        h.restart(h.v)
        h.load_all()

    def close(self):
        self.shim.off()
        self.h.close()
        self.shim.close()
        shutil.rmtree(self.base, ignore_errors=True)


def q_one(ctx, k, log, seed):
    q = Queue(ctx, k, log, seed)
    bad = None
    try:
        q.run()
    except Bad as b:
        bad = b.what
    except vp.DrvDied as e:
        bad = str(e)
    finally:
        q.close()
    return k, q.h.trace, q.ev, bad


Q_KINDS = {"load", "save", "phase", "name", "reuse", "list", "newest", "file"}


def q_judge(ctx, logs, runs, seed):
    d = lambda k: {"queue": logs[k], "k": k, "seed": seed}
    for k, _, _, bad in runs:
        ctx.add("traces_validated_against_impl", 1)
        if bad and ctx.violation(bad, d(k)):
            return
    for j, i, kind, what in sdir.validate(ctx, [r[2] for r in runs if not r[3]], "QueueTrace"):
        k = [r for r in runs if not r[3]][j][0]
        if ctx.violation("%s (event %d of run %d)" % (what, i, k), d(k)):
            return
    parts = [p for p in (runs[i::4] for i in range(4)) if p]
    for part, errs in vp.pmap(lambda p: (p, hist.validate(ctx, [t for _, t, _, _ in p])), parts, 4):
        for j, i, kind, what in errs:
            k = part[j][0]
            if kind in Q_KINDS and ctx.violation("%s (event %d of run %d)" % (what, i, k), d(k)):
                return


def spread(fn, items, n=None):
    n = n or vp.NCPU
    parts = [items[i::n] for i in range(n) if items[i::n]]
    return [x for r in vp.pfork(lambda p: [fn(x) for x in p if len(vp.HUNG) < 2], parts) for x in r]


def h04(ctx):
    logs = queue_programs(ctx, 110 if ctx.quick else 900)
    runs = spread(lambda k: q_one(ctx, k, logs[k], ctx.seed), list(range(len(logs))), 2 * vp.NCPU)
    if os.environ.get("VP_TIME"):
        print("programs", len(logs), time.time() - ctx.t0)
    runs.sort(key=lambda r: r[0])
    for r in runs[:2]:
        ctx.sample(json.dumps(r[2])[:900])
    ev = [e for r in runs for e in r[2]]
    ctx.add("background_saves", sum(1 for e in ev if e["e"] == "cb"))
    ctx.add("vacant_accepted", sum(1 for e in ev if e["e"] == "obs"))
    ctx.add("vacant_refused", sum(1 for e in ev if e["e"] == "call" and not e["res"]))
    q_judge(ctx, logs, runs, ctx.seed)


# ------------------------------------------------------------------ concurrent programs
def lin(ctx, module, recs):
    """Checks run records; returns the indices of those without an explaining order."""
    out = []

    def one(part):
        p = os.path.join(ctx.scratch("lin"), "t.ndjson")
        # two runs once more with a falsified answer, which must not be explained
        fakes = []
        for i, (_, r) in enumerate(part):
            j = next((j for j, o in enumerate(r["ops"]) if o["e"] == "load" and o.get("ok", True)), None)
            if j is not None and len(fakes) < 2:
                x = json.loads(json.dumps(r))
                x["ops"][j]["doc"] = -7
                fakes.append((i, x))
        with open(p, "w") as f:
            for _, r in part + fakes:
                f.write(json.dumps(r, ensure_ascii=True) + "\n")
        r = vp.Tlc(ctx, module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", env={"TRACE": p}, args=["-workers", "1"], heap="3g", timeout=700).wait()
        if r.code != 0 or r.err:
            raise vp.ToolError("%s failed: %s" % (module, r.tail[-2000:]))
        done = {int(x) - 1 for x in r.tags("DONE")}
        for n, (i, _) in enumerate(fakes):
            if i in done and len(part) + n in done:
                raise vp.ToolError("%s explains a run with a falsified answer" % module)
        ctx.add("falsified_traces_rejected", sum(1 for i, _ in fakes if i in done))
        return r, [part[i][0] for i in range(len(part)) if i not in done]
    items = list(enumerate(recs))
    for r, missing in vp.pmap(one, [items[i::4] for i in range(4) if items[i::4]], 4):
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        out += missing
    return sorted(out)


class HistConc:
    """Threads on one or two history directories."""

    def __init__(self, ctx, k, seed, pause=None, shape=None):
        self.k = k
        self.rng = random.Random("%d %d" % (seed, k))
        self.base = ctx.scratch("c")
        self.shim = fault.Shim(self.base)
        self.pause = pause
        o = self.rng.choice(opts())
        self.two = self.rng.random() < .25
        self.hs = []
        srcs = hist.write_sources(self.base)
        self.h = hist.Hist(ctx, self.base, o, k, self.rng, srcs=srcs)
        self.h.env = self.shim.env
        self.ops = {"h": [], "g": []}
        self.gen = {}
        self.plan = []   # (thread, index of command, function of its result)

    def open(self):
        h = self.h
        h.begin()
        self.dirs = {"h": h.hdir, "g": os.path.join(self.base, "hist2")}
        os.makedirs(self.dirs["g"])
        h.drv.ok({"op": "h_open", "h": "g", "hdir": self.dirs["g"], "src": {"dir": h.srcs[h.v]}, "opts": hist.drv_opts(h.opt, self.k)})
        for t in range(4):
            for d in "hg":
                h.drv.ok({"op": "h_src", "h": d, "to": "t%d%s" % (t, d)})
                self.gen[(t, d)] = 0

    def thread(self, t, n, names, last=False):
        """Commands of one thread and what they mean: [(cmd, meaning)]"""
        rng = self.rng
        out = []
        for _ in range(n):
            d = "g" if self.two and rng.random() < .4 else "h"
            slot = "t%d%s" % (t, d)
            w = rng.random()
            if w < .72 or (w < .86 and not names[d]):
                for c in hist.edits(rng, slot, rng.choice((1, 2, 3, 4))):
                    out.append((c, None))
                out.append(({"op": "dump", "slot": slot, "schema": "v%d" % self.h.v}, ("dump",)))
                key = "n%d_%d_%d" % (t, len(out), rng.randrange(10**6))
                nb = rng.random() < .35
                tag = rng.choice((None, None, "x"))
                c = {"op": "h_save_nb" if nb else "h_save", "h": d, "slot": slot}
                if nb:
                    c["key"] = key
                if tag:
                    c["tag"] = tag
                out.append((c, ("save", d, (t, d), nb, key, [tag] if tag else [])))
                if nb and rng.random() < .6:
                    for c in hist.edits(rng, slot, 1):
                        out.append((c, None))
            elif w < .86:
                name = rng.choice(names[d])
                out.append(({"op": "h_load", "h": d, "file": name, "hash": self.h.hash[self.h.v], "to": slot}, ("load", d, (t, d), name)))
                out.append(({"op": "dump", "slot": slot, "schema": "v%d" % self.h.v}, ("loaded",)))
            else:
                out.append(({"op": "h_list", "h": d}, ("list", d)))
        return out

    def take(self, prog, res):
        """Turns the answers of one thread into operations."""
        doc = None
        for (c, m), (t0, t1, a) in zip(prog, res):
            if "panic" in a:
                raise Bad("conc", "%s panicked: %s" % (c["op"], a["panic"]))
            if m is None:
                continue
            if "ok" not in a:
                raise Bad("conc", "%s failed in a concurrent run: %s" % (c["op"], a["err"]))
            a = a["ok"]
            if m[0] == "dump":
                doc = self.h.tok(a)
            elif m[0] == "save":
                _, d, who, nb, key, tag = m
                o = {"e": "save", "t0": t0, "t1": t1, "c1": t1, "nb": nb, "root": "%d%s%d" % (who + (self.gen[who],)), "doc": doc, "tag": tag}
                if nb:
                    self.pend[key] = (d, o)
                else:
                    self.saved(d, o, a)
            elif m[0] == "load":
                _, d, who, name = m
                self.gen[who] += 1
                self.last = {"e": "load", "t0": t0, "t1": t1, "c1": t1, "nb": False, "root": "%d%s%d" % (who + (self.gen[who],)), "name": name}
                self.ops[d].append(self.last)
            elif m[0] == "loaded":
                self.last["doc"] = self.h.tok(a)
            elif m[0] == "list":
                self.ops[m[1]].append({"e": "list", "t0": t0, "t1": t1, "c1": t1, "nb": False, "names": [p["file"] for _, p, _ in a["files"]]})

    def saved(self, d, o, p):
        path = os.path.join(self.dirs[d], self.h.hash[self.h.v], p["file"])
        if not os.path.exists(path):
            raise Bad("conc", "save reported %s but there is no such file" % p["file"])
        o.update(name=p["file"], ctl=p["ctl"], prev=p["prev"], order=p["order"], size=self.h.file_info(path))
        self.ops[d].append(o)

    def timed(self, c):
        return self.h.drv({"op": "timed", "cmd": c})

    def names(self):
        return {d: [o["name"] for o in self.ops[d] if o["e"] == "save"] for d in "hg"}

    def run(self):
        rng, drv = self.rng, None
        self.open()
        drv = self.h.drv
        self.pend = {}
        for _ in range(rng.choice((0, 1, 2))):
            p = self.thread(rng.randrange(3), rng.choice((1, 2)), {"h": [], "g": []})
            p = [(dict(c, op="h_save") if c["op"] == "h_save_nb" else c, m[:3] + (False,) + m[4:] if m and m[0] == "save" else m) for c, m in p]
            self.take(p, [self.timed(c) for c, _ in p])
        names = self.names()
        progs = [self.thread(t, rng.choice((1, 2, 2, 3)), names) for t in range(rng.choice((2, 2, 3)))]
        if self.pause:
            self.shim.arm(fault.PAUSE, self.pause[0], part=self.pause[1])
        res = drv.ok({"op": "par", "threads": [[c for c, _ in p] for p in progs]})
        self.settle(progs, res)
        for d in "hg":
            p = [({"op": "h_list", "h": d}, ("list", d))]
            for n in self.names()[d]:
                p.append(({"op": "h_load", "h": d, "file": n, "hash": self.h.hash[self.h.v], "to": "z"}, ("load", d, (3, d), n)))
                p.append(({"op": "dump", "slot": "z", "schema": "v%d" % self.h.v}, ("loaded",)))
            self.take(p, [self.timed(c) for c, _ in p])

    def settle(self, progs, res):
        for p, r in zip(progs, res):
            if r is None:
                raise Bad("conc", "a thread ended")
            self.take(p, r)
        cbs = self.h.drv.callbacks(len(self.pend), True) if self.pend else []
        self.shim.off()
        if sorted(x[0] for x in cbs) != sorted(self.pend):
            raise Bad("conc", "callbacks of %s instead of %s" % (sorted(x[0] for x in cbs), sorted(self.pend)))
        for key, a, t in cbs:
            d, o = self.pend[key]
            o["t1"] = t
            if "ok" not in a:
                raise Bad("conc", "a background save failed: %s" % json.dumps(a)[:200])
            self.saved(d, o, a["ok"])

    def records(self):
        return [{"opt": self.h.opt, "ops": self.ops[d]} for d in "hg" if self.ops[d]]

    def close(self):
        self.shim.off()
        self.h.close()
        self.shim.close()
        shutil.rmtree(self.base, ignore_errors=True)


class SaveConc:
    """Threads on one save directory."""

    def __init__(self, ctx, k, seed, pause=None):
        self.k = k
        self.rng = random.Random("%d %d" % (seed, k))
        self.base = ctx.scratch("c")
        self.shim = fault.Shim(self.base)
        self.pause = pause
        self.s = sdir.Dir(ctx, self.base, k, self.rng, arc=k % 7 == 6)
        self.s.env = self.shim.env
        self.ops = []

    def thread(self, t, n):
        rng, out, slot = self.rng, [], "t%d" % t
        dump = ({"op": "dump", "slot": slot, "schema": "v1"}, ("dump",))
        for _ in range(n):
            w = rng.random()
            name = rng.choice(("a", "a", "b"))
            if w < .7:
                out += [(c, None) for c in hist.edits(rng, slot, rng.choice((1, 3, 5)))]
                out.append(dump)
                key = "n%d_%d_%d" % (t, len(out), rng.randrange(10**6))
                nb, ow = rng.random() < .4, rng.random() < .4
                c = self.s.save_cmd(name, ow, op="s_save_nb" if nb else "s_save", slot=slot, **({"key": key} if nb else {}))
                out.append((c, ("save", name, ow, nb, key)))
                if nb and rng.random() < .7:
                    out += [(c, None) for c in hist.edits(rng, slot, 1)]
            elif w < .87:
                z = "z%d" % t
                out.append(({"op": "s_src", "s": "s", "to": z}, None))
                out.append(({"op": "s_load", "s": "s", "path": os.path.join(self.s.sdir, self.s.hash[1], name), "to": z}, ("load", name)))
                out.append(({"op": "dump", "slot": z, "schema": "v1"}, ("loaded",)))
            else:
                out.append(({"op": "s_list", "sdir": self.s.sdir}, ("list",)))
        return out

    def take(self, prog, res):
        doc = None
        for (c, m), (t0, t1, a) in zip(prog, res):
            if "panic" in a:
                raise Bad("conc", "%s panicked: %s" % (c["op"], a["panic"]))
            if m is None:
                continue
            base = {"e": m[0], "t0": t0, "t1": t1, "ok": "ok" in a}
            if m[0] == "dump":
                doc = self.s.tok(a["ok"])
            elif m[0] == "save":
                o = dict(base, name=m[1], ow=m[2], doc=doc)
                if m[3]:
                    self.pend[m[4]] = o
                else:
                    self.ops.append(o)
            elif m[0] == "load":
                self.last = dict(base, name=m[1], doc=0)
                self.ops.append(self.last)
            elif m[0] == "loaded":
                if self.last["ok"]:
                    self.last["doc"] = self.s.tok(a["ok"])
            elif m[0] == "list":
                if "ok" not in a:
                    raise Bad("conc", "listing failed in a concurrent run: %s" % a["err"])
                self.ops.append(dict(base, names=[n for _, n, _, _ in a["ok"]]))

    def run(self):
        rng, s = self.rng, self.s
        s.begin()
        drv = s.drv
        self.pend = {}
        for t in range(4):
            drv.ok({"op": "s_src", "s": "s", "to": "t%d" % t})
        timed = lambda c: drv({"op": "timed", "cmd": c})
        for _ in range(rng.choice((0, 0, 1))):
            p = self.thread(0, 1)
            p = [(dict(c, op="s_save") if c["op"] == "s_save_nb" else c, m[:3] + (False,) + m[4:] if m and m[0] == "save" else m) for c, m in p]
            self.take(p, [timed(c) for c, _ in p])
        progs = [self.thread(t, rng.choice((1, 2, 2, 3))) for t in range(rng.choice((2, 3)))]
        if self.pause:
            self.shim.arm(fault.PAUSE, self.pause[0], part=self.pause[1])
        res = drv.ok({"op": "par", "threads": [[c for c, _ in p] for p in progs]})
        for p, r in zip(progs, res):
            if r is None:
                raise Bad("conc", "a thread ended")
            self.take(p, r)
        cbs = drv.callbacks(len(self.pend), True) if self.pend else []
        self.shim.off()
        if sorted(x[0] for x in cbs) != sorted(self.pend):
            raise Bad("conc", "callbacks of %s instead of %s" % (sorted(x[0] for x in cbs), sorted(self.pend)))
        for key, a, t in cbs:
            if "panic" in a:
                raise Bad("conc", "a background save panicked")
            self.ops.append(dict(self.pend[key], t1=t, ok="ok" in a))
        p = [({"op": "s_list", "sdir": s.sdir}, ("list",))]
        for n in ("a", "b"):
            p.append(({"op": "s_src", "s": "s", "to": "z"}, None))
            p.append(({"op": "s_load", "s": "s", "path": os.path.join(s.sdir, s.hash[1], n), "to": "z"}, ("load", n)))
            p.append(({"op": "dump", "slot": "z", "schema": "v1"}, ("loaded",)))
        self.take(p, [timed(c) for c, _ in p])

    def records(self):
        return [{"ops": self.ops}]

    def close(self):
        self.shim.off()
        self.s.close()
        self.shim.close()
        shutil.rmtree(self.base, ignore_errors=True)


def conc_one(ctx, cls, k, seed, pause):
    c = cls(ctx, k, seed, pause)
    bad, recs, hit = None, [], 0
    try:
        c.run()
        recs = c.records()
    except Bad as b:
        bad = b.what
    except vp.DrvDied as e:
        bad = str(e)
    finally:
        hit = c.shim.hit
        c.close()
    return k, pause, bad, recs, hit


LOCK_CFG = "SPECIFICATION Spec\nCONSTANTS\n Threads = {1, 2, 3}\n MaxOps = %d\n Locked = %s\nINVARIANT Ok\nCHECK_DEADLOCK FALSE\n"


def conc(ctx, cls, module, jobs):
    good = vp.Tlc(ctx, "HistoryLock", LOCK_CFG % (5 if ctx.quick else 7, "TRUE"), args=["-workers", "2"])
    free = vp.Tlc(ctx, "HistoryLock", LOCK_CFG % (3, "FALSE"), args=["-workers", "1"])
    r = good.wait().must_pass()
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    if not free.wait().violated:
        raise vp.ToolError("saving without the lock should violate the specification")
    runs = spread(lambda j: conc_one(ctx, cls, j[0], ctx.seed, j[1]), jobs, vp.NCPU)
    if os.environ.get("VP_TIME"):
        print("runs", len(runs), time.time() - ctx.t0)
    recs, who = [], []
    for k, pause, bad, rs, hit in sorted(runs, key=lambda r: (r[0], r[1] or ())):
        ctx.add("traces_validated_against_impl", 1)
        ctx.add("pauses_hit", 1 if hit else 0)
        if bad and ctx.violation("%s (program %d, pause %s)" % (bad, k, pause), {"conc": k, "pause": pause, "seed": ctx.seed}):
            return
        recs += rs
        who += [(k, pause)] * len(rs)
    ctx.add("concurrent_operations", sum(len(r["ops"]) for r in recs))
    ctx.sample(json.dumps(recs[0])[:1500])
    for i in lin(ctx, module, recs):
        k, pause = who[i]
        if ctx.violation("no sequential order explains the results of program %d (pause %s): %s" % (k, pause, json.dumps(recs[i])[:600]),
                         {"conc": k, "pause": pause, "seed": ctx.seed, "rec": recs[i]}):
            return


def jobs(n, m, points):
    """n programs without pauses, m programs with a pause at each of some points"""
    return [(k, None) for k in range(n)] + [(1000 + k, (i, 8)) for k in range(m) for i in points]


def h09(ctx):
    conc(ctx, HistConc, "HistoryLin", jobs(500, 40, range(1, 60, 2)) if ctx.quick else jobs(4000, 200, range(1, 110)))


def f05(ctx):
    conc(ctx, SaveConc, "SaveLin", jobs(500, 70, range(1, 32)) if ctx.quick else jobs(4000, 300, range(1, 60)))


HCHECKS = {"H04": (h04, "model_checking"), "H09": (h09, "model_checking")}
FCHECKS = {"F05": (f05, "model_checking")}


def replay(ctx, rec):
    d = rec["data"]
    if "queue" in d:
        return q_judge(ctx, {d["k"]: d["queue"]}, [q_one(ctx, d["k"], d["queue"], d["seed"])], d["seed"])
    cls, module = (HistConc, "HistoryLin") if ctx.pid[0] == "H" else (SaveConc, "SaveLin")
    if "rec" in d and lin(ctx, module, [d["rec"]]):
        return ctx.violation("no sequential order explains the recorded results", d)
    for _ in range(20):
        k, pause, bad, rs, _ = conc_one(ctx, cls, d["conc"], d["seed"], tuple(d["pause"]) if d["pause"] else None)
        if bad or lin(ctx, module, rs):
            return ctx.violation(bad or "no sequential order explains the results", d)
