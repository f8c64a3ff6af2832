"""V01, V02: documents converted between sources (Version.tla)."""
import json, os, random
import vp, docs, docreplay

CFG = """SPECIFICATION Spec
CONSTANTS
 K0 = %d
 KE = %d
 KN = %d
 KA = %d
 Vals = {1, 2}
 Pick <- %s
 Kinds <- %s
INVARIANTS FitsNew Identity Idempotent KeepsValid
CHECK_DEADLOCK FALSE
"""


def base(small):
    if small:
        c = docs.mk([("pa", "int", "n", "v")],
                    {"ml": {"P": [("x", "int", "q", "v")], "subs": ["in"], "refs": ["ta"]}, "in": {"P": [("z", "str", "n", "v")]}},
                    ["ml"], {"ta": ["r1", "r2"]}, [["ml", "ta", "n"]], clists={"cl": [1]},
                    items={("ml", 0): {"x": ["v", 91], "ta": ["v", "r2"]}, ("ml", 0, "in", 0): {}})
        c.update(types=["int", "str"], vts=["n", "q", "u", "qu"], rootnames=["pa", "pb", "ml"], toplists=["ml", "pa"], allrows=["r1", "r2", "r3"],
                 itemnames={"ml": ["x", "y", "in"], "in": ["z"]}, subnames={"ml": ["in", "x"], "in": []})
    else:
        c = docs.mk([("pa", "int", "n", "v"), ("pb", "str", "q", "n"), ("pc", "fa", "u", "v"), ("pd", "float", "n", "v")],
                    {"ml": {"P": [("x", "int", "q", "v"), ("y", "ia", "n", "v")], "subs": ["in"], "refs": ["ta", "tb"]},
                     "in": {"P": [("z", "str", "n", "v")], "subs": ["dp"], "refs": ["tb"]}, "dp": {"P": [("w", "bool", "qu", "v")]},
                     "me": {"P": [("e", "bin", "n", "v")], "refs": ["tb", "tc"], "enum": True},
                     "mu": {"P": [("u", "float", "n", "v")], "undef": True}},
                    ["ml", "me", "mu"], {"ta": ["r1", "r2"], "tb": ["r1", "s1"], "tc": ["t1", "r1"]},
                    [["ml", "ta", "n"], ["ml", "tb", "qu"], ["in", "tb", "q"], ["me", "tb", "q"], ["me", "tc", "q"]], clists={"cl": [1, 2]},
                    items={("ml", 0): {"x": ["v", 91], "ta": ["v", "r2"]}, ("ml", 1): {"tb": ["v", "s1"]}, ("ml", 0, "in", 0): {"z": ["v", 92]},
                           ("ml", 0, "in", 0, "dp", 0): {"w": ["n"]}, ("me", 0): {"tb": ["v", "r1"]}, ("mu", 0): {"u": ["v", 93]}})
        c.update(types=["bool", "int", "float", "str", "ia", "fa", "bin"], vts=["n", "q", "u", "qu"], allrows=["r1", "r2", "s1", "t1"],
                 rootnames=["pa", "pb", "pc", "pd", "pe", "ml", "mu"], toplists=["ml", "me", "mu", "pa", "in"],
                 itemnames={"ml": ["x", "y", "y2", "in"], "in": ["z", "z2", "dp"], "dp": ["w", "w2"], "me": ["e", "e2"], "mu": ["u", "u2"]},
                 subnames={"ml": ["in", "mu", "x"], "in": ["dp", "z"], "dp": [], "me": ["dp"], "mu": ["dp"]})
    names = set(c["rootnames"]) | {n for v in c["itemnames"].values() for n in v}
    for n in names:
        c["pdef"].setdefault(n, {"t": "int", "vt": "n", "dv": "v"})
    for l in set(c["toplists"]) | {n for v in c["subnames"].values() for n in v}:
        c["lists"].setdefault(l, {"P": [], "subs": [], "refs": [], "enum": False, "undef": False})
        c["itemnames"].setdefault(l, [])
        c["subnames"].setdefault(l, [])
    return c


def start(ctx, cfg, ks, stages, exhaustive, seed, num, fewer):
    p = os.path.join(ctx.scratch("vc"), "cfg.json")
    c = dict(cfg, fewer=fewer, stages=stages, slots=["a"], toks=[1], maxitems=1, maxid=1, depth=1, feat=[])
    with open(p, "w") as f:
        json.dump(c, f)
    args = ["-workers", "4"] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(sum(ks) + (stages - 1) * (ks[2] + ks[3] + 2) + 6), "-seed", str(seed), "-workers", "1"]
    return vp.Tlc(ctx, "VersionMC", CFG % (ks + (("PickAll", "PickAll") if exhaustive else ("PickRnd", "Some"))), env={"DOC_CFG": p}, args=args, heap="3g")


class Pools:
    """Values of the items of all sources: tokens from 190 on are the second source's, and so on."""

    def __init__(self, pools):
        self.p = pools

    def val(self, t, tok):
        return self.p[(tok - 90) // 100 if tok >= 90 else 0].val(t, tok)


def cfg_of(base, s):
    return dict(base, rootp=s["rootp"], rootl=s["rootl"], pdef=s["pdef"], lists=s["lists"], rows=s["rows"] or {}, oldroot=s["oldroot"], oldrows=s["oldrows"] or {},
                refvt=[r[:3] for r in s["refs"]], refdef={"%s.%s" % (r[0], r[1]): r[3] for r in s["refs"]}, src=s["src"])


def plain(d):
    """Functions with an empty domain are printed as []."""
    d["p"] = d["p"] or {}
    for e in d["I"]:
        e[1], e[2] = e[1] or {}, e[2] or {}


class Judge:
    """Compares the dump of a converted document with what the specification says."""

    def __init__(self, sch, conv, pool, validated):
        self.s, self.pool, self.validated = sch, pool, validated
        self.L = {tuple(e[0]): e[1:] for e in conv["L"]}
        self.I = {tuple(e[0]): e[1:] for e in conv["I"]}
        self.p = conv["p"]

    def value(self, path, n, v, got):
        d = self.s.c["pdef"][n]
        dv = self.s.pdefault(n)
        alt = [[dv, True]] + ([[["n"], False]] if d["vt"] in ("q", "qu") else []) + ([[["u"], False]] if d["vt"] in ("u", "qu") else [])
        if v[0] == "d":
            ok = [[dv, True]]
        elif v[0] == "v":
            ok = [[["v", self.pool.val(d["t"], v[1])], False]]
        elif v[0] == "x":
            ok = alt
        elif v[0] == "i":
            ok = alt + ([] if self.validated else [[v[1], False]])
        else:
            ok = [[v, False]]
        if got not in ok:
            return "%s: spec %s, code %s" % (path + "/" + n, json.dumps(ok if len(ok) > 1 else ok[0])[:300], json.dumps(got)[:300])

    def params(self, path, names, ps, got):
        if sorted(got) != sorted(names):
            return "%s: members %s instead of %s" % (path, sorted(got), sorted(names))
        for n in names:
            r = self.value(path, n, ps[n], got[n])
            if r:
                return r

    def lst(self, path, got):
        d, nxt, ids, mark = self.L[path]
        name = "/".join(map(str, path))
        if mark == "x" and (got is None or (got["n"] == 0 and not got["i"])):
            return None if got is not None or self.s.c["lists"][path[-1]]["undef"] else "%s: undefined" % name
        if not d:
            if mark == "i" and (self.validated or got is not None):
                return None if got is not None and not got["i"] else "%s: spec defined and empty, code %s" % (name, json.dumps(got)[:200])
            return None if got is None else "%s: spec undefined, code %s" % (name, json.dumps(got)[:200])
        if got is None:
            return "%s: undefined" % name
        if got["n"] != nxt or [i for i, _ in got["i"]] != ids:
            return "%s: spec next id %d and items %s, code %s and %s" % (name, nxt, ids, got["n"], [i for i, _ in got["i"]])
        for i, it in got["i"]:
            r = self.item(path + (i,), it)
            if r:
                return r

    def item(self, path, got):
        l = path[-2]
        ps, rs, eok = self.I[path]
        ld = self.s.c["lists"][l]
        name = "/".join(map(str, path))
        r = self.params(name, ld["P"], ps or {}, got["p"])
        if r:
            return r
        if sorted(got["m"]) != sorted(ld["subs"]):
            return "%s: inner lists %s" % (name, sorted(got["m"]))
        for s in ld["subs"]:
            r = self.lst(path + (s,), got["m"][s])
            if r:
                return r
        if ld["refs"]:
            vts = {(a, b): v for a, b, v in self.s.c["refvt"]}
            for t in ld["refs"]:
                v, g = rs[t], got["r"][t]
                dv = self.s.refdefault(l, t)
                vt = vts[(l, t)]
                alt = [dv] + ([["n"]] if vt in ("q", "qu") else []) + ([["u"]] if vt in ("u", "qu") else [])
                if v[0] == "d":
                    ok = [dv]
                elif v[0] == "i":
                    ok = alt + ([] if self.validated else [v[1], ["dangling"] + v[1][1:]])
                else:
                    ok = [v]
                if not (ld["enum"] and not eok) and g not in ok:
                    return "%s ref %s: spec %s, code %s" % (name, t, ok, g)
            if ld["enum"]:
                act = [[t, rs[t][1]] for t in ld["refs"] if rs[t][0] == "v"]
                if eok and got["e"] != act[0]:
                    return "%s: spec variant %s, code %s" % (name, act[0], got["e"])
                if not eok and self.validated and got["e"] is None:
                    return "%s: no variant" % name

    def doc(self, got):
        c = self.s.c
        r = self.params("", c["rootp"], self.p or {}, got["p"])
        if r:
            return r
        if sorted(got["m"]) != sorted(c["rootl"]):
            return "lists %s" % sorted(got["m"])
        for l in c["rootl"]:
            r = self.lst((l,), got["m"][l])
            if r:
                return r
        cl, tb = self.s.consts()
        d = docs.first_diff({"c": cl, "t": tb}, {"c": got["c"], "t": got["t"]})
        if d:
            return "%s: spec %s, code %s" % d


class Rep(docreplay.Replayer):
    def __init__(self, ctx, base):
        self.ctx, self.base = ctx, base
        self.drv = None
        self.dir = ctx.scratch("conv")

    def run(self, tr, seed, judge):
        """judge(kind): 'conv' values, 'valid' validation, 'panic', 'save', 'side' other documents"""
        rng = random.Random(seed)
        st = tr["stages"]
        for d in [x for s in st for x in (s["old"]["src"], s["new"]["src"], s["doc"], s["conv"])] + tr["cdoc"]:
            plain(d)
        sch = [docs.Schema(cfg_of(self.base, st[0]["old"]), 0)]
        for s in st:
            same = json.dumps(s["old"]) == json.dumps(s["new"])
            sch.append(docs.Schema(cfg_of(self.base, s["new"]), sch[-1].sp.salt if same and rng.random() < .6 else rng.choice((0, 1, 2))))
        pool = docs.Pool(seed, Pools([s.sp for s in sch]))
        if self.drv is None:
            self.drv = vp.Drv()
        try:
            r = self.source(sch[0], st[0]["old"], pool, "o")
            if not r:
                self.drv.ok({"op": "clone", "slot": "o", "to": "a"})
            for i, s in enumerate(st):
                r = r or self.stage(s, sch[i], sch[i + 1], pool, rng, judge, (tr["after"], tr["cdoc"]) if s is st[-1] else None)
                if r:
                    return (r[0], ("conversion %d: " % (i + 1) if i else "") + r[1])
                if s is not st[-1]:
                    self.drv.ok({"op": "clone", "slot": "z", "to": "a"})
                    self.drv.ok({"op": "clone", "slot": "n", "to": "o"})
                    self.drv.ok({"op": "schema", "name": "o", "def": sch[i + 1].dump_schema()})
        except vp.DrvDied as e:
            self.drv = None
            return ("crash", str(e))

    def source(self, sch, src, pool, name):
        """Reads a source into a slot."""
        d = sch.write(os.path.join(self.dir, name))
        a = self.drv([{"op": "schema", "name": name, "def": sch.dump_schema()}, {"op": "src", "dir": d, "to": name, "validation": True}])
        for x in a:
            if "ok" not in x:
                return ("source", "a source was not read: %s\n%s" % (json.dumps(x)[:400], sch.source()["root.json5"]))
        d = docs.first_diff(sch.expect(src["src"], pool), self.drv.ok({"op": "dump", "slot": name, "schema": name, "fl": 1}))
        if d:
            return ("source", "%s: spec %s, code %s" % d)

    def stage(self, s, so, sn, pool, rng, judge, last):
        """Slot a holds the document before its edits, o its source; z becomes the converted document, n its source."""
        drv = self.drv
        r = self.source(sn, s["new"], pool, "n")
        if r:
            return r
        cmds = [self.cmd(dict(e, slot="a"), pool, rng) for e in s["edits"]] + [{"op": "dump", "slot": "a", "schema": "o", "fl": 1}]
        a = drv(cmds)
        for x, c in zip(a, cmds):
            if "ok" not in x:
                return ("edit", "%s -> %s" % (json.dumps(c)[:200], json.dumps(x)[:300]))
        new0, doc0 = sn.expect(s["new"]["src"], pool), so.expect(s["doc"], pool)
        d = docs.first_diff(doc0, a[-1]["ok"])
        if d:
            return ("edit", "%s: spec %s, code %s" % d)
        for validated in (False, True):
            x = drv({"op": "adjust", "new": "n", "old": "a", "to": "z", "validation": validated})
            if "panic" in x:
                self.close()
                return ("panic", "the conversion panicked: %s" % x["panic"])
            may = not s["exact"] or (validated and not s["valid"])
            if "ok" not in x:
                if not may and judge("valid" if validated else "conv"):
                    return ("error", "conversion %s validation failed: %s" % ("with" if validated else "without", x["err"]))
            else:
                z = drv({"op": "dump", "slot": "z", "schema": "n", "fl": 1})
                if "ok" not in z:
                    return ("panic", "the converted document cannot be read: %s" % json.dumps(z)[:300])
                r = Judge(sn, s["conv"], pool, validated).doc(z["ok"])
                if r and judge("valid" if validated else "conv"):
                    return ("conv", "conversion %s validation: %s" % ("with" if validated else "without", r))
                if validated:
                    r = self.save(z["ok"])
                    if not r and last and last[1]:
                        r = self.go_on(last[0], sn.expect(last[1][0], pool), pool, rng)
                    if r and judge("save"):
                        return ("save", r)
            for slot, sc, w in (("a", "o", doc0), ("n", "n", new0)):
                d = docs.first_diff(w, drv.ok({"op": "dump", "slot": slot, "schema": sc, "fl": 1}))
                if d and judge("side"):
                    return ("side", "conversion changed the %s document: %s: spec %s, code %s" % (("old" if slot == "a" else "new"),) + d)

    def go_on(self, edits, want, pool, rng):
        """The converted document is edited like any document of the new source, and differences lead to it."""
        drv = self.drv
        cmds = [{"op": "clone", "slot": "z", "to": "x"}] + [self.cmd(dict(e, slot="x"), pool, rng) for e in edits] + [{"op": "dump", "slot": "x", "schema": "n", "fl": 1}]
        a = drv(cmds)
        for x, c in zip(a, cmds):
            if "ok" not in x:
                return "the converted document cannot be edited: %s -> %s" % (json.dumps(c)[:200], json.dumps(x)[:300])
        d = docs.first_diff(want, a[-1]["ok"])
        if d:
            return "the converted document after editing: %s: spec %s, code %s" % d
        return self.save(want, "n", "x") or self.save(want, "z", "x")

    def save(self, want, frm="n", to="z"):
        """A document of the new source can be stored as a difference to another one."""
        drv = self.drv
        h = drv({"op": "diff", "a": frm, "b": to})
        if "ok" not in h:
            return "the converted document cannot be stored: %s" % json.dumps(h)[:300]
        drv.ok({"op": "clone", "slot": frm, "to": "y"})
        x = drv({"op": "apply", "slot": "y", "hex": h["ok"]})
        if "ok" not in x:
            return "the stored converted document cannot be loaded: %s" % json.dumps(x)[:300]
        got = drv.ok({"op": "dump", "slot": "y", "schema": "n", "fl": 1})
        d = docs.first_diff(want, got)
        if d:
            return "the converted document loads differently: %s: saved %s, loaded %s" % d


def replay_all(ctx, base, traces, judge):
    n = vp.NCPU

    def work(part):
        rp = Rep(ctx, base)
        out, cnt = [], 0
        try:
            for k, raw in part:
                tr = json.loads(json.loads(raw.decode("utf8"))[6:])
                seed = (ctx.seed * 1000003 + k * 31) & 0x7fffffff
                r = rp.run(tr, seed, judge)
                cnt += 1
                if r:
                    out.append((r, tr, seed))
                    if len(out) >= 2:
                        break
        finally:
            rp.close()
        return out, cnt
    items = list(enumerate(traces))
    bad = []
    for out, cnt in vp.pfork(work, [items[i::n] for i in range(n) if items[i::n]]):
        ctx.add("traces_validated_against_impl", cnt)
        bad += out
    for r, tr, seed in bad:
        ctx.violation("%s: %s" % r, {"base": base, "tr": tr, "seed": seed})
        if ctx.enough:
            break


def run(ctx, plans, judge):
    """plans: [(base, (K0, KE, KN, KA), stages, exhaustive, num, fewer)]"""
    jobs = [(b, start(ctx, b, ks, stages, ex, ctx.seed * 10 + i, num, fewer), ex, num) for i, (b, ks, stages, ex, num, fewer) in enumerate(plans)]
    for b, j, ex, num in jobs:
        r = j.wait().must_pass()
        if ex:
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        else:
            ctx.add("simulated_steps", r.generated)
        tr = sorted(set(r.traces))
        if ex and num and len(tr) > num:
            random.Random(ctx.seed).shuffle(tr)
            tr = tr[:num]
        if not tr:
            raise vp.ToolError("no conversions from TLC")
        t = r.decode(tr[len(tr) // 2])
        t = t["stages"][-1]
        ctx.sample({"edits": t["edits"], "conv": t["conv"], "valid": t["valid"], "exact": t["exact"]})
        if os.environ.get("VP_TIME"):
            import time
            print("tlc", r.wall, len(tr), time.time() - ctx.t0)
        replay_all(ctx, b, tr, judge)
        if ctx.enough:
            return


def plans(ctx):
    q = 1 if ctx.quick else 8
    s, b = base(True), base(False)
    return [(s, (0, 1, 1, 0), 1, True, 6000, True), (s, (2, 5, 3, 3), 2, False, 400 * q, False), (b, (2, 12, 3, 5), 2, False, 600 * q, False),
            (b, (6, 20, 6, 5), 1, False, 300 * q, False), (b, (4, 12, 2, 3), 4, False, 300 * q, False), (b, (4, 20, 0, 5), 1, False, 150 * q, False)]


def v01(ctx):
    run(ctx, plans(ctx), lambda kind: kind in ("conv", "side"))


def v02(ctx):
    run(ctx, plans(ctx), lambda kind: kind in ("valid", "save"))


CHECKS = {"V01": (v01, "model_checking"), "V02": (v02, "model_checking")}


def replay(ctx, rec):
    d = rec["data"]
    rp = Rep(ctx, d["base"])
    r = rp.run(d["tr"], d["seed"], lambda kind: True)
    rp.close()
    ctx.add("traces_validated_against_impl", 1)
    if r:
        ctx.violation("%s: %s" % r, d)
