"""Runs programs on real save directories and records what happened as a trace for
SaveDirTrace.tla."""
import json, os, random
import vp, hist
from hist import Bad, INVALID, SRC, SCHEMA, edits, write_sources

NAMES = {"a": ["a", "a.dochy", "日本 語", "_0_0.his", "x" * 200, "a b\tc"],
         "b": ["b", ".hidden", "b.tmp", "archive.src", "src.archive2", "0"],
         "c": ["c", "Src.archive", "created_time", "c.d.e", "-", "created_time.dat2"]}
RESERVED = ["src.archive", "created_time.dat", "./src.archive", "./created_time.dat", "src.archive/", "created_time.dat/.", ".//src.archive",
            "../%(hash)s/src.archive", "../%(hash)s/created_time.dat", "%(abs)s/src.archive", "%(other)s/src.archive", "%(other)s/created_time.dat"]


class Dir:
    own_src, edit_src, refused, settle = hist.Hist.own_src, hist.Hist.edit_src, hist.Hist.refused, hist.Hist.settle

    def __init__(self, ctx, base, k=0, rng=None, srcs=None, arc=False):
        self.ctx, self.k = ctx, k
        self.rng = rng or random.Random(k)
        self.dir = base
        self.srcs = srcs or write_sources(base)
        self.sdir = os.path.join(base, "save")
        os.makedirs(self.sdir, exist_ok=True)
        self.drv = self.refdrv = None
        self.toks = {}
        self.dang = set()   # documents with references to rows that there are not
        self.dumps = {}
        self.hash = {}
        self.ver = {}
        self.hexes = {}     # (version, token) -> difference from the source
        self.cands = {}     # (version, name) -> tokens saved under it
        self.conv = {}
        self.trace = []
        self.env = None
        self.v = 1
        self.arc = arc
        self.edited = False
        self.names = {n: l[k % len(l)] for n, l in NAMES.items()}

    def tok(self, dump):
        s = json.dumps(dump, sort_keys=True)
        t = self.toks.setdefault(s, len(self.toks) + 1)
        if '["dangling",' in s:
            self.dang.add(t)
        return t

    def src(self, v):
        if not self.arc:
            return {"dir": self.srcs[v]}
        p = os.path.join(self.dir, "src%d.arc" % v)
        if not os.path.exists(p):
            with vp.Drv() as d:
                with open(p, "wb") as f:
                    f.write(bytes.fromhex(d.ok({"op": "arc_dir", "dir": self.srcs[v]})))
        return {"arc": p}

    def start(self, v=None, env=None, live=False, own=False):
        """Opens the directory with source v: in a new process, or in the running one if live."""
        if self.drv and not live:
            self.drv.close()
        self.v = v or self.v
        self.edited = False
        if not live:
            self.drv = vp.Drv(env=env or self.env)
            for w in SRC:
                self.drv.ok({"op": "schema", "name": "v%d" % w, "def": SCHEMA[w]})
        d = self.drv
        # in the same process: another directory of another source, before or after this one
        other = {"op": "s_open", "s": "other", "sdir": self.sdir + "2", "src": self.src(self.v % 3 + 1)}
        os.makedirs(self.sdir + "2", exist_ok=True)
        b = d(other) if self.k % 4 == 0 and not live else None
        a = d({"op": "s_open", "s": "s", "sdir": self.sdir, "src": self.own_src(self.v) if own else self.src(self.v), "force": live})
        b = d(other) if self.k % 4 == 2 and not live else b
        for x in (a, b):
            if x and "ok" not in x:
                raise Bad("open", "opening the save directory failed: %s" % json.dumps(x)[:300])
        if b and b["ok"] == a["ok"]:
            raise Bad("open", "directories of two sources have the same hash")
        self.hash[self.v] = a["ok"]
        self.ver[a["ok"]] = self.v
        d.ok({"op": "s_src", "s": "s", "to": "src"})
        for r in (1, 2):
            d.ok({"op": "s_src", "s": "s", "to": "r%d" % r})

    def close(self):
        for d in (self.drv, self.refdrv):
            if d:
                d.close()
        self.drv = self.refdrv = None

    def begin(self, env=None):
        self.trace.append({"e": "begin", "v": self.v})
        self.start(env=env)

    def reopen(self, v):
        """Opening the directory with another source while running: an error, or that source."""
        a = self.drv({"op": "s_open", "s": "s2", "sdir": self.sdir, "src": self.src(v)})
        got = 0 if "err" in a else self.ver.get(a["ok"], -1 if v in self.hash else v) if "ok" in a else -1
        self.trace.append({"e": "reopen", "v": v, "got": got})

    def restart(self, v, env=None, may=False):
        # another source in the same process, another process, or refused and then another process
        self.n = getattr(self, "n", self.k) + 1
        live = may and v != self.v and self.n % 3 == 0
        if may and v != self.v and self.n % 3 == 1:
            self.reopen(v)
        own = may and self.n % 4 < 2
        self.start(v, env, live, own)
        self.trace.append({"e": "restart", "v": v})
        if own:
            self.edit_src(v % 3 + 1)

    def dump(self, slot, drv=None):
        a = (drv or self.drv)({"op": "dump", "slot": slot, "schema": "v%d" % self.v})
        if "ok" not in a:
            raise Bad("load", "reading a document failed: %s" % json.dumps(a)[:300])
        return self.tok(a["ok"])

    def edit(self, r, size=2):
        for c in edits(self.rng, "r%d" % r, size, self.v):
            a = self.drv(c)
            if "panic" in a:
                raise Bad("edit", "editing panicked: %s" % a["panic"])

    def reserved(self):
        other = [h for v, h in self.hash.items() if v != self.v] or [self.hash[self.v]]
        n = RESERVED[self.rng.randrange(len(RESERVED))]
        return n % {"hash": self.hash[self.v], "abs": os.path.join(self.sdir, self.hash[self.v]), "other": os.path.join(self.sdir, other[0])}

    def snapshot(self, name, r=1):
        """Prepares a save: token of the document, recorded for later conversions."""
        doc = self.dump("r%d" % r)
        a = self.drv({"op": "diff", "a": "src", "b": "r%d" % r})
        self.hexes[(self.v, doc)] = a.get("ok")
        self.cands.setdefault((self.v, name), set()).add(doc)
        return doc

    def save_cmd(self, name, ow, r=1, op="s_save", **kw):
        return {**{"op": op, "s": "s", "slot": "r%d" % r, "file": name, "ow": ow}, **kw}

    def saved_event(self, name, ow, doc, a, reserved=False, fault=False):
        """Event for the answer of a save (or None when the process died in it)."""
        res = "crash" if a is None else "ok" if "ok" in a else "fault" if fault else "err"
        if a is not None and "panic" in a:
            raise Bad("save", "a save panicked: %s" % a["panic"])
        if res == "ok" and not reserved and a["ok"] != os.path.join(self.sdir, self.hash[self.v], name):
            raise Bad("save", "save returned the path %s" % a["ok"])
        self.trace.append({"e": "save", "name": name, "ow": ow, "doc": doc, "res": res, "err": (a or {}).get("err", ""), "reserved": reserved})

    def save(self, name, ow, r=1, nb=False, reserved=False):
        doc = self.snapshot(name, r)
        if nb:
            self.drv.ok(self.save_cmd(name, ow, r, "s_save_nb", key="k"))
            self.edit(r)  # after the call, so it must not be saved
            cb = self.drv.callbacks(1)
            if len(cb) != 1:
                raise Bad("save", "a background save gave %d results" % len(cb))
            a = cb[0][1]
        else:
            a = self.drv(self.save_cmd(name, ow, r))
        if not reserved and self.refused(a, self.sdir):
            return self.save(name, ow, r, nb, reserved)
        self.saved_event(name, ow, doc, a, reserved)
        return a

    def remove(self, v, name, reserved=False):
        a = self.drv({"op": "s_remove", "sdir": self.sdir, "hash": self.hash[v], "file": name})
        if "panic" in a:
            raise Bad("remove", "removing panicked: %s" % a["panic"])
        self.trace.append({"e": "remove", "v": v, "name": name, "res": "ok" if "ok" in a else "err", "err": a.get("err", ""), "reserved": reserved})

    def listing(self):
        a = self.drv({"op": "s_list", "sdir": self.sdir})
        if "ok" not in a:
            raise Bad("list", "listing failed: %s" % json.dumps(a)[:200])
        return a["ok"]

    def list(self):
        files, mt = [], []
        for h, n, ln, path in self.listing():
            if h not in self.ver:
                raise Bad("list", "a file of an unknown version is listed")
            if path != os.path.join(self.sdir, h, n):
                raise Bad("list", "the path of %s is given as %s" % (n, path))
            if not os.path.exists(path):
                raise Bad("list", "there is no file %s, which is listed" % path)
            st = os.stat(path)
            if st.st_size != ln:
                raise Bad("list", "the size of %s is given as %d" % (n, ln))
            files.append([self.ver[h], n])
            mt.append(st.st_mtime_ns)
        rank = {t: i for i, t in enumerate(sorted(set(mt)))}
        self.trace.append({"e": "list", "files": files, "mtimes": [rank[t] for t in mt]})
        return files

    def expected(self, v, name):
        """conversions of everything that was ever saved under that name"""
        out = {}
        for t in self.cands.get((v, name), ()):
            key = (v, t, self.v)
            if key not in self.conv:
                if not self.refdrv:
                    self.refdrv = vp.Drv()
                    for w in SRC:
                        self.refdrv.ok({"op": "schema", "name": "v%d" % w, "def": SCHEMA[w]})
                        self.refdrv.ok({"op": "src", "dir": self.srcs[w], "to": "s%d" % w, "validation": False})
                d = self.refdrv
                d.ok({"op": "clone", "slot": "s%d" % v, "to": "a"})
                a = d({"op": "apply", "slot": "a", "hex": self.hexes[(v, t)]})
                b = d({"op": "adjust", "new": "s%d" % self.v, "old": "a", "to": "b", "validation": False})
                if "ok" not in a or "ok" not in b:
                    raise Bad("conv", "converting failed: %s %s" % (a, b))
                self.conv[key] = self.dump("b", d)
            out[str(t)] = self.conv[key]
        return out

    def load(self, v, name, to="tmp"):
        if v not in self.hash:
            return
        val = self.rng.random() < .5
        a = self.drv({"op": "s_load", "s": "s", "path": os.path.join(self.sdir, self.hash[v], name), "to": to, "validation": val})
        if "panic" in a:
            raise Bad("load", "loading %s panicked: %s" % (name, a["panic"]))
        ok = "ok" in a
        conv = self.expected(v, name) if v != self.v else {"0": 0}
        self.trace.append({"e": "load", "v": v, "name": name, "res": "ok" if ok else "err", "err": a.get("err", ""), "doc": self.dump(to) if ok else 0, "conv": conv,
                           "val": val, "dangling": sorted(t for t in set(conv.values()) if t in self.dang), "invalid": v in INVALID})

    def cut_all(self, at=None):
        """Loads every file in a fresh process while one file at a time is cut short, at every length."""
        self.restart(self.v)
        d = self.drv
        d.ok({"op": "s_src", "s": "s", "to": "tmp"})
        fs = self.list()
        n = 0
        for v, name in fs + [(v, None) for v in sorted(set(v for v, _ in fs))]:
            path = os.path.join(self.sdir, self.hash[v], name or "src.archive")
            if not os.path.exists(path):
                continue
            before = open(path, "rb").read()
            others = [f for f in fs if f != (v, name)]
            if name:
                others = [(v, name)] + self.rng.sample(others, min(2, len(others)))
            cmds = []
            for w, m in others:
                cmds += [{"op": "s_load", "s": "s", "path": os.path.join(self.sdir, self.hash[w], m), "to": "tmp", "validation": False}, {"op": "dump", "slot": "tmp", "schema": "v%d" % self.v}]
            ats = None
            if at and len(before) > at:
                ats = sorted(set(range(8)) | set(range(len(before) - 8, len(before))) | set(self.rng.randrange(len(before)) for _ in range(at)))
            a = d({"op": "cut", "path": path, "cmds": cmds + [{"op": "panics"}], **({"at": ats} if ats else {})})
            if "ok" not in a:
                raise Bad("cut", "loading with %s cut short: %s" % (name, json.dumps(a)[:300]))
            if open(path, "rb").read() != before:
                raise Bad("cut", "loading with %s cut short changed files" % name)
            for res, ns in a["ok"]:
                n += len(ns) * len(others)
                if res[-1].get("ok"):
                    raise Bad("cut", "loading with %s cut to %s bytes: panic %s" % (name, ns[:4], res[-1]["ok"][:2]))
                loads = []
                for i, (w, m) in enumerate(others):
                    l, dm = res[2 * i], res[2 * i + 1]
                    if "panic" in l or ("ok" in l and "ok" not in dm):
                        raise Bad("cut", "loading %s with %s cut to %s bytes: %s" % (m, name, ns[:4], json.dumps(l)[:300]))
                    loads.append({"v": w, "name": m, "res": "err" if "err" in l else "ok", "doc": 0 if "err" in l else self.tok(dm["ok"]),
                                  "conv": self.expected(w, m) if w != self.v else {"0": 0}})
                self.trace.append({"e": "cut", "v": v, "name": name or "src.archive", "src": name is None, "at": ns[:6], "loads": loads})
            if name:
                self.load(v, name)
        return n

    def load_all(self):
        for v, n in self.list():
            self.load(v, n)

    def run(self, log, pause=0):
        """Runs one behaviour of SaveDirMC."""
        self.begin()
        self.steps(log, pause)
        self.load_all()
        # another process, another source: everything is still there
        for v in [self.v] + [w for w in SRC if w != self.v][:1 + self.k % 2]:
            self.restart(v, may=True)
            self.load_all()

    def steps(self, log, pause=0):
        rng = self.rng
        for st in log:
            op = st["op"]
            if op == "save":
                r = rng.choice((1, 2))
                if rng.random() < .85:
                    self.edit(r, rng.choice((1, 2, 3, 4)))
                res = st["name"] == "R"
                self.save(self.reserved() if res else self.names[st["name"]], st["ow"], r, nb=rng.random() < .25, reserved=res)
                if pause:
                    self.drv.ok({"op": "sleep", "ms": pause})
            elif op == "remove":
                if st["v"] in self.hash:
                    res = st["name"] == "R"
                    self.remove(st["v"], self.reserved() if res else self.names[st["name"]], res)
            elif op == "load":
                self.load(st["v"], self.names[st["name"]], "r%d" % rng.choice((1, 2)) if st["v"] == self.v and rng.random() < .4 else "tmp")
            elif op == "list":
                self.list()
            elif op == "restart":
                self.restart(st["v"], may=True)


def falsify(e):
    if e["e"] == "reopen":
        return {**e, "got": e["v"] % 3 + 1}
    if e["e"] == "load" and e["res"] == "ok":
        return {**e, "doc": -7}
    if e["e"] == "list" and e["files"]:
        return {**e, "files": e["files"][:-1], "mtimes": e["mtimes"][:-1]}
    if e["e"] in ("save", "remove") and e["res"] == "ok":
        return {**e, "res": "err", "err": ""}
    if e["e"] == "cut" and e["loads"] and e["loads"][0]["res"] == "err":
        e["loads"][0]["res"] = "other"
        return e
    # FsTrace: the sizes of the files at the end
    if e["e"] == "begin" and any(not x["same"] for x in e.get("final", ())):
        for x in e["final"]:
            x["len"] += 1
        return e
    # QueueTrace
    if e["e"] == "cb":
        return {**e, "id": "none"}
    if e["e"] == "call" and e["res"] and not e["vacant"]:
        return {**e, "res": False}


def validate(ctx, traces, module="SaveDirTrace", heap="2g"):
    """Checks recorded traces; returns [(k, index, kind, text)]."""
    return vp.validate(ctx, module, traces, falsify, heap)
