"""Runs programs on real history directories and records what happened as a trace for
HistoryTrace.tla."""
import json, os, random, shutil, string
import vp

# ------------------------------------------------------------------ sources
SRC = {
    1: """{
  s: "init", n: 5, "q?": ["Int", null], "u!": 1.5, b: true,
  ia: ["IntArray", 1, 2], bin: ["Binary", 1, 2],
  l: ["MList", [{ x: 0, "y?": "d", inn: ["MilDef", [{ z: 1 }]], Ref: { t: "r1" } }], { x: 1 }, { x: 2 }],
  t: ["Table", [{ v: 1 }], { ID: "r1" }, { ID: "r2", v: 7 }],
}
""",
    2: """{
  s: "init", n: 6, "q?": ["Int", null], "u!": 1.5, added: 12,
  ia: ["IntArray", 1, 2], bin: ["Binary", 1, 2],
  l: ["MList", [{ x: 0, "y?": "d", fresh: "new", inn: ["MilDef", [{ z: 1, zz: 3 }]], Ref: { t: "r1" } }], { x: 1 }, { x: 2 }],
  t: ["Table", [{ v: 1 }], { ID: "r1" }, { ID: "r2", v: 8 }, { ID: "r3" }],
}
""",
    3: """{
  s: "init3", n: 6, "q?": 3, "u!": 1.5, b: "now text",
  ia: ["IntArray", 1, 2], bin: ["Binary", 1, 2],
  l: ["MList", [{ x: 0, "y?": "d3", inn: ["MilDef", [{ z: 1 }]], Ref: { t: "r2" } }], { x: 1 }],
  t: ["Table", [{ v: 1 }], { ID: "r1" }, { ID: "r2", v: 7 }],
  extra: ["MList", [{ e: 1 }], { e: 4 }],
}
""",
    # refers to a row that there is not: not valid
    4: """{
  s: "init", n: 5, "q?": ["Int", null], "u!": 1.5, b: true,
  ia: ["IntArray", 1, 2], bin: ["Binary", 1, 2],
  l: ["MList", [{ x: 0, "y?": "d", inn: ["MilDef", [{ z: 1 }]], Ref: { t: "r1" } }], { x: 1, Ref: { t: "gone" } }, { x: 2 }],
  t: ["Table", [{ v: 1 }], { ID: "r1" }, { ID: "r2", v: 7 }],
}
"""}
INVALID = (4,)
ROWS = {2: ["r1", "r2", "r3"]}
_P = [["s", "str"], ["n", "int"], ["q", "int"], ["u", "float"], ["ia", "ia"], ["bin", "bin"]]
_I = {"p": [["x", "int"], ["y", "str"]], "m": [["inn", {"p": [["z", "int"]], "m": [], "r": [], "e": False}]], "r": ["t"], "e": False}


def _item(extra, inner):
    return {"p": _I["p"] + extra, "m": [["inn", {"p": [["z", "int"]] + inner, "m": [], "r": [], "e": False}]], "r": ["t"], "e": False}


SCHEMA = {
    1: {"p": _P + [["b", "bool"]], "m": [["l", _item([], [])]], "c": [], "t": [["t", [["v", "int"]]]]},
    2: {"p": _P + [["added", "int"]], "m": [["l", _item([["fresh", "str"]], [["zz", "int"]])]], "c": [], "t": [["t", [["v", "int"]]]]},
    3: {"p": _P + [["b", "str"]], "m": [["l", _item([], [])], ["extra", {"p": [["e", "int"]], "m": [], "r": [], "e": False}]], "c": [], "t": [["t", [["v", "int"]]]]}}
SCHEMA[4] = SCHEMA[1]
SIZE = {1: 1, 2: 12, 3: 40, 4: 130, 5: 420, 6: 1300}


def write_sources(d):
    out = {}
    for v, text in SRC.items():
        p = os.path.join(d, "src%d" % v)
        os.makedirs(p)
        with open(os.path.join(p, "root.json5"), "w") as f:
            f.write(text)
        out[v] = p
    return out


def drv_opts(o, k=0):
    """Options of the driver for options of the specification; k picks the threading."""
    r = {"max_phase": o["maxp"], "update0": o["upd0"], "mt_load": k % 2 == 0, "mt_save": k % 3 == 0}
    if o["cum"]:
        r["cum"] = {"nth": o["nth"] or -1, "count": o["cnt"] or -1}
    else:
        r["nocum"] = True
    return r


def rand_text(rng, n):
    return "".join(rng.choice(string.ascii_letters + "_") for _ in range(n))


def edits(rng, slot, size, v=None):
    """Driver commands for one edit whose difference has roughly the given size."""
    out = [{"op": "set", "slot": slot, "path": [], "name": "s", "t": "str", "v": ["v", rand_text(rng, SIZE[size])], "how": "set"}]
    k = rng.random()
    if k < .25:
        out.append({"op": "set", "slot": slot, "path": [], "name": "n", "t": "int", "v": ["v", rng.choice([0, 1, -7, 300, 2**40])], "how": "sabun"})
    elif k < .35:
        out.append({"op": "set", "slot": slot, "path": [], "name": "q", "t": "int", "v": rng.choice([["n"], ["v", 9]]), "how": "set"})
    elif k < .42:
        out.append({"op": "set", "slot": slot, "path": [], "name": "bin", "t": "bin", "v": ["v", "%08x" % rng.getrandbits(32)], "how": "set"})
    elif k < .5:
        out.append({"op": "set", "slot": slot, "path": [], "name": "u", "t": "float", "v": rng.choice([["u"], ["v", "3ff0000000000000"]]), "how": "set"})
    elif k < .62:
        out.append({"op": "list", "slot": slot, "path": ["l"], "what": rng.choice(["insert_last", "insert_first"]), "id": 0, "other": 0})
    elif k < .72:
        out.append({"op": "list", "slot": slot, "path": ["l"], "what": rng.choice(["remove_first", "remove_last", "remove"]), "id": rng.randint(0, 6), "other": 0})
    elif k < .8:
        out.append({"op": "list", "slot": slot, "path": ["l"], "what": rng.choice(["move_first", "move_last"]), "id": rng.randint(0, 6), "other": 0})
    elif k < .9:
        out.append({"op": "set", "slot": slot, "path": ["l", rng.randint(0, 4)], "name": "x", "t": "int", "v": ["v", rng.randint(-9, 9)], "how": "set"})
    elif k < .93:
        out.append({"op": "list", "slot": slot, "path": ["l", rng.randint(0, 3), "inn"], "what": "insert_last", "id": 0, "other": 0})
    else:
        out.append({"op": "ref", "slot": slot, "path": ["l", rng.randint(0, 3)], "what": "set", "name": "t", "v": ["v", rng.choice(ROWS.get(v, ["r1", "r2"]))]})
    return out


# names that no save gives: entries of these names must never be listed
FOREIGN_DIRS = ["notes", "Z" * 32, "-" * 32, "日本", "z" * 31, "00", "A" * 26 + "_", "g" * 22]
FOREIGN_FILES = ["notes.txt", "_.his", "__.his", "_1.his", "_00_0.his", "_0_00.his", "#t.his", "(0_0_0.his", "(x)_0_0.his", "(0)_0_0.his", "_0_a.his",
                 "_0_-1.his", "_0_0.his.bak", "_0_0_.his", "_1__0.his", "x_0_0.his", "#a#b#_0_0.his", "_0_0.HIS", "_0_0 .his", "_4294967296_0.his", "his", ".his"]


class Bad(Exception):
    """A call ended in a way that no specification of it allows."""

    def __init__(self, kind, what):
        super().__init__(what)
        self.kind, self.what = kind, what


class Hist:
    """One history directory, the driver processes that use it, and the recorded trace."""

    def __init__(self, ctx, base, opt, k=0, rng=None, shim=None, srcs=None):
        self.ctx, self.opt, self.k = ctx, opt, k
        self.rng = rng or random.Random(k)
        self.dir = base
        self.srcs = srcs or write_sources(base)
        self.hdir = os.path.join(base, "hist")
        os.makedirs(self.hdir, exist_ok=True)
        self.drv = None
        self.refdrv = None
        self.toks = {}
        self.dang = set()   # documents with references to rows that there are not
        self.docs = {}      # (version, name) -> token
        self.hexes = {}     # (version, name) -> difference from the source
        self.hash = {}      # version -> hash
        self.vopt = {}      # version -> options it was saved with
        self.ver = {}       # hash -> version
        self.trace = []
        self.env = None     # of the driver processes
        self.v = 1
        self.foreign = False
        self.edited = False  # the files of the source, since the history was opened

    # -------------------------------------------------------------- plumbing
    def tok(self, dump):
        s = json.dumps(dump, sort_keys=True)
        if s not in self.toks:
            self.toks[s] = len(self.toks) + 1
            if '["dangling",' in s:
                self.dang.add(self.toks[s])
        return self.toks[s]

    def src(self, v):
        return {"dir": self.srcs[v]}

    def own_src(self, v):
        """Source v at a place of its own, where it replaces the one that was there."""
        kind, p = list(self.src(v).items())[0]
        own = os.path.join(self.dir, "own%d.%s" % (self.n, kind))
        if kind == "dir":
            os.makedirs(own, exist_ok=True)
            p, q = os.path.join(p, "root.json5"), os.path.join(own, "root.json5")
        else:
            q = own
        with open(p, "rb") as f, open(q, "wb") as g:
            g.write(f.read())
        return {kind: own}

    def edit_src(self, v, what="edited"):
        self.own_src(v)
        self.edited = what == "edited"
        self.trace.append({"e": what, "v": v})

    def refused(self, a, hdir):
        """Whether a save may have failed because the source was edited; puts the source back then."""
        if not self.edited or "err" not in a or os.path.exists(os.path.join(hdir, self.hash[self.v], "src.archive")):
            return False
        self.trace.append({"e": "refused", "err": a["err"]})
        self.edit_src(self.v, "restored")
        return True

    def settle(self):
        if self.edited:
            self.edit_src(self.v, "restored")

    def start(self, v=None, env=None, live=False, own=False):
        """Opens the history with source v: in a new process, or in the running one if live."""
        if self.drv and not live:
            self.drv.close()
        self.v = v or self.v
        self.edited = False
        if not live:
            self.drv = vp.Drv(env=env or self.env)
            for w in SRC:
                self.drv.ok({"op": "schema", "name": "v%d" % w, "def": SCHEMA[w]})
        d = self.drv
        a = d({"op": "h_open", "h": "h", "hdir": self.hdir, "src": self.own_src(self.v) if own else self.src(self.v), "opts": drv_opts(self.opt, self.k), "force": live})
        if "ok" not in a:
            raise Bad("open", "opening the history failed: %s" % json.dumps(a)[:300])
        self.hash[self.v] = a["ok"]
        self.ver[a["ok"]] = self.v
        d.ok({"op": "h_src", "h": "h", "to": "src"})
        for r in (1, 2):
            d.ok({"op": "h_src", "h": "h", "to": "r%d" % r})

    def close(self):
        for d in (self.drv, self.refdrv):
            if d:
                d.close()
        self.drv = self.refdrv = None

    def call(self, c, kind, what):
        a = self.drv(c)
        if "panic" in a:
            raise Bad(kind, "%s panicked: %s" % (what, a["panic"]))
        return a

    def dump(self, slot, v=None, drv=None):
        a = (drv or self.drv)({"op": "dump", "slot": slot, "schema": "v%d" % (v or self.v)})
        if "ok" not in a:
            raise Bad("load", "reading a document failed: %s" % json.dumps(a)[:300])
        return self.tok(a["ok"])

    # -------------------------------------------------------------- operations
    def begin(self, foreign=False):
        self.trace.append({"e": "begin", "opt": self.opt, "v": self.v})
        self.start()
        self.foreign = foreign
        if foreign:
            for n in FOREIGN_DIRS:
                os.makedirs(os.path.join(self.hdir, n))
                with open(os.path.join(self.hdir, n, "_0_0.his"), "w") as f:
                    f.write("foreign")
            for n in FOREIGN_FILES:
                with open(os.path.join(self.hdir, n), "w") as f:
                    f.write("foreign")

    def foreign_in(self):
        """Puts files that no save wrote beside the history files."""
        d = os.path.join(self.hdir, self.hash[self.v])
        if self.foreign and os.path.isdir(d):
            for n in FOREIGN_FILES:
                p = os.path.join(d, n)
                if not os.path.exists(p):
                    with open(p, "w") as f:
                        f.write("foreign")

    def edit(self, r, size):
        for c in edits(self.rng, "r%d" % r, size, self.v):
            a = self.drv(c)
            if "panic" in a:
                raise Bad("edit", "editing panicked: %s" % a["panic"])

    def file_info(self, path):
        data = open(path, "rb").read()
        a = self.drv({"op": "dec_slice", "hex": data[:4096].hex()})
        if "ok" not in a:
            # a header is short; the difference behind it does not matter here
            raise Bad("file", "the header of %s is unreadable: %s" % (os.path.basename(path), json.dumps(a)[:200]))
        return len(data) - a["ok"]["n"]

    def saved(self, r, props, tag, doc, hexd):
        path = os.path.join(self.hdir, self.hash[self.v], props["file"])
        if not os.path.exists(path):
            raise Bad("save", "save reported %s but there is no such file" % props["file"])
        size = self.file_info(path)
        self.docs[(self.v, props["file"])] = doc
        self.hexes[(self.v, props["file"])] = hexd
        return {"e": "save", "root": r, "doc": doc, "size": size, "tag": [tag] if tag is not None else [], "name": props["file"],
                "ctl": props["ctl"], "prev": props["prev"], "order": props["order"], "rtag": [props["tag"]] if props["tag"] is not None else []}

    def hexdiff(self, slot):
        a = self.drv({"op": "diff", "a": "src", "b": slot})
        return a.get("ok")

    def save(self, r, tag=None):
        doc = self.dump("r%d" % r)
        hexd = self.hexdiff("r%d" % r)
        c = {"op": "h_save", "h": "h", "slot": "r%d" % r}
        if tag is not None:
            c["tag"] = tag
        a = self.call(c, "save", "a save")
        if self.refused(a, self.hdir):
            a = self.call(c, "save", "a save")
        if "ok" not in a:
            raise Bad("save", "a save failed: %s" % a["err"])
        self.trace.append(self.saved(r, a["ok"], tag, doc, hexd))
        self.vopt[self.v] = self.opt
        return a["ok"]

    def new(self, r):
        self.drv.ok({"op": "h_src", "h": "h", "to": "r%d" % r})
        self.trace.append({"e": "new", "root": r})

    def listing(self):
        a = self.call({"op": "h_list", "h": "h"}, "list", "listing")
        if "ok" not in a:
            raise Bad("list", "listing failed: %s" % a["err"])
        return a["ok"]

    def files(self, lst=None):
        """[(version, props)] in listing order"""
        out = []
        for h, p, path in (lst or self.listing())["files"]:
            if h not in self.ver:
                raise Bad("list", "a file of an unknown version is listed")
            if path != os.path.join(self.hdir, h, p["file"]):
                raise Bad("list", "the path of %s is given as %s" % (p["file"], path))
            out.append((self.ver[h], p))
        return out

    def vers(self, lst):
        out = []
        for v, p in self.files(lst):
            if not out or out[-1]["v"] != v:
                out.append({"v": v, "names": [], "tags": []})
            out[-1]["names"].append(p["file"])
            out[-1]["tags"].append([p["tag"]] if p["tag"] is not None else [])
        return out

    def list(self):
        l = self.listing()
        n = l["newest"]
        self.trace.append({"e": "list", "vers": self.vers(l), "newest": [self.ver[n[0]], n[1]] if n else []})
        per = [(self.ver.get(h), names, newest) for h, names, newest in l["per"]]
        for v, names, newest in per:
            if names and newest != names[-1]:
                raise Bad("list", "the newest file of a version is not the last of its list")

    def expect_conv(self, v, name):
        """Token of the document of file `name` of version v, converted to the present version."""
        if v == self.v:
            return self.docs[(v, name)]
        if not self.refdrv:
            self.refdrv = vp.Drv()
            for w in SRC:
                self.refdrv.ok({"op": "schema", "name": "v%d" % w, "def": SCHEMA[w]})
                self.refdrv.ok({"op": "src", "dir": self.srcs[w], "to": "s%d" % w, "validation": False})
        d = self.refdrv
        d.ok({"op": "clone", "slot": "s%d" % v, "to": "a"})
        a = d({"op": "apply", "slot": "a", "hex": self.hexes[(v, name)]})
        b = d({"op": "adjust", "new": "s%d" % self.v, "old": "a", "to": "b", "validation": False})
        if "ok" not in a or "ok" not in b:
            raise Bad("conv", "converting failed: %s %s" % (a, b))
        return self.dump("b", drv=d)

    def load(self, r, v, name, via=None, val=None):
        slot = "r%d" % r if r else "tmp"
        val = self.rng.random() < .5 if val is None else val
        a = self.call({"op": "h_load", "h": "h", "file": name, "hash": self.hash[v], "to": slot, "validation": val, **({"via": via} if via else {})}, "load", "loading %s" % name)
        ok = "ok" in a
        exp = self.expect_conv(v, name)
        self.trace.append({"e": "load", "root": r, "v": v, "name": name, "doc": self.dump(slot) if ok else 0, "want": exp, "res": "ok" if ok else "err",
                           "err": a.get("err", ""), "val": val, "dangling": exp in self.dang, "invalid": v in INVALID})

    def load_all(self):
        for v, p in self.files():
            if (v, p["file"]) not in self.docs:
                raise Bad("list", "%s is listed but was never saved" % p["file"])
            self.load(0, v, p["file"])

    def reopen(self, v):
        """Opening the history with another source while running: an error, or that source."""
        a = self.drv({"op": "h_open", "h": "h2", "hdir": self.hdir, "src": self.src(v), "opts": drv_opts(self.opt, self.k)})
        got = 0 if "err" in a else self.ver.get(a["ok"], -1 if v in self.hash else v) if "ok" in a else -1
        self.trace.append({"e": "reopen", "v": v, "got": got})

    def restart(self, v, opt=None, may=False):
        # another source or other options in the same process, another process, or refused and then another process
        self.n = getattr(self, "n", self.k) + 1
        live = may and self.n % 3 == 0
        if may and v != self.v and self.n % 3 == 1:
            self.reopen(v)
        if opt:
            self.opt = opt
        own = may and self.n % 4 < 2
        self.start(v, live=live, own=own)
        self.trace.append({"e": "restart", "v": v, "opt": self.opt})
        if own:
            self.edit_src(v % 3 + 1)

    def after(self, ev):
        ev["after"] = self.vers(self.listing())
        ev["dirs"] = [v for v, h in self.hash.items() if os.path.isdir(os.path.join(self.hdir, h))]
        self.trace.append(ev)

    def prune(self, keep, how="all"):
        a = self.call({"op": "h_prune" if how == "all" else "h_prune_hash", "h": "h", "keep": keep}, "prune", "pruning")
        if "ok" not in a:
            raise Bad("prune", "pruning failed: %s" % a["err"])
        self.after({"e": "prune" if how == "all" else "prunedir", "keep": keep})

    def keep(self, names):
        a = self.call({"op": "h_remover", "h": "h", "keep": names}, "prune", "removing")
        if "ok" not in a:
            raise Bad("prune", "removing failed: %s" % a["err"])
        self.after({"e": "keep", "names": names})

    def cut_all(self, at=None):
        """Loads every file in a fresh process while one file at a time is cut short, at every length."""
        fs = self.files()
        want = {(v, p["file"]): self.expect_conv(v, p["file"]) for v, p in fs}
        vs = sorted(set(v for v, _ in fs))
        todo = [(v, p["file"], p["file"]) for v, p in fs] + [(v, "src", "src.archive") for v in vs] + [(v, "info", n) for v in vs for n in ("phase_options.dat", "created_time.dat")]
        n = 0
        # by one thread and by several
        for i, (v, name, fname) in enumerate(todo + [x for x in todo if x[1] == x[2]]):
            if i in (0, len(todo)):
                self.k += 1
                self.restart(self.v)
                d = self.drv
                d.ok({"op": "h_src", "h": "h", "to": "tmp"})
            path = os.path.join(self.hdir, self.hash[v], fname)
            if not os.path.exists(path):
                continue
            before = open(path, "rb").read()
            cmds = []
            for w, p in fs:
                cmds += [{"op": "h_load", "h": "h", "file": p["file"], "hash": self.hash[w], "to": "tmp", "validation": False}, {"op": "dump", "slot": "tmp", "schema": "v%d" % self.v}]
            ats = None
            if at and len(before) > at:
                ats = sorted(set(range(8)) | set(range(len(before) - 8, len(before))) | set(self.rng.randrange(len(before)) for _ in range(at)))
            a = d({"op": "cut", "path": path, "cmds": cmds + [{"op": "panics"}], **({"at": ats} if ats else {})})
            if "ok" not in a:
                raise Bad("cut", "loading with %s cut short: %s" % (fname, json.dumps(a)[:300]))
            if open(path, "rb").read() != before:
                raise Bad("cut", "loading with %s cut short changed files" % fname)
            for res, ns in a["ok"]:
                n += len(ns) * len(fs)
                if res[-1].get("ok"):
                    raise Bad("cut", "loading with %s cut to %s bytes: panic %s" % (fname, ns[:4], res[-1]["ok"][:2]))
                loads = []
                for j, (w, p) in enumerate(fs):
                    l, dm = res[2 * j], res[2 * j + 1]
                    if "panic" in l or ("ok" in l and "ok" not in dm):
                        raise Bad("cut", "loading %s with %s cut to %s bytes: %s %s" % (p["file"], fname, ns[:4], json.dumps(l)[:200], json.dumps(dm)[:100] if "ok" in l else ""))
                    loads.append({"v": w, "name": p["file"], "res": "err" if "err" in l else "doc" if self.tok(dm["ok"]) == want[(w, p["file"])] else "other"})
                self.trace.append({"e": "cut", "v": v, "file": name, "at": ns[:6], "loads": loads})
            if name not in ("info", "src"):
                self.load(0, v, name)   # whole again
        return n

    # -------------------------------------------------------------- programs
    TAGS = [None, None, None, "t", "tag", "a b", "(3)", "x_1_2", "日本", "", ".his"]

    def run(self, log, full=True, foreign=False):
        """Runs one behaviour of HistoryMC; sizes and files are mapped to real ones."""
        self.begin(foreign)
        self.steps(log, foreign)
        self.list()
        if full:
            self.load_all()
            self.restart(self.v)
            self.load_all()
            self.list()

    def steps(self, log, foreign=False):
        rng = self.rng
        for st in log:
            op = st["op"]
            if foreign and rng.random() < .3:
                self.foreign_in()
            if op == "save":
                self.edit(st["root"], st["size"])
                self.save(st["root"], rng.choice(self.TAGS))
            elif op == "new":
                self.new(st["root"])
            elif op == "load":
                fs = self.files()
                if fs:
                    vs = sorted(set(v for v, _ in fs))
                    v = vs[(st["ver"] - 1) % len(vs)]
                    c = [p["file"] for w, p in fs if w == v]
                    via = None
                    name = c[(st["file"] - 1) % len(c)]
                    if v == self.v and rng.random() < .3:
                        via = "history"
                    elif (v, name) == (fs[-1][0], fs[-1][1]["file"]) and rng.random() < .5:
                        via = "newest"
                    self.load(st["root"], v, name, via)
            elif op == "restart":
                # the options of a version with files stay as they are
                self.restart(st["v"], self.vopt[st["v"]] if any(v == st["v"] for v, _ in self.files()) else st["opt"], may=True)
            elif op == "prune":
                if rng.random() < .7 or self.v not in [x["v"] for x in self.vers(self.listing())]:
                    self.prune(st["keep"])
                else:
                    self.prune(st["keep"], "dir")
            elif op == "keep":
                c = [p["file"] for w, p in self.files() if w == self.v]
                if c:
                    self.keep(sorted(set(c[(i - 1) % len(c)] for i in st["files"])))
            if rng.random() < .15 or op in ("prune", "keep"):
                self.list()


def falsify(e):
    if e["e"] == "reopen":
        return {**e, "got": e["v"] % 3 + 1}
    if e["e"] == "load" and e["res"] == "ok":
        return {**e, "doc": -7}
    if e["e"] == "list" and e["vers"]:
        e["vers"][-1]["names"].pop()
        e["vers"][-1]["tags"].pop()
        return e
    if e["e"] == "save":
        return {**e, "name": e["name"] + "x"}
    if e["e"] in ("prune", "prunedir", "keep") and e["after"] and e.get("keep", 1):
        return {**e, "after": []}
    if e["e"] == "cut" and e["loads"]:
        e["loads"][0]["res"] = "other"
        return e


def validate(ctx, traces, heap="2g"):
    """Checks recorded traces (list of lists of events) against HistoryTrace; returns [(k, index, kind, text)]."""
    return vp.validate(ctx, "HistoryTrace", traces, falsify, heap)
