"""Schemas of documents, their JSON5 sources, and the replay of specification behaviours.

A schema (the same data that DocMC.tla reads) says which members exist; values are tokens.
This module gives tokens concrete values, writes the source, and compares what the driver
reads back with what the specification says."""
import json, os, random, struct
import vp


def f2h(x):
    return "%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


INTS = [1, -1, 127, 128, -128, -129, 255, 256, 32767, -32768, 65535, 65536, 2**31 - 1, -2**31, 2**31, 2**40, -2**40,
        2**55, -2**55 - 1, 2**63 - 1, -2**63, 12345, -98765, 2**53 + 1]
FLOATS = ["3ff0000000000000", "bff0000000000000", "8000000000000000", "7ff0000000000000", "fff0000000000000",
          "3fb999999999999a", "0000000000000001", "7fefffffffffffff", "400921fb54442d18", "4059000000000000",
          "c059000000000000", "3eb0c6f7a0b5ed8d", "43e0000000000000", "3ff8000000000000", "7ff8000000000000"]
STRS = ["a", "Hello", "日本語テキスト", "line\nbreak", "quote\"'\\", "0123456789abcdef", "x" * 15, "y" * 16, "z" * 17,
        "www.example.com", "q" * 255, "r" * 256, "s" * 300, "tab\tand\u0001", "null", "-12", "…", "A-Z_9", " "]


def pool_value(t, tok, rng):
    """Concrete value of token `tok` (0 is the type's initial value)."""
    if tok == 0:
        return {"bool": False, "int": 0, "float": f2h(0.0), "str": "", "ia": [0, 0], "fa": [f2h(0.0)] * 2, "bin": "0000"}[t]
    if t == "bool":
        return tok % 2 == 1
    if t == "int":
        return rng.choice(INTS) if rng.random() < .7 else rng.randint(-2**63, 2**63 - 1)
    if t == "float":
        return rng.choice(FLOATS) if rng.random() < .7 else f2h(rng.uniform(-1e6, 1e6))
    if t == "str":
        return rng.choice(STRS) if rng.random() < .7 else "".join(rng.choice("abcXYZ019_-. é漢") for _ in range(rng.randint(1, 40)))
    if t == "ia":
        return [rng.choice(INTS) for _ in range(rng.choice([0, 1, 2, 3, 7]))]
    if t == "fa":
        return [rng.choice(FLOATS) for _ in range(rng.choice([0, 1, 2, 3]))]
    if t == "bin":
        return "".join("%02x" % rng.randint(0, 255) for _ in range(rng.choice([0, 1, 2, 5, 9, 40])))
    raise vp.ToolError(t)


class Pool:
    """Injective token -> value maps per type (bool excepted)."""

    def __init__(self, seed, fixed=None):
        self.rng = random.Random(seed)
        self.m = {}
        self.fixed = fixed

    TWINS = {"float": [("8000000000000000", "7ff8000000000001"), ("8000000000000000", "7ff8000000000000")],
             "int": [(-1, 1), (2**63 - 1, -2**63), (2**32, 1)],
             "str": [("a", "a "), ("\u3000", " "), ("e\u0301", "\u00e9")],
             "ia": [([0], [0, 0]), ([], [0])], "fa": [(["8000000000000000"] * 2, ["0000000000000000", "8000000000000000"])],
             "bin": [("00", "000000"), ("", "00")]}

    def val(self, t, tok):
        """Now and then tokens 1 and 2 are values that differ as little as possible from each other or from the initial value."""
        if tok in (1, 2) and (t, tok) not in self.m and t in self.TWINS and self.rng.random() < .35:
            a, b = self.rng.choice(self.TWINS[t])
            self.m.setdefault((t, 1), a)
            if self.m[(t, 1)] == a:
                self.m.setdefault((t, 2), b)
        if tok >= 90 and self.fixed is not None:
            return self.fixed.val(t, tok)
        k = (t, tok)
        if k not in self.m:
            used = [v for (tt, _), v in self.m.items() if tt == t]
            used += [pool_value(t, 0, self.rng)]
            for _ in range(200):
                v = pool_value(t, tok, self.rng)
                if tok == 0 or t == "bool" or v not in used:
                    break
            self.m[k] = v
        return self.m[k]


class SourcePool:
    """Values written in sources: only literals whose JSON5 form is plain."""

    def __init__(self, salt=0):
        self.salt = salt

    def val(self, t, tok):
        k = tok * 7 + self.salt * 1000
        return {"bool": (tok + self.salt) % 2 == 0, "int": k + 1, "float": f2h(k + 0.5), "str": "src%d" % k, "ia": [k, -k, 3],
                "fa": [f2h(k + 0.25), f2h(-1.5)], "bin": "%04x" % (k % 65536)}[t]

    def default(self, name, t):
        h = sum(ord(c) * (i + 3) for i, c in enumerate(name)) % 500 + self.salt * 1000
        return {"bool": h % 2 == 0, "int": h, "float": f2h(h + 0.125), "str": "d" + name + str(h), "ia": [h, 1, 2],
                "fa": [f2h(h + 0.5)], "bin": "%04x" % (h % 65536)}[t]


SUF = {"n": "", "q": "?", "u": "!", "qu": "!?"}
TN = {"bool": "Bool", "int": "Int", "float": "Float", "str": "Str", "ia": "IntArray", "fa": "FloatArray", "bin": "Binary"}


def h2f(h):
    return struct.unpack(">d", struct.pack(">Q", int(h, 16)))[0]


def lit(t, v):
    """JSON5 literal of a value of type t in V form."""
    if v[0] == "n":
        return '["%s", null]' % TN[t]
    if v[0] == "u":
        return '["%s", undefined]' % TN[t]
    x = v[1]
    if t == "bool":
        return "true" if x else "false"
    if t == "int":
        return str(x)
    if t == "float":
        return repr(h2f(x))
    if t == "str":
        return json.dumps(x, ensure_ascii=False)
    if t == "ia":
        return "[" + ", ".join(['"IntArray"'] + [str(y) for y in x]) + "]"
    if t == "fa":
        return "[" + ", ".join(['"FloatArray"'] + [repr(h2f(y)) for y in x]) + "]"
    if t == "bin":
        return "[" + ", ".join(['"Binary"'] + [str(y) for y in bytes.fromhex(x)]) + "]"


def old_obj(names):
    return "Old: [%s]" % ", ".join(json.dumps(n) for n in names)


def old_attr(names):
    return '["Old", %s], ' % ", ".join(json.dumps(n) for n in names) if names else ""


class Schema:
    def __init__(self, cfg, salt=0):
        self.c = cfg
        self.sp = SourcePool(salt)

    # ---- default values
    def pdefault(self, n):
        d = self.c["pdef"][n]
        return [d["dv"]] if d["dv"] != "v" else ["v", self.sp.default(n, d["t"])]

    def refdefault(self, l, t):
        vt = dict(((a, b), c) for a, b, c in self.c["refvt"])[(l, t)]
        if self.c["lists"][l]["enum"]:
            return ["n"]
        rd = self.c.get("refdef", {}).get(l + "." + t)
        return rd if rd else ["v", self.c["rows"][t][0]]

    # ---- source text
    def source(self):
        """{file name: text} of the source directory."""
        c = self.c
        src_l = {tuple(p): (d, n, ids) for p, d, n, ids in c["src"]["L"]}
        src_i = {tuple(p): (ps, rs) for p, ps, rs in c["src"]["I"]}
        out = []
        for n in c["rootp"]:
            d = c["pdef"][n]
            out.append("%s: %s" % (json.dumps(n + SUF[d["vt"]]), lit(d["t"], self.pdefault(n))))
        out += self.const_src()
        for l in c["rootl"]:
            out.append("%s: %s" % (json.dumps(l + ("!" if c["lists"][l].get("undef") else "")),
                                   self.list_src(l, ("%s" % l,), src_l, src_i, '"MList"', True)))
        if c.get("oldroot"):
            out.append(old_obj(c["oldroot"]))
        return {"root.json5": "{\n  " + ",\n  ".join(out) + "\n}\n"}

    def const_src(self):
        """Tables and constant lists of the source."""
        c, out = self.c, []
        for t, rows in c["rows"].items():
            out.append('%s: ["Table", [{ tv: 1, tn: "x" }], %s%s]' % (json.dumps(t), old_attr(c.get("oldrows", {}).get(t)), ", ".join(
                '{ ID: %s, tv: %d, tn: %s }' % (json.dumps(r), 10 + k + self.sp.salt * 100, json.dumps(r + "!")) for k, r in enumerate(rows))))
        for n, items in c.get("clists", {}).items():
            out.append('%s: ["CList", [{ cv: 5, cs: "cs", cin: ["CilDef", [{ w: 1.5 }]] }], %s]' % (json.dumps(n), ", ".join(
                '{ cv: %d, cin: ["Cil", %s] }' % (v + self.sp.salt, ", ".join("{ w: %s }" % float(k + v) for k in range(v % 3 + 1))) for v in items)))
        return out

    def default_obj(self, l):
        c = self.c
        o = []
        for n in c["lists"][l]["P"]:
            d = c["pdef"][n]
            o.append("%s: %s" % (json.dumps(n + SUF[d["vt"]]), lit(d["t"], self.pdefault(n))))
        for s in c["lists"][l]["subs"]:
            o.append('%s: ["MilDef", %s]' % (json.dumps(s + ("!" if c["lists"][s].get("undef") else "")), "[" + self.default_obj(s) + "]"))
        if c["lists"][l]["refs"]:
            vt = dict(((a, b), x) for a, b, x in c["refvt"])
            rs = []
            for t in c["lists"][l]["refs"]:
                dv = self.refdefault(l, t)
                rs.append("%s: %s" % (json.dumps(t + SUF[vt[(l, t)]]), {"n": "null", "u": "undefined"}.get(dv[0]) or json.dumps(dv[1])))
            if c["lists"][l].get("rold"):
                rs.append(old_obj(c["lists"][l]["rold"]))
            o.append('%s: { %s }' % ("Enum" if c["lists"][l]["enum"] else "Ref", ", ".join(rs)))
        if c["lists"][l].get("old"):
            o.append(old_obj(c["lists"][l]["old"]))
        return "{ " + ", ".join(o) + " }"

    def list_src(self, l, path, L, I, kind, with_def):
        c = self.c
        parts = [kind]
        if with_def:
            parts.append("[" + self.default_obj(l) + "]")
        d, nxt, ids = L.get(path, (True, 0, []))
        if nxt != len(ids):
            parts.append('["NextID", %d]' % nxt)
        for i in ids:
            ps, rs = I[path + (i,)]
            o = ["ID: %d" % i]
            for n, v in ps.items():
                if v[0] != "d":
                    t = c["pdef"][n]["t"]
                    o.append("%s: %s" % (json.dumps(n), lit(t, v if v[0] != "v" else ["v", self.sp.val(t, v[1])])))
            rr = ["%s: %s" % (json.dumps(t), {"n": "null", "u": "undefined"}.get(v[0]) or json.dumps(v[1])) for t, v in (rs.items() if rs else []) if v[0] != "d"]
            if rr:
                o.append('%s: { %s }' % ("Enum" if c["lists"][l]["enum"] else "Ref", ", ".join(rr)))
            for s in c["lists"][l]["subs"]:
                sp = path + (i, s)
                if L.get(sp, (True, 0, []))[1] or L.get(sp, (True, 0, []))[2]:
                    o.append("%s: %s" % (json.dumps(s), self.list_src(s, sp, L, I, '"Mil"', False)))
            parts.append("{ " + ", ".join(o) + " }")
        return "[" + ", ".join(parts) + "]"

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for f, t in self.source().items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(t)
        return d

    # ---- driver dump schema
    def dump_schema(self):
        c = self.c
        t_item = {"p": [["tv", "int"], ["tn", "str"]]}
        return {"p": [[n, c["pdef"][n]["t"]] for n in c["rootp"]],
                "m": [[l, self.item_schema(l)] for l in c["rootl"]],
                "c": [[n, {"p": [["cv", "int"], ["cs", "str"]], "c": [["cin", {"p": [["w", "float"]]}]]}] for n in c.get("clists", {})],
                "t": [[t, t_item] for t in c["rows"]]}

    def item_schema(self, l):
        c = self.c
        d = c["lists"][l]
        return {"p": [[n, c["pdef"][n]["t"]] for n in d["P"]], "m": [[s, self.item_schema(s)] for s in d["subs"]],
                "r": d["refs"], "e": d["enum"]}

    def consts(self):
        c = self.c
        cl, tb = {}, {}
        for n, items in c.get("clists", {}).items():
            cl[n] = [{"p": {"cv": ["v", v + self.sp.salt], "cs": ["v", "cs"]},
                      "c": {"cin": [{"p": {"w": ["v", f2h(float(k + v))]}, "c": {}} for k in range(v % 3 + 1)]}} for v in items]
        for t, rows in c["rows"].items():
            tb[t] = {r: {"p": {"tv": ["v", 10 + k + self.sp.salt * 100], "tn": ["v", r + "!"]}, "c": {}} for k, r in enumerate(rows)}
        return cl, tb

    # ---- expected dump of a specification document
    def expect(self, doc, pool, fl=True):
        c = self.c
        L = {tuple(p): (d, n, ids) for p, d, n, ids in doc["L"]}
        I = {tuple(p): (ps, rs) for p, ps, rs in doc["I"]}

        def val(n, v):
            t = c["pdef"][n]["t"]
            if v[0] == "d":
                r = self.pdefault(n)
            elif v[0] == "v":
                r = ["v", pool.val(t, v[1]) if not isinstance(v[1], list) else v[1][0]]
            else:
                r = [v[0]]
            return [r, v[0] == "d"] if fl else r

        def lst(path):
            d, n, ids = L[path]
            if not d:
                return None
            return {"n": n, "i": [[i, item(path + (i,))] for i in ids]}

        def item(path):
            l = path[-2]
            ps, rs = I[path]
            o = {"p": {n: val(n, ps[n]) for n in c["lists"][l]["P"]},
                 "m": {s: lst(path + (s,)) for s in c["lists"][l]["subs"]}}
            if c["lists"][l]["refs"]:
                o["r"] = {t: (self.refdefault(l, t) if rs[t][0] == "d" else rs[t]) for t in c["lists"][l]["refs"]}
                if c["lists"][l]["enum"]:
                    act = [[t, rs[t][1]] for t in c["lists"][l]["refs"] if rs[t][0] == "v"]
                    o["e"] = act[0] if len(act) == 1 else None
            return o

        cl, tb = self.consts()
        return {"p": {n: val(n, doc["p"][n]) for n in c["rootp"]}, "m": {l: lst((l,)) for l in c["rootl"]}, "c": cl, "t": tb}


def first_diff(a, b, path=""):
    """Where two JSON values differ first: (path, a, b) or None."""
    if type(a) != type(b):
        return (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return (path + "/" + k, "missing", b[k])
            if k not in b:
                return (path + "/" + k, a[k], "missing")
            r = first_diff(a[k], b[k], path + "/" + str(k))
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return (path, a, b)
        for k, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, path + "/%d" % k)
            if r:
                return r
        return None
    return None if a == b else (path, a, b)


# ---------------------------------------------------------------------------------------
# Schemas

def mk(rootp, lists, rootl, rows, refvt, clists=None, items=None, next_ids=None, refdef=None, undef_lists=()):
    """rootp/lists P: [(name, t, vt, dv)]; items: {path: {param: v}}, listed in order."""
    pdef = {}
    for n, t, vt, dv in rootp:
        pdef[n] = {"t": t, "vt": vt, "dv": dv}
    ld = {}
    for l, d in lists.items():
        for n, t, vt, dv in d["P"]:
            pdef[n] = {"t": t, "vt": vt, "dv": dv}
        ld[l] = {"P": [x[0] for x in d["P"]], "subs": d.get("subs", []), "refs": d.get("refs", []), "enum": d.get("enum", False), "undef": d.get("undef", False)}
    items = items or {}
    L, I = [], []

    def walk_list(path):
        ids = [] if path in undef_lists else [p[-1] for p in items if p[:-1] == path]
        nxt = (next_ids or {}).get(path, (max(ids) + 1) if ids else 0)
        L.append([list(path), path not in undef_lists, nxt, ids])
        for i in ids:
            ip = path + (i,)
            l = path[-1]
            rs = {t: ["d"] for t in ld[l]["refs"]}
            ps = {n: ["d"] for n in ld[l]["P"]}
            for k, v in items[ip].items():
                if k in rs:
                    rs[k] = v
                else:
                    ps[k] = v
            I.append([list(ip), ps, rs if rs else 0])
            for s in ld[l]["subs"]:
                walk_list(ip + (s,))
    for l in rootl:
        walk_list((l,))
    if not rows:
        rows = {}
    return {"rootp": [x[0] for x in rootp], "pdef": pdef, "lists": ld, "rootl": rootl, "rows": rows, "refvt": refvt,
            "refdef": refdef or {}, "clists": clists or {}, "src": {"p": {x[0]: ["d"] for x in rootp}, "L": L, "I": I}}


def std_schema(undef=False):
    """Every member kind: parameters of all types, nested lists, references, enum, constant data."""
    return mk(
        [("pb", "bool", "n", "v"), ("pi", "int", "n", "v"), ("pf", "float", "q", "v"), ("ps", "str", "qu", "n"),
         ("pia", "ia", "n", "v"), ("pfa", "fa", "u", "v"), ("pbin", "bin", "qu", "v"), ("pi2", "int", "qu", "n"),
         ("ps2", "str", "n", "v"), ("pbq", "bool", "q", "n")],
        {"ml": {"P": [("a", "int", "n", "v"), ("b", "str", "q", "n"), ("c", "float", "u", "v")], "subs": ["inner"], "refs": ["ta", "tb"]},
         "inner": {"P": [("x", "int", "qu", "v"), ("y", "ia", "n", "v")], "subs": ["deep"]},
         "deep": {"P": [("z", "str", "n", "v"), ("zb", "bool", "q", "v")]},
         "me": {"P": [("e1", "bin", "n", "v")], "refs": ["tb", "tc"], "enum": True},
         "mu": {"P": [("u1", "fa", "n", "v")], "undef": True}},
        ["ml", "me", "mu"],
        {"ta": ["r1", "r2"], "tb": ["r1", "s1"], "tc": ["t1", "t2", "r1"]},
        [["ml", "ta", "n"], ["ml", "tb", "qu"], ["me", "tb", "q"], ["me", "tc", "q"]],
        clists={"cl": [1, 2]},
        items={("ml", 0): {"a": ["v", 91], "ta": ["v", "r2"]}, ("ml", 1): {"b": ["v", 92], "tb": ["v", "s1"]},
               ("ml", 0, "inner", 0): {"x": ["v", 93]}, ("ml", 0, "inner", 0, "deep", 0): {"z": ["v", 94]},
               ("ml", 0, "inner", 0, "deep", 1): {}, ("me", 0): {"tb": ["v", "r1"]}, ("mu", 0): {"u1": ["v", 95]}},
        undef_lists=[("mu",)] if undef else [])


def tiny_schema(n_items=2):
    """One list with one parameter: for exhaustive enumeration of list edits."""
    return mk([("pi", "int", "n", "v")], {"ml": {"P": [("a", "int", "n", "v")]}}, ["ml"], {"ta": ["r1"]}, [],
              items={("ml", k): {"a": ["v", 91 + k]} for k in range(n_items)})


def nested_schema():
    return mk([("pi", "int", "q", "v")], {"ml": {"P": [("a", "str", "n", "v")], "subs": ["inner"]}, "inner": {"P": [("x", "int", "n", "v")]}},
              ["ml"], {"ta": ["r1"]}, [], items={("ml", 0): {"a": ["v", 91]}, ("ml", 0, "inner", 0): {"x": ["v", 92]}})


def flat_schema():
    """Root and item parameters of every type with every nullability."""
    rp, ip = [], []
    for t in ("bool", "int", "float", "str", "ia", "fa", "bin"):
        for vt in ("n", "q", "u", "qu"):
            rp.append(("r_%s_%s" % (t, vt), t, vt, "v" if vt == "n" or t in ("int", "fa") else ("n" if vt in ("q", "qu") else "v")))
            ip.append(("i_%s_%s" % (t, vt), t, vt, "v" if vt == "n" or t in ("str", "ia") else ("n" if vt in ("q", "qu") else "v")))
    return mk(rp, {"ml": {"P": ip}}, ["ml"], {"ta": ["r1"]}, [], clists={"cl": [1]}, items={("ml", 0): {}})


def few_schema():
    """Few members, so that the same member is written again and again."""
    return mk([("pf", "float", "q", "v"), ("pfa", "fa", "n", "v"), ("pb", "bool", "qu", "v")],
              {"ml": {"P": [("a", "float", "n", "v"), ("s", "str", "u", "v")]}}, ["ml"], {"ta": ["r1"]}, [], items={("ml", 0): {}})


def mark_schema():
    """One member and one reference that may be null and undefined."""
    return mk([], {"ml": {"P": [("a", "int", "qu", "v")], "refs": ["ta"]}}, ["ml"], {"ta": ["r1"]}, [["ml", "ta", "qu"]], items={("ml", 0): {}})


def ref_schema():
    return mk([("pi", "int", "n", "v")],
              {"ml": {"P": [("a", "int", "n", "v")], "refs": ["ta", "tb"]},
               "me": {"P": [("e1", "int", "n", "v")], "refs": ["tb", "tc"], "enum": True, "subs": ["inner"]},
               "inner": {"P": [("x", "int", "n", "v")], "refs": ["ta"]}},
              ["ml", "me"], {"ta": ["r1", "r2"], "tb": ["r1", "s1"], "tc": ["t1", "t2"]},
              [["ml", "ta", "n"], ["ml", "tb", "qu"], ["me", "tb", "q"], ["me", "tc", "q"], ["inner", "ta", "q"]],
              refdef={"inner.ta": ["n"]},
              items={("ml", 0): {"ta": ["v", "r2"]}, ("me", 0): {"tb": ["v", "r1"]}, ("me", 0, "inner", 0): {}})


SIM_DEFAULTS = {"slots": ["a", "b", "c"], "toks": [1, 2, 3], "maxitems": 6, "maxid": 12, "depth": 40,
                "feat": ["set", "mut", "ill", "list", "ref", "refill", "clone"]}


def tlc_check(ctx, cfg, module="DocMC", timeout=600, heap="3g"):
    """Checks the invariants on every reachable document (the log is not part of the state)."""
    return tlc_docs(ctx, dict(cfg, depth=1000000), True, module=module, extra_cfg="VIEW %s\n" % ("DocView" if module == "DocMC" else "SView"), timeout=timeout, heap=heap, workers=2)


def tlc_docs(ctx, cfg, exhaustive, seed=1, num=100, module="DocMC", extra_cfg="", timeout=600, heap="3g", workers=None, props=True):
    """Starts TLC on DocMC for this schema configuration."""
    d = ctx.scratch("cfg")
    p = os.path.join(d, "cfg.json")
    c = dict(cfg)
    c["refvt"] = c["refvt"] or [["nolist", "notable", "n"]]
    with open(p, "w") as f:
        json.dump(c, f)
    t = open(os.path.join(vp.SPEC, module + ".cfg.in")).read().replace("@PICK@", "PickAll" if exhaustive else "PickOne") + extra_cfg
    if not exhaustive:
        t = t.replace(" ChainExact", "")   # follows from DiffExact at every commit; checked in the exhaustive runs
    args = ["-workers", str(workers or 4)] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(cfg["depth"] + 2), "-seed", str(seed), "-workers", "1"]
    return vp.Tlc(ctx, module, t, env={"DOC_CFG": p}, args=args, timeout=timeout, heap=heap)
