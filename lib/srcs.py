"""Sources of Source.tla as text, and the documents they are as driver dumps."""
import json, os, random, re
from docs import TN, f2h, h2f, lit

RAWS = {"null": "null", "undefined": "undefined", "object": "{ a: 1 }", "empty": "[]", "unknown": '["Foo", 1]', "half": '["IntArray", 1.5]',
        "real": '["Int", 1.5]', "big": '["Binary", 256]', "text": '["FloatArray", "x"]', "nested": '["IntArray", [1]]', "two": '["Str", null, null]',
        "minus": '["Binary", -1]', "null1": "[null, 1]", "1null": "[1, null]", "undef1": "[undefined, 1]", "mixed": '[1, "a"]',
        "nullints": '["IntArray", null, 1]', "nullfloats": '["FloatArray", 1.5, null]', "intnull2": '["Int", null, undefined]', "float2": '["Float", 1, 2]'}
RAW_ATTRS = {"next2": '["NextID", 7, 8]', "next0": '["NextID"]', "nexts": '["NextID", "7"]', "nextf": '["NextID", 7.5]', "unknown": '["Foo", 1]', "number": "[1]",
             "empty": "[]", "oldnumber": '["Old", 1]', "default0": '["Default"]', "default2": '["Default", {}, {}]'}
INTS = [1, -1, 0, 255, 256, -2**31, 2**31, 2**53 + 1, 2**63 - 1, -2**63, 12345]
FLOATS = [0.5, -1.0, 1e300, 5e-324, 3.0, -0.0, 0.1, 123456789.125, 2.0**53]
STRS = ["a", "", "quote\" ' \\ /", "line\nbreak\ttab\r", "日本語", "  ", "\x00\x01\x1f\x7f", "//", "/* */", "\U0001f600", "ID", "Ref", "MList", "x" * 300, "é", "{}[],:", "#", "﻿"]


class Values:
    """What the value tokens of one source stand for."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.m = {}

    def val(self, t, x):
        if (t, x) not in self.m:
            r = self.rng
            used = [v for (u, _), v in self.m.items() if u == t]
            for _ in range(50):
                v = {"int": lambda: r.choice(INTS), "float": lambda: f2h(r.choice(FLOATS)), "str": lambda: r.choice(STRS), "bool": lambda: x % 2 == 1,
                     "ia": lambda: [r.choice(INTS) for _ in range(r.randint(0, 3))], "fa": lambda: [f2h(r.choice(FLOATS)) for _ in range(r.randint(0, 3))],
                     "bin": lambda: "".join("%02x" % r.choice([0, 1, 127, 128, 255]) for _ in range(r.randint(0, 4)))}[t]()
                if v not in used:
                    break
            self.m[(t, x)] = v
        return self.m[(t, x)]


def jstr(s, r):
    q = r.choice("\"'") if r else '"'
    return q + json.dumps(s)[1:-1].replace('\\"', '"').replace(q, "\\" + q) + q


class Writer:
    def __init__(self, values, seed):
        self.v = values
        self.r = random.Random(seed)

    def param(self, p):
        t = p["t"]
        if p["q"] != "v":
            return lit(t, [p["q"]])
        x = self.v.val(t, p["x"])
        if t == "str":
            return jstr(x, self.r)
        if t == "float" and h2f(x) == int(h2f(x)) and abs(h2f(x)) < 2**53 and not (h2f(x) == 0) and self.r.random() < .5:
            return '["Float", %d]' % int(h2f(x))
        if t == "float" and self.r.random() < .3:
            return '["Float", %s]' % lit(t, ["v", x])
        if t == "ia" and x and self.r.random() < .5:
            return "[%s]" % ", ".join(map(str, x))
        return lit(t, ["v", x])

    def key(self, n, s=""):
        k = n + s
        return k if self.r.random() < .5 and re.match("^[@a-z_A-Z][a-zA-Z0-9_]*$", n) and s in ("", "!", "?", "!?") else jstr(k, self.r)

    def value(self, v):
        if v["k"] == "p":
            return self.param(v)
        if v["k"] == "raw":
            return RAWS[v["r"]]
        if v["k"] == "un":
            return '["__InnerMutUndefined"]'
        at = []
        for a in v["at"]:
            if a["a"] == "Default":
                at.append(("[%s]" if self.r.random() < .5 else '["Default", %s]') % self.obj(a["o"]))
            elif a["a"] == "raw":
                at.append(RAW_ATTRS[a["ns"][0]])
            elif a["a"] == "NextID":
                at.append('["NextID", %d]' % a["x"])
            else:
                at.append('["Old", %s]' % ", ".join(jstr(n, self.r) for n in a["ns"]) if a["ns"] else '["Old"]')
        it = [self.obj(o) for o in v["it"]]
        seq = at[:-1] + it[:1] + at[-1:] + it[1:] if v["late"] else at + it
        return '["%s"%s%s]' % (v["tag"], "".join(", " + x for x in seq), self.r.choice(["", "", ","]))

    def obj(self, o):
        ms = ["%s: %s" % (self.key(m["n"], m["s"]), self.value(m["v"])) for m in o["m"]]
        ex = []
        for i in o["id"]:
            ex.append("ID: %s" % ({"n": str(i["n"]), "s": jstr(i["s"], self.r), "f": "1.5"}[i["k"]]))
        for r in o["rf"]:
            es = ["%s: %s" % (self.key(e["n"], e["s"]), {"v": jstr(e["x"], self.r), "n": "null", "u": "undefined"}[e["q"]]) for e in r["m"]]
            for old in r["old"]:
                es.append("Old: [%s]" % ", ".join(jstr(n, self.r) for n in old))
            ex.append("%s: { %s }" % ("Enum" if r["e"] else "Ref", ", ".join(es)))
        for old in o["old"]:
            ex.append("Old: [%s]" % ", ".join(jstr(n, self.r) for n in old))
        for e in ex:   # anywhere between the members
            ms.insert(self.r.randint(0, len(ms)), e)
        return "{ " + ", ".join(ms) + self.r.choice(["", ","] if ms else [""]) + " }"

    def files(self, src):
        """{file name: text}"""
        out = {"root.json5": self.obj(src["root"])}
        for m in src["files"]:
            out[m["n"] + m["s"] + ".json5"] = self.value(m["v"])
        return out


def write(d, files):
    os.makedirs(d, exist_ok=True)
    for n in os.listdir(d):
        if n not in files:
            os.unlink(os.path.join(d, n))
    for n, t in files.items():
        with open(os.path.join(d, n), "w", encoding="utf8", newline="") as f:
            f.write(t)


# ---------------------------------------------------------------------- documents
def obj_schema(o, mut):
    s = {"p": [[m["n"], m["v"]["t"]] for m in o["m"] if m["v"]["k"] == "p"]}
    s["m" if mut else "c"] = [[m["n"], obj_schema(default(m["v"]), mut)] for m in o["m"] if m["v"]["k"] == "l"]
    for r in o["rf"]:
        s["r"] = [e["n"] for e in r["m"]]
        s["e"] = r["e"]
    return s


def default(l):
    return [a["o"] for a in l["at"] if a["a"] == "Default"][0]


def schema(src):
    ms = src["root"]["m"] + src["files"]
    s = {"p": [[m["n"], m["v"]["t"]] for m in ms if m["v"]["k"] == "p"], "m": [], "c": [], "t": []}
    for m in ms:
        if m["v"]["k"] == "l":
            s[{"MList": "m", "CList": "c", "Table": "t"}[m["v"]["tag"]]].append([m["n"], obj_schema(default(m["v"]), m["v"]["tag"] == "MList")])
    return s


def dic(x):
    return x if isinstance(x, dict) else {}


def expect(doc, values):
    """The dump of a document of Source.tla."""
    def p(v):
        return ["v", values.val(v["t"], v["x"])] if v["q"] == "v" else [v["q"]]

    def refs(it, out):
        r = dic(it["r"])
        if r:
            out["r"] = {n: ["v", v["x"]] if v["q"] == "v" else [v["q"]] for n, v in r.items()}
        if r and it["e"]:
            out["e"] = [[n, v["x"]] for n, v in r.items() if v["q"] == "v"][0]
        return out

    def mitem(it):
        return refs(it, {"p": {n: [p(v), v["d"]] for n, v in dic(it["p"]).items()}, "m": {n: mlist(l) for n, l in dic(it["m"]).items()}})

    def mlist(l):
        return None if l["u"] else {"n": l["n"], "i": [[x["id"], mitem(x["v"])] for x in l["i"]]}

    def citem(it):
        return refs(it, {"p": {n: p(v) for n, v in dic(it["p"]).items()}, "c": {n: [citem(x) for x in l] for n, l in dic(it["c"]).items()}})
    return {"p": {n: [p(v), True] for n, v in dic(doc["p"]).items()}, "m": {n: mlist(l) for n, l in dic(doc["m"]).items()},
            "c": {n: [citem(x) for x in l] for n, l in dic(doc["c"]).items()},
            "t": {n: {r: citem(x) for r, x in dic(t).items()} for n, t in dic(doc["t"]).items()}}
