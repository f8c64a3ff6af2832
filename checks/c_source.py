"""J01 to J04: sources, their text form, and documents printed as sources."""
import json, os, random, struct
from fractions import Fraction
import vp, srcs, docs, docreplay
from docs import f2h, first_diff

GEN_CFG = """SPECIFICATION Spec
CONSTANTS Small = %s
 Depth = %d
 Items_ = %d
 Chars_ = %d
 Budget = %d
 Corruptions = %d
INVARIANTS Agree InUniverse
CHECK_DEADLOCK FALSE
"""
MC_CFG = """SPECIFICATION Spec
CONSTANTS Frames <- McFrames
INVARIANTS Framed Closed Wrapped
CHECK_DEADLOCK FALSE
"""


def nearest(x):
    """The float nearest to a fraction, as hex; None when it is out of range."""
    try:
        return f2h(x.numerator / x.denominator)
    except OverflowError:
        return None


def digits(d, base):
    n = 0
    for x in d:
        n = n * base + x
    return n


def number(v):
    """The answers that give the value of a number exactly (or as exactly as a float can)."""
    if v["k"] == "nan":
        return ["nan"]
    if v["k"] == "inf":
        return [["num", f2h(float("-inf" if v["neg"] else "inf"))]]
    sign = -1 if v["neg"] else 1
    if not v["real"]:
        n = sign * digits(v["i"], v["base"])
        if -2**63 <= n < 2**63:
            return [["int", n]]
        return ["refused", ["num", nearest(Fraction(n))]]
    e = digits(v["e"], 10) * (-1 if v["en"] else 1) - len(v["f"])
    x = Fraction(digits(v["i"] + v["f"], 10)) * (Fraction(10) ** e)
    h = nearest(x)
    if h is None:
        return ["refused", ["num", f2h(sign * float("inf"))]]
    return [["num", f2h(-struct.unpack(">d", bytes.fromhex(h))[0]) if v["neg"] else h]]


def same(v, a):
    """Whether the answer a is the value v of the specification; gives back 'ok', 'bad' or 'refused' (when refusing is right as well)."""
    k = v["k"]
    if k in ("num", "inf", "nan"):
        w = number(v)
        if a is None:
            return "refused" in w
        if "nan" in w:
            return a[0] == "num" and is_nan(a[1])
        return a in w
    if a is None:
        return False
    if k == "null" or k == "undef":
        return a == [k]
    if k == "bool":
        return a == ["bool", v["v"]]
    if k == "str":
        return a == ["str", text(v["v"])]
    if k == "arr":
        return a[0] == "arr" and len(a[1]) == len(v["v"]) and all(same(x, y) for x, y in zip(v["v"], a[1]))
    return a[0] == "map" and len(a[1]) == len(v["v"]) and all(y[0] == text(x["n"]) and same(x["v"], y[1]) for x, y in zip(v["v"], a[1]))


def is_nan(h):
    x = struct.unpack(">d", bytes.fromhex(h))[0]
    return x != x


def may_refuse(v):
    if v["k"] == "num":
        return "refused" in number(v)
    if v["k"] == "arr":
        return any(may_refuse(x) for x in v["v"])
    if v["k"] == "obj":
        return any(may_refuse(x["v"]) for x in v["v"])
    return False


def text(codes):
    return "".join(map(chr, codes))


def judge(c, a):
    s = text(c["t"])
    if "ok" not in a and "err" not in a:
        return "%r: %s" % (s, str(a)[:300])
    if "v" not in c:
        return None if "err" in a else "%r is no JSON5 text but is read as %s" % (s, str(a["ok"])[:300])
    if "err" in a:
        return None if may_refuse(c["v"]) else "%r is refused: %s" % (s, str(a["err"])[-200:])
    return None if same(c["v"], a["ok"]) else "%r is read as %s, its value is %s" % (s, str(a["ok"])[:300], json.dumps(c["v"])[:300])


# beginning, alphabet, end, length (quick, thorough)
ENUM = [
    ("", "019.eE+-xXaF", "", 4, 5),
    ("[", "01.e-,+ ]", "]", 4, 5),
    ("", "INafinty+-", "", 2, 3),
    ('"', "\\ux0Dd8n\"1\n", '"', 4, 5),
    ("'", "\\'\"\r\nbfvz09", "'", 4, 4),
    ('"\\u', "09afgGD\\u\"", '"', 5, 5),
    ('"\\uD83D', "\\uDE0\n", '"', 6, 7),
    ("", "/*1\n 2\u2028", "", 5, 6),
    ("[1", "/*\n,1]\u2029", "]", 5, 6),
    ("", "[],1 {", "", 5, 6),
    ("{", "a:1,}\"?!", "}", 5, 6),
    ("{a", "!?:1 b\\u", ":1}", 4, 4),
    ("{", "a@$_0-\u00e9\u01c5\u02b0\u3042\u2167\U00010900\u0301\u0903\u0660\u203f\u200c\u200d^`\u00a8\u00b2\u00b7\\#\x00", ":1}", 2, 3),
    ("{\\u00", "46015f\\u", ":1}", 4, 5),
    ("{\"", "\\'\"an\nu0", "\":1}", 3, 4),
    ("1", "\t\n\x0b\x0c\r \u00a0\u1680\u2000\u2003\u200a\u2028\u2029\u202f\u205f\u3000\ufeff\u0085\u180e\u200b\u2060\x00\x1c\x1f\x7f", "", 1, 2),
    ("\"", "\t\n\x0b\x0c\r \u00a0\u1680\u2028\u2029\u3000\ufeff\u0085\u180e\u200b\x00\x08\x1c\x1f\x7f\ufffd\U0001f600\U0010ffff\u00e9\\", "\"", 2, 2),
]
WORDS = ["null", "true", "false", "undefined", "Infinity", "NaN", "-Infinity", "+NaN", "0x1F", "[null,true]", "{true:false}"]


def mc_module(frames):
    def seq(s):
        return "<<%s>>" % ", ".join(str(ord(c)) for c in s)
    return "EXTENDS Json5MC\nMcFrames == <<\n%s>>" % ",\n".join(
        "[b |-> %s, al |-> {%s}, a |-> %s, n |-> %d]" % (seq(b), ", ".join(str(ord(c)) for c in sorted(set(al))), seq(a), n) for b, al, a, n in frames)


def j04(ctx):
    q = ctx.quick
    jobs = []
    frames = [(b, al, a, lq if q else lt) for b, al, a, lq, lt in ENUM]
    # every word with one character more, less or different
    for w in WORDS:
        for i in range(len(w) + 1):
            frames.append((w[:i], "ntule1NaI{}[ ", w[i:], 1))
            if i < len(w):
                frames.append((w[:i], "Nulfae0xX,:\n", w[i + 1:], 1))
    for k in range(2):
        jobs.append(("mc", lambda k=k: vp.Tlc(ctx, ctx.module("M", mc_module(frames[k::2])), MC_CFG, args=["-workers", "2"])))
    for k, (d, it, ch, bu, co, n) in enumerate([(3, 3, 4, 60, 15, 250), (1, 2, 8, 40, 30, 250), (5, 2, 2, 120, 15, 150), (0, 0, 12, 30, 40, 250)]):
        jobs.append(("gen", lambda k=k, d=d, it=it, ch=ch, bu=bu, co=co, n=n: vp.Tlc(ctx, "Json5Gen", GEN_CFG % ("FALSE", d, it, ch, bu, co), args=[
            "-simulate", "num=%d" % (n if q else n * 12), "-depth", "600", "-seed", str(ctx.seed * 10 + k), "-workers", "1"])))
    jobs.append(("der", lambda: vp.Tlc(ctx, "Json5Gen", GEN_CFG % ("TRUE", 1, 1, 1, 60, 0), args=["-workers", "2"])))
    cases = set()
    for kind, job in [(kind, start()) for kind, start in jobs]:
        collect(ctx, kind, job, cases)
    cases = sorted(cases)
    ctx.cov["texts_that_are_values"] = sum(1 for c in cases if b'\\"v\\"' in c)
    ctx.cov["texts_that_are_not"] = len(cases) - ctx.cov["texts_that_are_values"]
    random.Random(ctx.seed).shuffle(cases)

    def work(k):
        out, n = [], 0
        mine = cases[k::vp.NCPU]
        with vp.Drv() as drv:
            for i in range(0, len(mine), 200):
                part = [dec(x) for x in mine[i:i + 200]]
                for c, a in zip(part, drv([{"op": "json5", "s": text(c["t"])} for c in part])):
                    n += 1
                    bad = judge(c, a)
                    if bad:
                        out.append((bad, c))
                if len(out) > 5:
                    break
        return out, n
    found = []
    for out, n in vp.pfork(work, range(vp.NCPU)):
        ctx.add("traces_validated_against_impl", n)
        found += out
    for bad, c in sorted(found, key=lambda x: len(x[1]["t"])):
        if not ctx.enough:
            ctx.violation(bad, c)
    for c in cases[:4]:
        ctx.sample(dec(c))



# ---------------------------------------------------------------------- J03
SRC_CFG = """SPECIFICATION Spec
CONSTANTS Mode = "%s"
 Steps = %d
INVARIANTS Splitting Sound Fine%s
CHECK_DEADLOCK FALSE
"""


def read_source(ctx, drv, d, c, seed):
    """Reads one source with and without validation; what is wrong, or None."""
    values = srcs.Values(seed)
    files = srcs.Writer(values, seed).files(c["src"])
    srcs.write(d, files)
    ok = c["verdict"] == "ok"
    if ok:
        drv.ok({"op": "schema", "name": "s", "def": srcs.schema(c["src"])})
        want = srcs.expect(c["doc"], values)
    for v in (True, False):
        drv.ok({"op": "reset"})
        a = drv({"op": "src", "dir": d, "to": "a", "validation": v})
        if "ok" not in a and "err" not in a:
            return "reading %s source%s: %s" % (c["verdict"], "" if v else " without validation", str(a)[:200]), files
        if ok:
            if "err" in a:
                return "a well-formed source is refused%s: %s" % ("" if v else " without validation", str(a["err"])[-300:]), files
            g = drv({"op": "dump", "slot": "a", "schema": "s", "fl": 1})
            if g.get("ok") != want:
                return "a source is read with other values: %s" % (str(first_diff(want, g["ok"]))[:500] if "ok" in g else str(g)[:300]), files
        elif c["verdict"] == "bad" or (c["verdict"] == "invalid" and v):
            if "ok" in a:
                return "a malformed source is accepted%s" % ("" if v else " without validation"), files
    return None, None


def sources(ctx, invs="", nwalk=4):
    """Sources of SourceMC with their verdicts."""
    q = ctx.quick
    jobs = [vp.Tlc(ctx, "SourceMC", SRC_CFG % ("all", 1, invs), args=["-workers", "3"])]
    for k in range(nwalk):
        jobs.append(vp.Tlc(ctx, "SourceMC", SRC_CFG % ("walk", 15 if k % 2 else 40, invs), args=["-simulate", "num=%d" % ((16 if k % 2 else 6) * (1 if q else 20)), "-depth", "60", "-seed", str(ctx.seed * 10 + k), "-workers", "1"]))
    cases = set()
    for i, j in enumerate(jobs):
        r = j.wait().must_pass()
        cases.update(r.traces)
        if i == 0:
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        else:
            ctx.add("simulated_steps", r.generated)
    cases = sorted(cases)
    random.Random(ctx.seed).shuffle(cases)
    return cases


def j03(ctx):
    judge_all(ctx, sources(ctx), read_source)


# ---------------------------------------------------------------------- J01
def nans(x):
    """All NaNs are one value in text."""
    if isinstance(x, list):
        return [nans(y) for y in x]
    if isinstance(x, dict):
        return {k: nans(v) for k, v in x.items()}
    return "nan" if isinstance(x, str) and len(x) == 16 and x[:3] in ("7ff", "fff") and is_nan(x) else x


def marks(x):
    """Printed lists have no marks."""
    if isinstance(x, list):
        return [marks(y) for y in x]
    return x.replace("Undefiable M", "Normal M") if isinstance(x, str) else x


def round_trip(slot, d, valid):
    """The commands that print a document, read the text and print again."""
    return [{"op": "clone", "slot": slot, "to": "rt"}, {"op": "print", "slot": slot, "dir": d}, {"op": "src", "dir": d, "to": "rt", "validation": valid},
            {"op": "dump", "slot": "rt", "schema": "s", "fl": 1}, {"op": "print", "slot": "rt"},
            {"op": "decl", "slot": slot}, {"op": "decl", "slot": "rt"}]


def judge_trip(want, ans):
    ans = ans[1:]
    for what, a in zip(["printing", "reading the printed text", "the document read back", "printing again", "the declarations", "the declarations read back"], ans):
        if "ok" not in a:
            return "%s: %s" % (what, str(a)[-400:])
    df = first_diff(nans(want), nans(ans[2]["ok"]))
    if df:
        return "a printed document reads back with other values: %s: %s, but %s" % (df[0], json.dumps(df[1])[:300], json.dumps(df[2])[:300])
    if ans[3]["ok"] != ans[0]["ok"]:
        a, b = ans[0]["ok"], ans[3]["ok"]
        k = next(i for i in range(max(len(a), len(b))) if a[i:i + 1] != b[i:i + 1])
        return "the document read back prints differently: %r, %r" % (a[max(0, k - 100):k + 100], b[max(0, k - 100):k + 100])
    df = first_diff(*(marks(a["ok"]) for a in ans[4:6]))
    if df:
        return "a printed document reads back with other declarations: %s: %s, but %s" % (df[0], json.dumps(df[1])[:300], json.dumps(df[2])[:300])
    return None


def print_source(ctx, drv, d, c, seed):
    """Reads a well-formed source, prints the document and reads it back."""
    values = srcs.Values(seed)
    files = srcs.Writer(values, seed).files(c["src"])
    srcs.write(d, files)
    want = srcs.expect(c["doc"], values)
    drv.ok({"op": "schema", "name": "s", "def": srcs.schema(c["src"])})
    drv.ok({"op": "reset"})
    a = drv({"op": "src", "dir": d, "to": "a", "validation": True})
    if "ok" not in a:
        return None, None   # decided by J03
    srcs.write(d, {})
    for valid in (True, False):
        bad = judge_trip(want, drv(round_trip("a", d, valid)))
        if bad:
            return bad + ("" if valid else " (without validation)"), files
    return None, None


class PrintReplayer(docreplay.Replayer):
    """Prints the documents of an editing behaviour and reads them back."""

    def run(self, log, first, seed, judge, dump_all=True):
        if self.drv is None:
            self.start()
            self.pdir = self.ctx.scratch("print")
        rng = random.Random(seed)
        pool = docs.Pool(seed, self.s.sp)
        cmds, plan = [{"op": "clone", "slot": "base", "to": first}], []
        for k, e in enumerate(log):
            cmds.append(self.cmd(e, pool, rng))
            if "doc" in e and (k % 7 == 0 or k == len(log) - 1):
                plan.append((len(cmds), k, e["doc"]))
                cmds += round_trip(e["to"] if e["op"] == "clone" else e["slot"], self.pdir, False)
        try:
            ans = self.drv(cmds)
        except vp.DrvDied as ex:
            self.drv = None
            return ("crash", len(log) - 1, str(ex))
        for i, k, doc in plan:
            want = self.s.expect(doc, pool)
            # values given to members of the root become defaults, undefined lists empty ones
            want["p"] = {n: [v[0], True] for n, v in want["p"].items()}
            want["m"] = {n: v if v is not None else {"n": 0, "i": []} for n, v in want["m"].items()}
            bad = judge_trip(want, ans[i:i + 7])
            if bad:
                return ("print", k, bad)
        return None


def j01(ctx):
    q = 1 if ctx.quick else 8
    sim = lambda schema, feat, depth: dict(schema, **dict(docs.SIM_DEFAULTS, feat=feat, depth=depth, slots=["a", "b"], maxitems=5))
    plans = [(sim(docs.std_schema(), PRINT_EDIT, 50), 150 * q), (sim(docs.std_schema(True), PRINT_EDIT, 30), 60 * q), (sim(docs.flat_schema(), ["set", "mut"], 40), 100 * q),
             (sim(docs.ref_schema(), ["ref", "list", "clone"], 40), 60 * q), (sim(docs.nested_schema(), ["set", "list", "clone"], 40), 60 * q)]
    jobs = [docs.tlc_docs(ctx, cfg, False, seed=ctx.seed * 100 + k, num=n, workers=1) for k, (cfg, n) in enumerate(plans)]
    cases = [c for c in sources(ctx, " Printing", 3) if dec(c)["verdict"] == "ok"]
    judge_all(ctx, cases, print_source)
    for (cfg, n), j in zip(plans, jobs):
        r = j.wait().must_pass()
        ctx.add("simulated_steps", r.generated)
        if not ctx.enough:
            docreplay.replay_traces(ctx, cfg, r.traces, r.tags("FIRST")[0], None, cls=PrintReplayer)


# ---------------------------------------------------------------------- J02
DIR_CFG = """SPECIFICATION Spec
CONSTANTS Steps = %d
 Walk = %s
%s
CHECK_DEADLOCK FALSE
"""


def dir_files(c, seed):
    """The source files of one state of SourceDir, as a function of what the specification calls their contents."""
    values = srcs.Values(seed)
    for t, n in (("float", 3), ("int", 3), ("str", 3), ("bool", 2)):
        for k in range(1, n + 1):
            values.val(t, k)
    out = {}

    def put(name, key, text):
        out[name] = ("// %s\n" % key if c["dress"][key] else "") + text + ("" if key == "root" else "\n")
    r = c["src"]["root"]
    put("root.json5", "root", srcs.Writer(values, json.dumps(r, sort_keys=True) + str(c["dress"]["root"])).obj(r))
    for m in c["src"]["files"]:
        put(m["n"] + m["s"] + ".json5", m["n"], srcs.Writer(values, json.dumps(m, sort_keys=True) + str(c["dress"][m["n"]])).value(m["v"]))
    for n in c["hollow"]:
        if n[0] in "-^":
            t = out.pop("root.json5")
            if n[0] == "^":
                out["Root.json5"] = t
        else:
            out[n + ".json5"] = "" if n == "z" else "{ a: 1 }"
    return values, out


def read_dir(ctx, drv, d, c, seed, hashes):
    """Reads one source in every way; hashes: hash of the code -> that of the specification and back."""
    values, files = dir_files(c, str(ctx.seed))
    rng = random.Random(seed)
    valid = c["verdict"] == "ok"
    if c["verdict"] not in ("ok", "invalid") and not c["hollow"]:
        return "the specification calls this source %s" % c["verdict"], files
    here, there = os.path.join(d, "here"), os.path.join(d, rng.choice(["there", "far/away", "root.json5", "a b.json5"]))
    other = c["other"] if c["other"] else rng.sample(["notes.txt", "a.json", "root.json5.bak", "sub/root.json5", "sub/a.json5"], rng.choice([0, 0, 1, 5]))
    fill(here, files, [])
    fill(there, files, other)
    drv.ok({"op": "reset"})
    if valid:
        drv.ok({"op": "schema", "name": "s", "def": srcs.schema(c["src"])})
        want = srcs.expect(c["doc"], values)
    arc = os.path.join(d, "x.archive")
    a = drv({"op": "arc_dir", "dir": rng.choice([here, there])})
    if "ok" not in a:
        return "archiving a source: %s" % str(a)[:300], files
    with open(arc, "wb") as f:
        f.write(bytes.fromhex(a["ok"]))
    b = drv({"op": "arc_read", "hex": a["ok"], "step": rng.choice([1, 7, 100000])})
    if "ok" not in b:
        return "reading an archive: %s" % str(b)[:300], files
    got = {os.path.basename(n): bytes.fromhex(x) for n, x, _ in b["ok"]["files"]}
    if got != {n: t.encode("utf8") for n, t in files.items()}:
        return "an archive holds %s, the source is %s" % (str(got)[:300], str(files)[:300]), files
    ways = [("the directory", {"dir": here}), ("a copy elsewhere", {"dir": there}), ("a roundabout path", {"dir": os.path.join(here, "..", "here", "")}),
            ("the archive", {"arc": arc}), ("the archive of the archive", {"archex": b["ok"]["again"]})]
    key = json.dumps(sorted(json.dumps(x, sort_keys=True) for x in c["hash"]))
    first = None
    for name, w in ways:
        a = drv(dict(w, op="src", to=name, validation=valid))
        if c["hollow"]:
            if "err" not in a:
                return "%s (%s) is no source: %s" % (name, c["hollow"][0], str(a)[:300]), files
            continue
        if "ok" not in a:
            return "reading %s: %s" % (name, str(a)[-300:]), files
        first = first or a["ok"]
        if a["ok"] != first:
            return "%s has another hash than the directory: %s, %s" % (name, a["ok"], first), files
        if valid:
            g = drv({"op": "dump", "slot": name, "schema": "s", "fl": 1})
            if g.get("ok") != want:
                return "%s is read with other values: %s" % (name, str(first_diff(want, g["ok"]))[:500] if "ok" in g else str(g)[:300]), files
        if name == "the directory":
            continue
        e = drv({"op": "eq", "a": "the directory", "b": name})
        if e.get("ok") is not True:
            return "the document from %s is not equal to that from the directory: %s" % (name, e), files
    if valid and c["src"]["files"]:
        # the same source in one file
        one = os.path.join(d, "one")
        fill(one, {"root.json5": srcs.Writer(values, seed).obj(dict(c["src"]["root"], m=c["src"]["root"]["m"] + c["src"]["files"]))}, [])
        a = drv([{"op": "clone", "slot": "the directory", "to": "one"}, {"op": "src", "dir": one, "to": "one", "validation": True}, {"op": "eq", "a": "the directory", "b": "one"}, {"op": "dump", "slot": "one", "schema": "s", "fl": 1}])
        if "ok" not in a[1] or a[2].get("ok") is not True or a[3].get("ok") != want:
            return "the members in one file: %s" % str(a)[:400], files
    first = first or b["ok"]["hash"]
    if b["ok"]["hash"] != first:
        return "the archive has the hash %s, the directory %s" % (b["ok"]["hash"], first), files
    for x, y in ((("code", first), key), (("spec", key), first)):
        if hashes.setdefault(x, y) != y:
            return "hash %s: equal for different sources or different for equal ones: %s, %s" % (first, hashes[x][:300], y[:300]), files
    return None, None


def fill(d, files, other):
    """Makes d a directory with these source files and files that are none."""
    os.makedirs(d, exist_ok=True)
    sub = os.path.join(d, "sub")
    if os.path.isdir(sub):
        for n in os.listdir(sub):
            os.unlink(os.path.join(sub, n))
        os.rmdir(sub)
    srcs.write(d, files)
    for n in other:
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write("{ a: [\"Int\", 9] }" if "json" in n else "notes")


def j02(ctx):
    q = ctx.quick
    jobs = [vp.Tlc(ctx, "SourceDir", DIR_CFG % (0, "FALSE", "INVARIANTS SplitSame Emit"), args=["-workers", "2"]),
            vp.Tlc(ctx, "SourceDir", DIR_CFG % (1, "FALSE", "PROPERTY HashSteps"), args=["-workers", "4"])]
    jobs += [vp.Tlc(ctx, "SourceDir", DIR_CFG % (40, "TRUE", "INVARIANTS SplitSame Emit"), args=["-simulate", "num=%d" % (8 if q else 200), "-depth", "45", "-seed", str(ctx.seed), "-workers", "1"])]
    cases = set()
    for i, j in enumerate(jobs):
        r = j.wait().must_pass()
        if i < 2:
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        else:
            ctx.add("simulated_steps", r.generated)
        cases.update(r.traces)
    cases = sorted(cases)
    random.Random(ctx.seed).shuffle(cases)
    tables = {}
    judge_all(ctx, cases, lambda ctx, drv, d, c, seed: read_dir(ctx, drv, d, c, seed, tables), tables)
    # the hashes all workers saw, together
    seen = {}
    for t in ctx.tables:
        for x, y in t.items():
            if seen.setdefault(x, y) != y and not ctx.enough:
                ctx.violation("hash: equal for different sources or different for equal ones: %s: %s, %s" % (str(x)[:300], seen[x][:300], y[:300]), {"pair": [x, seen[x], y]})
    ctx.cov["distinct_hashes"] = sum(1 for x in seen if x[0] == "code")


PRINT_EDIT = ["set", "mut", "list", "ref", "clone"]


def judge_all(ctx, cases, fn, table=None):
    def work(k):
        out, n = [], {}
        d = ctx.scratch("src")
        drv = None
        for i in range(k, len(cases), vp.NCPU):
            c = dec(cases[i])
            n[c["verdict"]] = n.get(c["verdict"], 0) + 1
            seed = "%d %d" % (ctx.seed, i)
            drv = drv or vp.Drv()
            try:
                bad, files = fn(ctx, drv, d, c, seed)
            except vp.DrvDied as e:
                bad, files, drv = "the process died: %s" % e, None, None
            if bad:
                out.append((bad, {"case": c, "seed": seed, "files": files}))
                if len(out) > 8:
                    break
        if drv:
            drv.close()
        return out, n, table
    found = []
    ctx.tables = []
    for out, n, t in vp.pfork(work, range(vp.NCPU)):
        ctx.tables.append(t)
        for v, x in n.items():
            ctx.add("traces_validated_against_impl", x)
            ctx.add("sources_" + v, x)
        found += out
    found.sort(key=lambda x: len(json.dumps(x[1]["case"]["src"])))
    seen = {}
    for bad, data in found:
        key = bad[:60]
        seen[key] = seen.get(key, 0) + 1
        if not ctx.enough and seen[key] <= 3:
            ctx.violation(bad, data)
    for c in cases[:3]:
        ctx.sample(dec(c))


def dec(raw):
    return json.loads(json.loads(raw.decode("utf8"))[6:])


def collect(ctx, kind, job, cases):
    r = job.wait().must_pass()
    if kind == "gen":
        ctx.add("simulated_steps", r.generated)
    else:
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
    cases.update(r.traces)


CHECKS = {"J01": (j01, "model_checking"), "J02": (j02, "model_checking"), "J03": (j03, "model_checking"), "J04": (j04, "model_checking")}


def replay(ctx, d):
    bad = None
    if "log" in d:
        rp = PrintReplayer(ctx, d["cfg"], d["salt"])
        bad = rp.run(d["log"], d["first"], d["seed"], None)
        rp.close()
        ctx.add("traces_validated_against_impl", 1)
        if bad:
            ctx.violation("%s at step %d: %s" % bad, d)
        return
    with vp.Drv() as drv:
        try:
            if "case" in d:
                fn = {"J01": print_source, "J02": lambda *a: read_dir(*a, {})}.get(ctx.pid, read_source)
                bad, _ = fn(ctx, drv, ctx.scratch("src"), d["case"], d["seed"])
            elif "pair" in d:
                bad = None
            else:
                bad = judge(d, drv({"op": "json5", "s": text(d["t"])}))
        except vp.DrvDied as e:
            bad = "the process died: %s" % e
    ctx.add("traces_validated_against_impl", 1)
    if bad:
        ctx.violation(bad, d)
