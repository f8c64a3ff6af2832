"""S04 and S06: the binary value encoding and the text encodings."""
import random
import vp
from docs import f2h, FLOATS, INTS, STRS

KCFG = """SPECIFICATION %s
CONSTANTS MaxLen = %d
 PoolName = "%s"
 Emit = "%s"
INVARIANTS RoundTrip PrefixFails Compact
CHECK_DEADLOCK FALSE
"""


def kv(v):
    """A value of the specification in the driver's form."""
    k = v["k"]
    if k == "Null":
        return [k]
    if k in ("Bit", "Bool", "Undefined"):
        return [k, v["v"]]
    if k == "Byte":
        return [k, v["v"] - 256 if v["v"] > 127 else v["v"]]
    if k in ("Int", "Decimal"):
        m = sum(b << (8 * i) for i, b in enumerate(v["m"]))
        n = -m - 1 if v["neg"] else m
        return [k, n] if k == "Int" else [k, n, v["dot"]]
    b = bytes(v["b"])
    if k in ("Str16", "Str256", "BigStr"):
        return [k, b.decode("utf8")]
    if k in ("Binary", "Float", "Double"):
        return [k, b.hex()]
    w = int(k[6:])
    return [k, [int.from_bytes(b[i:i + w], "little") for i in range(0, len(b), w)]]


def kval_case(drv, c, prefixes=True):
    vals = [kv(v) for v in c["v"]]
    want = bytes(c["b"]).hex()
    n = len(c["b"])
    cmds = [{"op": "enc", "v": vals}, {"op": "dec", "hex": want + "ff00"}, {"op": "dec", "hex": want, "step": 1},
            {"op": "dec_slice", "hex": want + "00"}]
    if any(v[0] == "Binary" for v in vals):
        cmds.append({"op": "enc", "v": [["BinaryArc"] + v[1:] if v[0] == "Binary" else v for v in vals]})
    if prefixes and n < 3000:
        cmds += [{"op": "prefixes", "kind": "kvals", "hex": want}]
    elif prefixes:
        cmds += [{"op": "prefixes", "kind": "kvals", "hex": want, "at": [0, 1, 2, 3, 4, 5, 6, 7, 8, n // 2, n - 2, n - 1]}]
    for cmd, a in zip(cmds, drv(cmds)):
        if "ok" not in a:
            return "%s of %s: %s" % (cmd["op"], str(vals)[:300], str(a)[:300])
        r = a["ok"]
        if cmd["op"] == "enc":
            if r["hex"] != want or r["hex2"] != want or r["n"] != n:
                return "%s encodes to %s, the format says %s" % (str(vals)[:200], r["hex"][:200], want[:200])
        elif cmd["op"] == "prefixes":
            if r:
                return "%s: the first %d of %d bytes: %s" % (str(vals)[:200], r[0][0], n, r[0][1])
        elif r["v"] != vals or r["n"] != n or r.get("pos", n) != n:
            return "%s decodes to %s using %s of %d bytes" % (str(vals)[:300], str(r["v"])[:300], r.get("pos", r["n"]), n)
    return None


def comp_cases(rng, quick):
    out = [("int", i) for i in INTS + [0]] + [("double", f) for f in FLOATS + [f2h(0.0)]] + [("str", x) for x in STRS + [""]]
    out += [("int", s * (1 << k) + d) for k in range(63) for s in (1, -1) for d in (-1, 0, 1)]
    out += [("double", f2h(float(s * (1 << k) + d))) for k in range(70) for s in (1, -1) for d in (-1, 0, 1)]
    out += [("double", f2h(float(s * (1 << k)) + d)) for k in range(52) for s in (1, -1) for d in (.5, -.5)]
    out += [("double", f2h(float(10 ** k))) for k in range(300)] + [("double", f2h(2.0 ** -k)) for k in range(1070)]
    out += [("float", "%08x" % x) for x in (0, 0x80000000, 0x3f800000, 0x7f800000, 0xff800000, 0x7fc00000, 1, 0x4f000000, 0xcf000000, 0x4effffff, 0x4b800000)]
    out += [("float", "%08x" % rng.getrandbits(32)) for _ in range(500 if quick else 20000)]
    out += [("double", "%016x" % rng.getrandbits(64)) for _ in range(500 if quick else 20000)]
    out += [("str", "é" * n) for n in range(0, 140)] + [("str", "z" * n) for n in range(0, 300)]
    return out


def comp_bad(drv, cases):
    a = drv([{"op": "comp", "t": t, "v": v} for t, v in cases])
    return [(t, v, x) for (t, v), x in zip(cases, a) if x != {"ok": v}]


def s04(ctx):
    q = ctx.quick
    runs = [("Spec", 2 if q else 3, "small", "every"), ("Spec", 1, "all", "every"), ("Spec", 1, "big", "every"),
            ("RSpec", 40, "all", "last"), ("RSpec", 300, "small", "last")]
    if q:
        runs.append(("Spec", 3, "small", "none"))
    else:
        runs += [("Spec", 2, "all", "every"), ("RSpec", 7, "all", "last")]
    jobs = []
    for k, (sp, ml, pool, emit) in enumerate(runs):
        cfg = KCFG % (sp, ml, pool, emit)
        if sp == "RSpec":
            cfg = cfg.replace("INVARIANTS RoundTrip PrefixFails Compact\n", "" if ml > 50 else "INVARIANTS RoundTrip\n")
        args = ["-workers", "2"] if sp == "Spec" else ["-simulate", "num=%d" % ((150 if ml < 50 else 15) * (1 if q else 10)), "-depth", str(ml + 2),
                                                       "-seed", str(ctx.seed * 10 + k), "-workers", "1"]
        jobs.append(vp.Tlc(ctx, "KVal", cfg, args=args, heap="3g"))
    cases = []
    for (sp, ml, pool, emit), j in zip(runs, jobs):
        r = j.wait().must_pass()
        if sp == "Spec":
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        else:
            ctx.add("simulated_steps", r.generated)
        t = sorted(set(r.traces))
        if emit != "none" and not t:
            raise vp.ToolError("no sequences from TLC")
        cases += t
    ctx.cov["sequences"] = len(cases)
    s = r.decode(cases[0])
    ctx.sample({"v": s["v"], "bytes": bytes(s["b"]).hex()})

    def work(k):
        out, n = [], 0
        with vp.Drv() as drv:
            for t in cases[k::vp.NCPU]:
                c = r.decode(t)
                n += 1
                try:
                    bad = kval_case(drv, c)
                except vp.DrvDied as ex:
                    return out + [(str(ex), c)], n
                if bad:
                    out.append((bad, c))
                    if len(out) > 1:
                        break
        return out, n
    for out, n in vp.pfork(work, range(vp.NCPU)):
        ctx.add("traces_validated_against_impl", n)
        for bad, c in out:
            if not ctx.enough:
                ctx.violation(bad, {"kval": c})
    cc = comp_cases(random.Random(ctx.seed), q)
    ctx.cov["compact_values"] = len(cc)
    with vp.Drv() as drv:
        for t, v, x in comp_bad(drv, cc)[:2]:
            ctx.violation("%s %s in its compact form comes back as %s" % (t, v, x), {"comp": [t, v]})


# ---------------------------------------------------------------------------------------
BYTES = "{%s}" % ", ".join(str(i) for i in range(256))
TCFG = """SPECIFICATION %s
CONSTANTS Kind = "%s"
 Alphabet = %s
 MaxLen = %d
 Emit = "%s"
INVARIANTS UrlExact NumberExact OnlyCanonical
CHECK_DEADLOCK FALSE
"""
CHARS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
# characters of the model that stand for several real ones
STAND = {"a": ["a", "é", "e", " ", "+", ",", "\n", "１", ":", "漢", "x", "/", "٠", "_"], "9": list("23456789")}


def url_case(drv, s, x):
    h = bytes(s).hex()
    want = "".join(CHARS[i] for i in x)
    e, d = drv([{"op": "url_enc", "hex": h}, {"op": "url_dec", "s": want}])
    if e != {"ok": want}:
        return "bytes %s become %s, expected %s" % (h, e, want)
    if d != {"ok": h}:
        return "%s (from %s) becomes bytes %s" % (want, h, d)
    return None


def str_cases(drv, strs):
    """Strings that do not come back, from one list."""
    a = drv({"op": "str_comp", "v": strs})
    if "ok" not in a:
        return "compressing %s: %s" % (str(strs[:5])[:300], a)
    b = drv({"op": "str_decomp", "hex": a["ok"]["hex"] + "00"})
    for got in (a["ok"]["back"], b.get("ok", {}).get("v")):
        if got != strs:
            i = next((i for i, (x, y) in enumerate(zip(strs, got or [])) if x != y), None)
            return "string %r comes back as %r" % (strs[i], got[i]) if i is not None else "list of %d strings: %s" % (len(strs), str(b)[:300])
    if b["ok"]["n"] * 2 != len(a["ok"]["hex"]):
        return "%d bytes read of %d" % (b["ok"]["n"], len(a["ok"]["hex"]) // 2)
    return None


def concrete(chars, rng):
    return "".join(rng.choice(STAND.get(c, [c])) if rng.random() < .6 else c for c in chars)


def long_numbers(rng):
    out = []
    for sign in ("", "-"):
        for base in (2**127 - 1, 2**127, 2**127 + 1, 2**63 - 1, 2**63, 2**63 + 1, 2**64, 10**38, 10**39, 10**40, 127, 128, 129, 255, 256, 32768):
            d = str(base)
            out += [sign + d, sign + "0" + d, sign + d + ".", sign + "." + d]
            for k in range(1, len(d) + 3):
                out.append(sign + (d[:-k] + "." + d[-k:] if k < len(d) else "0." + "0" * (k - len(d)) + d))
        for k in (1, 15, 16, 17, 200, 253, 254, 255, 256, 257, 300):
            out += [sign + "0." + "0" * k, sign + "0." + "0" * (k - 1) + "1", sign + "1." + "0" * k, sign + "9" * k]
    out += ["1e5", "1E5", "0x10", "NaN", "inf", "Infinity", "+1", "--1", "-", "", ".", "-.", "null", "true", "false", "True", "undefined", "undefined0", "[1, 2]",
            "2022-05-20", "12:30", "1,000", "１２", "1_000", "1 2", "1\n", "\n1", "1\u00002"]
    out += ["x" * n for n in (14, 15, 16, 17, 254, 255, 256, 257, 40000)] + ["é" * n for n in (7, 8, 127, 128)]
    return out


def s06(ctx):
    q = ctx.quick
    ub = "{0, 1, 63, 64, 127, 128, 170, 255}"
    runs = [("url", "Spec", ub, 4 if q else 5, "every"), ("url", "RSpec", BYTES, 9, "last"), ("url", "RSpec", BYTES, 41, "last"), ("url", "RSpec", BYTES, 100, "last"),
            ("str", "Spec", '{"-", "0", "1", ".", "a"}', 6 if q else 7, "every"), ("str", "RSpec", '{"0", "1", "9", "."}', 9, "last"),
            ("str", "RSpec", '{"0", "1", "9", "-", ".", "a"}', 12, "last")]
    jobs = []
    for k, (kind, sp, al, ml, emit) in enumerate(runs):
        cfg = TCFG % (sp, kind, al, ml, emit)
        args = ["-workers", "2"] if sp == "Spec" else ["-simulate", "num=%d" % (300 if q else 4000), "-depth", str(ml + 2), "-seed", str(ctx.seed * 10 + k), "-workers", "1"]
        jobs.append(vp.Tlc(ctx, "Text", cfg, args=args))
    urls, strs = [], []
    for (kind, sp, al, ml, emit), j in zip(runs, jobs):
        r = j.wait().must_pass()
        if sp == "Spec":
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        else:
            ctx.add("simulated_steps", r.generated)
        (urls if kind == "url" else strs).extend(sorted(set(r.traces)))
    ctx.sample(r.decode(strs[len(strs) // 2]))
    ctx.sample(r.decode(urls[len(urls) // 2]))
    ctx.cov["byte_strings"], ctx.cov["strings"] = len(urls), len(strs)

    def work(k):
        out, n = [], 0
        rng = random.Random(ctx.seed * 1000 + k)
        with vp.Drv() as drv:
            for t in urls[k::vp.NCPU]:
                c = r.decode(t)
                n += 1
                bad = url_case(drv, c["s"], c["x"])
                if bad:
                    out.append((bad, {"url": c}))
                    break
            mine = [x for t in strs[k::vp.NCPU] for c in [r.decode(t)["s"]] for x in ("".join(c), concrete(c, rng))]
            if k == 0:
                mine = long_numbers(rng) + mine
            pos = 0
            while pos < len(mine):
                m = rng.choice([1, 2, 5, 30, 200])
                part = mine[pos:pos + m]
                pos += m
                n += 1
                bad = str_cases(drv, part)
                if bad:
                    one = next((x for x in part if str_cases(drv, [x])), None)
                    out.append((bad, {"strs": part if one is None else [one]}))
                    if len(out) > 2:
                        break
        return out, n
    for out, n in vp.pfork(work, range(vp.NCPU)):
        ctx.add("traces_validated_against_impl", n)
        for bad, c in out:
            if not ctx.enough:
                ctx.violation(bad, c)
    # characters that are not part of the alphabet are refused
    with vp.Drv() as drv:
        for ch in [chr(i) for i in range(128)] + ["é", "漢", "İ", "Ａ"]:
            if ch in CHARS:
                continue
            for s in (ch, "AA" + ch, ch + "AAAA"):
                a = drv({"op": "url_dec", "s": s})
                ctx.add("refused_texts")
                if a != {"ok": None} and not ctx.enough:
                    ctx.violation("the text %r is accepted: %s" % (s, a), {"urlbad": s})


CHECKS = {"S04": (s04, "model_checking"), "S06": (s06, "model_checking")}


def replay(ctx, d):
    with vp.Drv() as drv:
        if "kval" in d:
            bad = kval_case(drv, d["kval"])
        elif "comp" in d:
            bad = str(comp_bad(drv, [d["comp"]]) or "")
        elif "url" in d:
            bad = url_case(drv, d["url"]["s"], d["url"]["x"])
        elif "strs" in d:
            bad = str_cases(drv, d["strs"])
        else:
            a = drv({"op": "url_dec", "s": d["urlbad"]})
            bad = None if a == {"ok": None} else str(a)
    ctx.add("traces_validated_against_impl", 1)
    if bad:
        ctx.violation(bad, d)
