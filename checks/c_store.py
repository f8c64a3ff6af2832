"""S01-S06: differences, chains of differences, member tables, value encoding."""
import json, os
import vp, docs, docreplay, savereplay, c_codec, c_trunc
from c_doc import sim, short, any_judge
import concurrent.futures


def run_docs(ctx, plans):
    def one(k):
        cfg, mode, num = plans[k]
        if mode == "check":
            return docs.tlc_check(ctx, cfg, module="DocSaveMC").wait().must_pass()
        return docs.tlc_docs(ctx, cfg, mode, seed=ctx.seed * 100 + k, num=num, module="DocSaveMC", workers=2).wait().must_pass()
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = [ex.submit(one, k) for k in range(len(plans))]
        for (cfg, mode, num), f in zip(plans, futs):
            r = f.result()
            if os.environ.get("VP_TIME"):
                print("tlc", mode, num, len(r.traces), r.distinct, round(__import__("time").time() - ctx.t0, 1))
            if mode is False:
                ctx.add("simulated_steps", r.generated)
            else:
                ctx.add("states", r.distinct)
                ctx.add("transitions", r.generated)
            if mode == "check":
                continue
            traces = sorted(set(r.traces)) if mode else r.traces
            if not traces:
                raise vp.ToolError("no behaviours from TLC")
            ctx.sample(short(r.decode(traces[len(traces) // 2])))
            docreplay.replay_traces(ctx, cfg, traces, r.tags("FIRST")[0], any_judge, cls=savereplay.SaveReplayer)
            if ctx.enough:
                return


EDIT = ["set", "mut", "list", "ref", "clone"]


def s01(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        (sim(docs.tiny_schema(2), ["list"], slots=["a"], toks=[1], maxitems=3, maxid=4), "check", 0),
        (sim(docs.ref_schema(), ["ref"], slots=["a"]), "check", 0),
        (sim(docs.tiny_schema(2), ["list"], depth=3, slots=["a"], toks=[1], maxitems=3, maxid=4), True, 0),
        (sim(docs.mark_schema(), ["set", "ref"], depth=4, slots=["a"], toks=[1], maxitems=1, maxid=2), True, 0),
        (sim(docs.std_schema(), EDIT, depth=40, slots=["a", "b"], maxitems=5), False, 150 * q),
        (sim(docs.std_schema(True), EDIT, depth=40, slots=["a"], maxitems=4), False, 100 * q),
        (sim(docs.flat_schema(), ["set", "mut"], depth=50, slots=["a"]), False, 80 * q),
        (sim(docs.few_schema(), ["set", "mut"], depth=40, slots=["a"]), False, 150 * q),
        (sim(docs.ref_schema(), ["ref", "list", "clone"], depth=40, slots=["a", "b"], maxitems=4), False, 100 * q)]
    run_docs(ctx, plans)


def s02(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        (sim(docs.tiny_schema(1), ["list", "set"], slots=["a"], toks=[1], maxitems=2, maxid=3), "check", 0),
        (sim(docs.nested_schema(), ["list"] if ctx.quick else ["set", "list"], depth=3, slots=["a"], toks=[1], maxitems=1, maxid=2), True, 0),
        (sim(docs.std_schema(), EDIT, depth=60, slots=["a", "b"], maxitems=4), False, 150 * q),
        (sim(docs.std_schema(True), EDIT, depth=60, slots=["a", "b"], maxitems=4), False, 100 * q),
        (sim(docs.tiny_schema(4), ["list"], depth=60, slots=["a"], maxitems=6, maxid=40), False, 100 * q)]
    run_docs(ctx, plans)


CHECKS = {"S01": (s01, "model_checking"), "S02": (s02, "model_checking")}


def replay(ctx, rec):
    d = rec["data"]
    if ctx.pid == "S05":
        return c_trunc.replay(ctx, d)
    if ctx.pid in c_codec.CHECKS:
        return c_codec.replay(ctx, d)
    if ctx.pid == "S03" and "case" in d:
        drv, names = wide_setup(ctx, d["size"], d["nref"])
        bad = wide_case(drv, d["where"], names[d["where"]], d["case"], "w")
        ctx.add("traces_validated_against_impl", 1)
        if bad:
            ctx.violation(bad, d)
        return
    if ctx.pid in ("S01", "S02", "S03"):
        rp = (ShiftReplayer if "idoff" in d["cfg"] else savereplay.SaveReplayer)(ctx, d["cfg"], d["salt"])
        r = rp.run(d["log"], d["first"], d["seed"], any_judge)
        rp.close()
        ctx.add("traces_validated_against_impl", 1)
        if r:
            ctx.violation("%s at step %d: %s" % r, d)


# ---------------------------------------------------------------------------------------
# S03

STORE_CFG = """SPECIFICATION Spec
CONSTANTS W = %d
 T1 = %d
 T2 = %d
 N = %d
 Mode = "%s"
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
"""


def wide_source(n, nref):
    """n members at the root and n in every item of one list, every seventh an (inner) list; nref references."""
    out, P, L = [], [], []
    types = ["int", "str", "bool", "float", "ia"]
    lits = {"int": "5", "str": '"x"', "bool": "false", "float": "1.5", "ia": '["IntArray", 1]'}
    suf = ["", "?", "!", "!?"]
    mem = []
    for k in range(n):
        if k % 7 == 3:
            mem.append(("l%d" % k, "list", ""))
        else:
            mem.append(("m%d" % k, types[k % 5], suf[(k // 5) % 4]))
    root = []
    for nm, t, sf in mem:
        root.append('"%s%s": %s' % (nm, sf, lits[t] if t != "list" else '["MList", [{ q: 1 }], { q: 4 }, {}]'))
    item = []
    for nm, t, sf in mem:
        item.append('"i%s%s": %s' % (nm, sf, lits[t] if t != "list" else '["MilDef", [{ w: 1 }]]'))
    item.append("Ref: { %s }" % ", ".join('"t%d%s": "x"' % (k, suf[k % 4]) for k in range(nref)))
    root += ['t%d: ["Table", [{ v: 1 }], { ID: "x" }, { ID: "y" }]' % k for k in range(nref)]
    root.append('zz: ["MList", [{ %s }], {}, {}]' % ", ".join(item))
    sch = {"p": [[m, t] for m, t, _ in mem if t != "list"],
           "m": [[m, {"p": [["q", "int"]], "m": [], "r": [], "e": False}] for m, t, _ in mem if t == "list"]
           + [["zz", {"p": [["i" + m, t] for m, t, _ in mem if t != "list"],
                      "m": [["i" + m, {"p": [["w", "int"]], "m": [], "r": [], "e": False}] for m, t, _ in mem if t == "list"],
                      "r": ["t%d" % k for k in range(nref)], "e": False}]], "c": [], "t": []}
    return "{\n" + ",\n".join(root) + "\n}\n", mem, sch


NEWV = {"int": 70000, "str": "changed", "bool": True, "float": docs.f2h(-2.25), "ia": [9, -9]}


def wide_change(where, name, t, slot="b"):
    path = [] if where == "root" else ["zz", 1]
    if t == "list":
        return {"op": "list", "slot": slot, "path": path + [name], "what": "insert_first", "id": 0, "other": 0}
    if t == "ref":
        return {"op": "ref", "slot": slot, "path": path, "what": "set", "name": name, "v": ["v", "y"]}
    return {"op": "set", "slot": slot, "path": path, "name": name, "t": t, "v": ["v", NEWV[t]], "how": "sabun"}


def wide_read(where, name, t, dump):
    d = dump if where == "root" else [i for i in dump["m"]["zz"]["i"] if i[0] == 1][0][1]
    if t == "list":
        l = d["m"][name]
        return (l["n"], [x[0] for x in l["i"]]) == ((3, [2, 0, 1]) if where == "root" else (1, [0]))
    if t == "ref":
        return d["r"][name] == ["v", "y"]
    return d["p"][name] == [["v", NEWV[t]], False]


def wide_case(drv, where, names, case, schema):
    """One changed set: returns None or what is wrong."""
    chosen = [names[k] for k in case if k < len(names)]
    cmds = [{"op": "clone", "slot": "base", "to": "b"}] + [wide_change(where, m, t) for m, t in chosen]
    n = len(cmds)
    cmds += [{"op": "diff", "a": "base", "b": "b", "as": "x"}, {"op": "clone", "slot": "base", "to": "r"},
             {"op": "apply", "slot": "r", "var": "x"}, {"op": "clone", "slot": "base", "to": "p"},
             {"op": "apply", "slot": "p", "var": "x", "prep": True},
             {"op": "dump", "slot": "b", "schema": schema, "fl": 1}, {"op": "dump", "slot": "r", "schema": schema, "fl": 1},
             {"op": "dump", "slot": "p", "schema": schema, "fl": 1}]
    ans = drv(cmds)
    for c, a in zip(cmds, ans):
        if "ok" not in a:
            return "%s -> %s" % (json.dumps(c)[:300], json.dumps(a)[:500])
    b, r, p = [a["ok"] for a in ans[-3:]]
    d = docs.first_diff(b, r) or docs.first_diff(b, p)
    if d:
        return "%s: original %s, restored %s" % (d[0], json.dumps(d[1])[:200], json.dumps(d[2])[:200])
    for m, t in chosen:
        if not wide_read(where, m, t, r):
            return "member %s was not changed" % m
    return None


def wide_setup(ctx, n, nref):
    text, mem, sch = wide_source(n, nref)
    d = ctx.scratch("wide")
    open(d + "/root.json5", "w").write(text)
    drv = vp.Drv()
    drv.ok({"op": "src", "dir": d, "to": "base", "validation": True})
    drv.ok({"op": "schema", "name": "w", "def": sch})
    kinds = dict((m, t) for m, t, _ in mem)
    root = drv.ok({"op": "meta", "slot": "base"})
    it, rf = drv.ok({"op": "meta", "slot": "base", "list": "zz"})
    names = {"root": [(m, kinds[m]) for m in root if m in kinds], "item": [(m, kinds[m[1:]]) for m in it], "ref": [(m, "ref") for m in rf]}
    return drv, names


def shift_ids(x, off):
    """The same behaviour with every id renamed id -> off + id (one root list)."""
    path = lambda p: [p[0]] + [off + y for y in p[1:]]
    if "op" in x:
        y = dict(x)
        for k in ("id", "other"):
            if k in y:
                y[k] = y[k] + off
        if "path" in y:
            y["path"] = path(y["path"]) if y["path"] else []
        y.pop("views", None)
        if "doc" in y:
            y["doc"] = shift_ids(y["doc"], off)
        return y
    return {"p": x["p"], "L": [[p, d, n + off, [i + off for i in ids]] for p, d, n, ids in x["L"]],
            "I": [[path(p), a, b] for p, a, b in x["I"]]}


OFFSETS = [2**7 - 3, 2**8 - 3, 2**15 - 3, 2**16 - 3, 2**31 - 3, 2**32 - 3, 2**40 - 3, 2**48 - 3, 2**53 - 3, 2**62]


class ShiftReplayer(savereplay.SaveReplayer):
    def __init__(self, ctx, cfg, salt=0):
        self.off = cfg["idoff"]
        super().__init__(ctx, dict(cfg, src=shift_ids(cfg["src"], self.off)), salt)

    def run(self, log, first, seed, judge, cuts=True):
        return super().run([shift_ids(e, self.off) for e in log], first, seed, judge)


def s03(ctx):
    q = ctx.quick
    # the stored form on the model: every subset, scaled-down words
    jobs = [vp.Tlc(ctx, "StoreIds", STORE_CFG % (w, t1, t2, n, "all"), args=["-workers", "2"]) for w, t1, t2, n in
            ([(4, 2, 3, 11), (5, 3, 4, 12)] if q else [(4, 2, 3, 14), (5, 3, 4, 15), (3, 2, 2, 13)])]
    n = 290 if q else 700
    gen = vp.Tlc(ctx, "StoreIds", STORE_CFG % (64, 11, 24, n, "cases"), args=["-workers", "2"])
    idcfg = sim(docs.tiny_schema(2), ["list", "set"], depth=25, slots=["a"], maxitems=5, maxid=12)
    idrun = docs.tlc_docs(ctx, idcfg, False, seed=ctx.seed, num=120 if q else 400, module="DocSaveMC")
    for j in jobs:
        r = j.wait().must_pass()
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
    r = gen.wait().must_pass()
    cases = [r.decode(t) for t in sorted(set(r.traces))]
    ctx.add("states", r.distinct)
    for c in cases[::max(1, len(cases) // 4)]:
        ctx.sample(c, 4)
    sizes = [(n, 70 if q else 150)] + [(k, 4) for k in ((1, 2, 8, 12, 63, 64, 65, 130) if q else list(range(1, 140, 3)) + [64, 65, 128, 129])]
    if not q:
        sizes.append((1500, 10))
    forms = {}
    for c in cases:
        forms[c["f"]] = forms.get(c["f"], 0) + 1
    ctx.cov["forms"] = forms

    def work(k):
        out, cnt = [], 0
        for si, (size, nref) in enumerate(sizes):
            drv, names = wide_setup(ctx, size, nref)
            for where in ("root", "item", "ref"):
                lim = len(names[where])
                sel = [c["s"] for c in cases if c["s"][-1] < lim]
                if si and len(sel) > 60:
                    sel = sel[si % 5::max(1, len(sel) // 60)]
                for c in sel[k::vp.NCPU]:
                    try:
                        bad = wide_case(drv, where, names[where], c, "w")
                    except vp.DrvDied as ex:
                        bad = str(ex)
                        drv, names = wide_setup(ctx, size, nref)
                    cnt += 1
                    if bad:
                        out.append((bad, {"size": size, "nref": nref, "where": where, "case": c}))
                        if len(out) >= 2:
                            drv.close()
                            return out, cnt
            drv.close()
        return out, cnt
    for out, cnt in vp.pfork(work, range(vp.NCPU)):
        ctx.add("traces_validated_against_impl", cnt)
        for bad, d in out:
            if not ctx.enough:
                ctx.violation("changed members %s of %d in %s: %s" % (d["case"][:20], d["size"], d["where"], bad), d)
    # ids of any size
    r = idrun.wait().must_pass()
    ctx.add("simulated_steps", r.generated)
    for k, off in enumerate(OFFSETS):
        if ctx.enough:
            break
        docreplay.replay_traces(ctx, dict(idcfg, idoff=off), r.traces[k::len(OFFSETS)] if q else r.traces, r.tags("FIRST")[0], any_judge, cls=ShiftReplayer, nproc=4)


CHECKS["S03"] = (s03, "model_checking")
CHECKS.update(c_codec.CHECKS)
CHECKS.update(c_trunc.CHECKS)
