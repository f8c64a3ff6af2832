"""S05: stored data that is missing its end."""
import json, os, random, shutil
import vp, docs, docreplay, savereplay, hist, sdir, c_history, c_files
from c_doc import sim, short, any_judge

STORED_CFG = """SPECIFICATION Spec
CONSTANTS
 Byte <- McByte
 MaxLen = %d
INVARIANTS SelfDelimiting Stable
CHECK_DEADLOCK FALSE
"""
LOAD_CFG = """SPECIFICATION Spec
CONSTANTS
 N = %d
 Modes = {"st", "mt"}
 Waits = %s
INVARIANTS InOrder Right Alive
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""


# ---------------------------------------------------------------------- directories
def one_hist(ctx, k, beh, seed):
    d = ctx.scratch("h")
    h = hist.Hist(ctx, d, beh["opt"], k, random.Random("%d %d" % (seed, k)))
    bad, n = None, 0
    try:
        h.begin()
        h.steps(beh["log"])
        n = h.cut_all(60 if ctx.quick else 400)
        h.load_all()
    except hist.Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("cut", "the process died: %s" % e)
    finally:
        h.close()
        shutil.rmtree(d, ignore_errors=True)
    return k, h.trace, bad, n


def one_save(ctx, k, beh, seed):
    d = ctx.scratch("s")
    s = sdir.Dir(ctx, d, k, random.Random("%d %d" % (seed, k)), arc=k % 5 == 4)
    bad, n = None, 0
    try:
        s.begin()
        s.steps(beh)
        n = s.cut_all(60 if ctx.quick else 400)
        s.load_all()
    except hist.Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("cut", "the process died: %s" % e)
    finally:
        s.close()
        shutil.rmtree(d, ignore_errors=True)
    return k, s.trace, bad, n


KINDS = {"cut", "load", "died"}
HOW = {"hist": (one_hist, lambda ctx, t: hist.validate(ctx, t)), "save": (one_save, lambda ctx, t: sdir.validate(ctx, t))}


def dirs(ctx, what, behs, ks=None, seed=None):
    one, val = HOW[what]
    seed = ctx.seed if seed is None else seed
    ks = list(range(len(behs))) if ks is None else ks
    n = vp.NCPU
    parts = [list(range(i, len(behs), n)) for i in range(n)]
    res = vp.pfork(lambda js: [one(ctx, ks[j], behs[j], seed) for j in js if len(vp.HUNG) < 2], [p for p in parts if p])
    runs = sorted((x for r in res for x in r), key=lambda x: x[0])
    by = dict(zip(ks, behs))
    data = lambda k: {"what": what, "beh": by[k], "k": k, "seed": seed}
    for k, _, bad, m in runs:
        ctx.add("traces_validated_against_impl", 1)
        ctx.add("cuts", m)
        if bad and bad[0] in KINDS and ctx.violation(bad[1], data(k)):
            return
    parts = [runs[i::4] for i in range(4)]
    for part, errs in vp.pmap(lambda p: (p, val(ctx, [t for _, t, _, _ in p])), [p for p in parts if p], 4):
        for j, i, kind, text in errs:
            k = part[j][0]
            if kind in KINDS and ctx.violation("%s (event %d of run %d)" % (text, i, k), data(k)):
                return
    ctx.add("recorded_events", sum(len(t) for _, t, _, _ in runs))


# ---------------------------------------------------------------------- archives
def sources():
    out = [docs.Schema(f()).source() for f in (docs.std_schema, docs.tiny_schema, docs.ref_schema, docs.flat_schema)]
    out.append({"root.json5": "{ a: 1 }"})
    out.append({"root.json5": "{}", "a.json5": "5", "b.json5": '["MList", [{ x: 1 }], { x: 2 }]', "c.json5": '"%s"' % ("text " * 300)})
    return out


def archive(ctx, files):
    d = ctx.scratch("arc")
    os.mkdir(d + "/s")
    for n, t in files.items():
        with open(os.path.join(d, "s", n), "w") as f:
            f.write(t)
    drv = vp.Drv()
    try:
        p = d + "/s.arc"
        data = bytes.fromhex(drv.ok({"op": "arc_dir", "dir": d + "/s"}))
        with open(p, "wb") as f:
            f.write(data)
        h = drv.ok({"op": "src", "arc": p, "to": "whole", "validation": True})
        cmds = [{"op": "src", "arc": p, "to": "t", "validation": True}, {"op": "src", "arc": p, "to": "t", "validation": False}, {"op": "panics"}]
        a = drv({"op": "cut", "path": p, "cmds": cmds})
        if "ok" not in a:
            return "reading a cut archive: %s" % json.dumps(a)[:300], len(data)
        for res, ns in a["ok"]:
            if "err" not in res[0] or "err" not in res[1] or res[2].get("ok"):
                return "an archive of %d bytes cut to %s: %s" % (len(data), ns[:5], json.dumps(res)[:300]), len(data)
        if drv.ok({"op": "src", "arc": p, "to": "t", "validation": True}) != h:
            return "the whole archive reads differently after cut ones", len(data)
    except vp.DrvDied as e:
        return "reading a cut archive: the process died: %s" % e, 0
    finally:
        drv.close()
    return None, len(data)


def archives(ctx, fs):
    for f, (bad, n) in zip(fs, vp.pmap(lambda f: archive(ctx, f), fs, vp.NCPU)):
        ctx.add("cuts", n)
        if bad and ctx.violation(bad, {"what": "archive", "files": f}):
            return


# ---------------------------------------------------------------------- differences
def diffs(ctx, plans):
    ts = [docs.tlc_docs(ctx, cfg, False, seed=ctx.seed * 100 + k, num=num, module="DocSaveMC", workers=2) for k, (cfg, num) in enumerate(plans)]
    for (cfg, num), t in zip(plans, ts):
        r = t.wait().must_pass()
        ctx.add("simulated_steps", r.generated)
        ctx.sample(short(r.decode(r.traces[0])))
        docreplay.replay_traces(ctx, cfg, r.traces, r.tags("FIRST")[0], any_judge, cls=savereplay.CutReplayer)
        if ctx.enough:
            return


def s05(ctx):
    q = 1 if ctx.quick else 8
    st = vp.Tlc(ctx, "StoredMC", STORED_CFG % (7 if ctx.quick else 9), args=["-workers", "2"], heap="3g")
    ld = vp.Tlc(ctx, "Load", LOAD_CFG % (4 if ctx.quick else 6, "TRUE"), args=["-workers", "2"], heap="3g")
    free = vp.Tlc(ctx, "Load", LOAD_CFG % (3, "FALSE"), args=["-workers", "1"])
    e = ["set", "mut", "list", "ref", "clone"]
    o = c_history.all_opts((0, 1, 2, 3), nths=(0, 1), cnts=(0, 2))
    hs = c_history.mc(ctx, o, sizes=(1, 2, 3, 4), saves=60, depth=9, vers=(1, 2), feat=["load", "restart", "opts", "more"], mode="sim", num=40 * q, seed=ctx.seed + 5)
    ss = c_files.mc(ctx, vers=(1, 2), depth=8, mode="sim", num=40 * q, seed=ctx.seed + 5)
    diffs(ctx, [(sim(docs.std_schema(), e, depth=25, slots=["a"], maxitems=4), 40 * q), (sim(docs.std_schema(True), e, depth=25, slots=["a"], maxitems=4), 20 * q),
                (sim(docs.flat_schema(), ["set", "mut"], depth=25, slots=["a"]), 30 * q), (sim(docs.ref_schema(), ["ref", "list"], depth=20, slots=["a"], maxitems=4), 30 * q)])
    for t in (st, ld):
        r = t.wait().must_pass()
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
    if "Alive" not in free.wait().violated:
        raise vp.ToolError("returning before the other threads are done does not violate Load")
    if not ctx.enough:
        archives(ctx, sources())
    for what, t in (("hist", hs), ("save", ss)):
        r = t.wait().must_pass()
        ctx.add("simulated_steps", r.generated)
        if not ctx.enough:
            dirs(ctx, what, [r.decode(x) for x in r.traces])


CHECKS = {"S05": (s05, "model_checking")}


def replay(ctx, d):
    if d.get("what") == "archive":
        return archives(ctx, [d["files"]])
    if d.get("what"):
        return dirs(ctx, d["what"], [d["beh"]], [d["k"]], d["seed"])
    rp = savereplay.CutReplayer(ctx, d["cfg"], d["salt"])
    r = rp.run(d["log"], d["first"], d["seed"], any_judge)
    rp.close()
    ctx.add("traces_validated_against_impl", 1)
    if r:
        ctx.violation("%s at step %d: %s" % r, d)
