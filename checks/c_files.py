"""F01-F06: save directories."""
import json, os, random, shutil, time
import vp, sdir, hist, c_fault, c_conc

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Names = {%(names)s}
 Vers = {%(vers)s}
 Depth = %(depth)d
 Feat = {%(feat)s}
 Pick <- %(pick)s
INVARIANTS Once NoReserved Ordered
PROPERTIES Local NoSilent
%(view)s
CHECK_DEADLOCK FALSE
"""
ALL = ["remove", "load", "list", "restart"]


def mc(ctx, names=("a", "b"), vers=(1,), depth=5, feat=ALL, mode="check", num=100, seed=1):
    q = lambda s: ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in s)
    cfg = MC_CFG % {"names": q(names), "vers": q(vers), "depth": depth, "feat": q(feat), "pick": "One" if mode == "sim" else "Ident", "view": ""}
    args = ["-workers", "2"]
    if mode == "sim":
        args = ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed), "-workers", "1"]
    return vp.Tlc(ctx, "SaveDirMC", cfg, args=args, heap="3g", timeout=800)


def behaviours(ctx, jobs):
    out = []
    rs = [mc(ctx, **kw) for kw in jobs]
    for kw, t in zip(jobs, rs):
        r = t.wait().must_pass()
        if kw.get("mode") == "sim":
            ctx.add("simulated_steps", r.generated)
        else:
            ctx.add("states", r.distinct)
            ctx.add("transitions", r.generated)
        b = [r.decode(x) for x in r.traces]
        if not b:
            raise vp.ToolError("no behaviours from TLC")
        out += b
    return out


def run_one(ctx, k, beh, seed):
    d = ctx.scratch("s")
    s = sdir.Dir(ctx, d, k, random.Random("%d %d" % (seed, k)), arc=k % 5 in (2, 4))
    bad = None
    try:
        s.run(beh, pause=6 if k % 3 == 0 else 0)
    except hist.Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("died", str(e))
    finally:
        s.close()
        shutil.rmtree(d, ignore_errors=True)
    return k, s.trace, bad


def run_all(ctx, behs, seed):
    n = vp.NCPU
    parts = [list(range(i, len(behs), n)) for i in range(n)]
    res = vp.pfork(lambda ks: [run_one(ctx, k, behs[k], seed) for k in ks if len(vp.HUNG) < 2], [p for p in parts if p])
    return sorted((x for r in res for x in r), key=lambda x: x[0])


KINDS = {"F01": {"save", "load", "list", "remove", "died", "open", "edit"},
         "F04": {"conv", "list", "load", "save", "died", "open"},
         "F06": {"reserved", "save", "load", "list", "remove", "conv", "died", "open"}}


def judge(ctx, behs, runs, seed):
    kinds = KINDS[ctx.pid]
    for k, trace, bad in runs:
        ctx.add("traces_validated_against_impl", 1)
        if bad and bad[0] in kinds:
            if ctx.violation(bad[1], {"beh": behs[k], "k": k, "seed": seed}):
                return
    n = 4
    parts = [p for p in (runs[i::n] for i in range(n)) if p]
    for part, errs in vp.pmap(lambda p: (p, sdir.validate(ctx, [t for _, t, _ in p])), parts, n):
        for j, i, kind, what in errs:
            k = part[j][0]
            if kind in kinds and ctx.violation("%s (event %d of run %d)" % (what, i, k), {"beh": behs[k], "k": k, "seed": seed}):
                return
    ctx.add("recorded_events", sum(len(t) for _, t, _ in runs))


def program(ctx, jobs):
    behs = behaviours(ctx, jobs)
    t = time.time()
    runs = run_all(ctx, behs, ctx.seed)
    if os.environ.get("VP_TIME"):
        print("behaviours", len(behs), "tlc", round(t - ctx.t0, 1), "run", round(time.time() - t, 1))
    for x in behs[:2]:
        ctx.sample(json.dumps(x)[:700])
    ctx.sample(json.dumps(runs[len(runs) // 2][1][:6])[:900])
    judge(ctx, behs, runs, ctx.seed)


def f01(ctx):
    q = 1 if ctx.quick else 8
    program(ctx, [
        dict(names=("a", "b"), depth=4 if ctx.quick else 5, feat=["remove", "list"]),
        dict(names=("a", "b", "c"), vers=(1, 2), depth=30, feat=ALL, mode="sim", num=240 * q, seed=ctx.seed)])


def f04(ctx):
    q = 1 if ctx.quick else 8
    program(ctx, [
        dict(names=("a",), vers=(1, 2), depth=4 if ctx.quick else 5, feat=["restart", "load"]),
        dict(names=("a", "b"), vers=(1, 2, 3, 4), depth=16, feat=ALL, mode="sim", num=260 * q, seed=ctx.seed + 40)])


def f06(ctx):
    q = 1 if ctx.quick else 8
    program(ctx, [
        dict(names=("a",), vers=(1, 2), depth=3 if ctx.quick else 4, feat=["res", "remove", "restart"]),
        dict(names=("a", "b"), vers=(1, 2, 3), depth=16, feat=ALL + ["res"], mode="sim", num=220 * q, seed=ctx.seed + 60)])


CHECKS = {"F01": (f01, "model_checking"), "F04": (f04, "model_checking"), "F06": (f06, "model_checking")}

CHECKS.update(c_fault.FCHECKS)
CHECKS.update(c_conc.FCHECKS)


def replay(ctx, rec):
    d = rec["data"]
    if "fault" in d:
        return c_fault.replay(ctx, rec)
    if "queue" in d or "conc" in d:
        return c_conc.replay(ctx, rec)
    k, trace, bad = run_one(ctx, d["k"], d["beh"], d["seed"])
    judge(ctx, {d["k"]: d["beh"]}, [(k, trace, bad)], d["seed"])
