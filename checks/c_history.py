"""H01-H09: history directories."""
import json, os, random, shutil, time
import concurrent.futures
import vp, hist, c_fault, c_conc

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 Opts <- McOpts
 Sizes = {%(sizes)s}
 Roots = {%(roots)s}
 MaxSaves = %(saves)d
 Depth = %(depth)d
 Vers = {%(vers)s}
 Feat = {%(feat)s}
 Pick <- %(pick)s
%(inv)s
CHECK_DEADLOCK FALSE
"""
INV = "INVARIANT AllOk\nPROPERTY PruneKeeps\n"
ALL = ["new", "load", "restart", "prune", "keep"]


def opt(maxp=2, upd0=True, cum=True, nth=0, cnt=0):
    return {"maxp": maxp, "upd0": upd0, "cum": cum, "nth": nth, "cnt": cnt}


def all_opts(maxps, nths, cnts):
    out = []
    for m in maxps:
        for u in (True, False):
            if m == 0 and not u:
                continue
            out.append(opt(m, u, False))
            for n in nths:
                for c in cnts:
                    if m == 0 and (n or c):
                        continue
                    out.append(opt(m, u, True, n, c))
    return out


def mc(ctx, opts, sizes=(1, 3), roots=(1, 2), saves=5, depth=7, vers=(1,), feat=ALL, mode="check", num=100, seed=1, workers=2, inv=None):
    """mode check: all states; traces: all behaviours of that length; sim: random behaviours"""
    d = ctx.scratch("opts")
    p = os.path.join(d, "opts.json")
    with open(p, "w") as f:
        json.dump(opts, f)
    q = lambda s: ", ".join('"%s"' % x if isinstance(x, str) else str(x) for x in s)
    cfg = MC_CFG % {"sizes": q(sizes), "roots": q(roots), "saves": saves, "depth": depth, "vers": q(vers), "feat": q(feat),
                    "pick": "One" if mode == "sim" else "Ident",
                    "inv": (INV.replace("AllOk", "AllOkSome") if mode == "sim" else INV) + ("VIEW View" if mode == "check" else "")}
    if inv:
        cfg = cfg.replace("INVARIANT AllOkSome\nPROPERTY PruneKeeps", "INVARIANT " + inv)
    args = ["-workers", str(workers)]
    if mode == "sim":
        args = ["-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(seed), "-workers", "1"]
    return vp.Tlc(ctx, "HistoryMC", cfg, env={"OPTS": p}, args=args, heap="3g", timeout=800)


def behaviours(ctx, jobs):
    """Runs TLC jobs (kwargs of mc) in parallel; returns the behaviours of the trace-producing ones."""
    out = []
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(lambda kw: mc(ctx, **kw).wait().must_pass(), kw) for kw in jobs]
        for kw, f in zip(jobs, fs):
            r = f.result()
            if os.environ.get("VP_TIME"):
                print(kw.get("mode"), kw.get("depth"), r.wall)
            if kw.get("mode") == "sim":
                ctx.add("simulated_steps", r.generated)
            else:
                ctx.add("states", r.distinct)
                ctx.add("transitions", r.generated)
            if kw.get("mode", "check") != "check":
                t = [r.decode(x) for x in r.traces]
                if not t:
                    raise vp.ToolError("no behaviours from TLC")
                out += t
    return out


def run_one(ctx, k, beh, seed):
    d = ctx.scratch("h")
    h = hist.Hist(ctx, d, beh["opt"], k, random.Random("%d %d" % (seed, k)))
    bad = None
    try:
        h.run(beh["log"], foreign=k % 4 == 3)
    except hist.Bad as b:
        bad = (b.kind, b.what)
    except vp.DrvDied as e:
        bad = ("died", str(e))
    finally:
        h.close()
        shutil.rmtree(d, ignore_errors=True)
    return k, h.trace, bad


def run_all(ctx, behs, seed, n=None):
    """Runs all behaviours on the implementation; returns [(k, trace, bad)] in order."""
    n = n or vp.NCPU
    parts = [list(range(i, len(behs), n)) for i in range(n)]
    res = vp.pfork(lambda ks: [run_one(ctx, k, behs[k], seed) for k in ks if len(vp.HUNG) < 2], [p for p in parts if p])
    return sorted((x for r in res for x in r), key=lambda x: x[0])


KINDS = {"H01": {"load", "save", "died", "file", "open", "edit"},
         "H02": {"list", "newest", "name", "reuse", "save", "died", "open", "load"},
         "H03": {"prune", "load", "save", "died", "list", "open"},
         "H07": {"conv", "list", "newest", "load", "save", "died", "name", "open"},
         "H08": {"phase", "save", "died", "file", "open"}}


def judge(ctx, behs, runs, seed):
    """Validates the recorded traces with TLC and reports what belongs to this property."""
    kinds = KINDS[ctx.pid]
    for k, trace, bad in runs:
        ctx.add("traces_validated_against_impl", 1)
        if bad and bad[0] in kinds:
            if ctx.violation(bad[1], {"beh": behs[k], "k": k, "seed": seed}):
                return
    n = 6
    parts = [runs[i::n] for i in range(n)]

    def val(part):
        return part, hist.validate(ctx, [t for _, t, _ in part])
    for part, errs in vp.pmap(val, [p for p in parts if p], n):
        for j, i, kind, what in errs:
            k = part[j][0]
            if kind in kinds and ctx.violation("%s (event %d of run %d)" % (what, i, k), {"beh": behs[k], "k": k, "seed": seed}):
                return
    ctx.add("recorded_events", sum(len(t) for _, t, _ in runs))


def short(b):
    return json.dumps(b)[:700]


def program(ctx, jobs):
    behs = behaviours(ctx, jobs)
    seed = ctx.seed
    t = time.time()
    runs = run_all(ctx, behs, seed)
    if os.environ.get("VP_TIME"):
        print("behaviours", len(behs), "tlc", round(t - ctx.t0, 1), "run", round(time.time() - t, 1))
    for x in behs[:2]:
        ctx.sample(short(x))
    ctx.sample(json.dumps(runs[len(runs) // 2][1][:6])[:900])
    judge(ctx, behs, runs, seed)


LIM = dict(nths=(0, 1, 2, 9), cnts=(0, 1, 2, 4, 10))


def h01(ctx):
    q = 1 if ctx.quick else 6
    o = all_opts((0, 1, 2, 3), **LIM)
    small = [opt(0), opt(0, cum=False), opt(1, cnt=2), opt(1, cum=False), opt(2, nth=1), opt(2, upd0=False, cum=False)]
    program(ctx, [
        dict(opts=[opt(1), opt(1, cum=False), opt(2, nth=1, cnt=2), opt(2, cum=False, upd0=False)], saves=4 if ctx.quick else 5, depth=6 if ctx.quick else 8, sizes=(1, 3)),
        dict(opts=small, sizes=(2,), roots=(1,), saves=4, depth=4, feat=["load", "restart", "new"], mode="traces"),
        dict(opts=o, sizes=(1, 2, 3, 4, 5), saves=60, depth=25, feat=ALL + ["more"], mode="sim", num=260 * q, seed=ctx.seed),
        dict(opts=o, sizes=(1, 2, 3, 4, 5), saves=60, depth=40, feat=["load", "more", "restart"], mode="sim", num=160 * q, seed=ctx.seed + 7)])


def h02(ctx):
    q = 1 if ctx.quick else 6
    o = all_opts((0, 1, 2, 3), **LIM)
    names(ctx)
    if ctx.enough:
        return
    program(ctx, [
        dict(opts=[opt(0), opt(1), opt(1, cum=False), opt(2, cnt=1), opt(2, cum=False, upd0=False)], saves=4 if ctx.quick else 5, depth=6 if ctx.quick else 8, sizes=(1, 3), vers=(1, 2)),
        dict(opts=[opt(1, cum=False), opt(1, cnt=1), opt(2, nth=1)], sizes=(2,), roots=(1,), saves=4, depth=4, vers=(1, 2), feat=["load", "restart", "keep"], mode="traces"),
        dict(opts=o, sizes=(1, 2, 3, 4, 5), saves=60, depth=25, vers=(1, 2, 3, 4), feat=ALL + ["more", "opts"], mode="sim", num=200 * q, seed=ctx.seed + 20),
        dict(opts=o, sizes=(1,), saves=60, depth=12, vers=(1, 2), feat=["prune", "restart", "opts"], mode="sim", num=160 * q, seed=ctx.seed + 23),
        dict(opts=o, sizes=(1, 3), saves=60, depth=45, feat=["load", "more", "new"], mode="sim", num=110 * q, seed=ctx.seed + 27)])


def h03(ctx):
    q = 1 if ctx.quick else 6
    o = all_opts((0, 1, 2, 3), **LIM)
    program(ctx, [
        dict(opts=[opt(1), opt(1, cum=False), opt(2, nth=1, cnt=2), opt(2, cum=False)], saves=4 if ctx.quick else 5, depth=6 if ctx.quick else 8, sizes=(1, 3), vers=(1, 2),
             feat=["load", "restart", "prune", "keep"]),
        dict(opts=[opt(1), opt(1, cum=False), opt(2, cnt=1)], sizes=(2,), roots=(1,), saves=4, depth=4, vers=(1, 2), feat=["prune", "keep", "restart"], mode="traces"),
        dict(opts=o, sizes=(1, 2, 3, 4, 5), saves=60, depth=16, vers=(1, 2, 3), feat=["prune", "keep", "restart", "more", "opts"], mode="sim", num=220 * q, seed=ctx.seed + 30),
        dict(opts=o, sizes=(1, 3), saves=60, depth=30, feat=["load", "prune", "keep", "more"], mode="sim", num=180 * q, seed=ctx.seed + 37)])


def h07(ctx):
    q = 1 if ctx.quick else 6
    o = all_opts((0, 1, 2, 3), nths=(0, 1), cnts=(0, 2))
    program(ctx, [
        dict(opts=[opt(0), opt(1), opt(1, cum=False), opt(2, cnt=2)], saves=4 if ctx.quick else 5, depth=6 if ctx.quick else 8, sizes=(1,), vers=(1, 2), roots=(1,),
             feat=["load", "restart", "opts"]),
        dict(opts=[opt(1), opt(1, cum=False), opt(2, cnt=1)], sizes=(2,), roots=(1,), saves=4, depth=4, vers=(1, 2), feat=["restart", "opts"], mode="traces"),
        dict(opts=o, sizes=(1, 2, 3, 4), saves=60, depth=14, vers=(1, 2, 3, 4), feat=["load", "restart", "more", "opts"], mode="sim", num=200 * q, seed=ctx.seed + 70),
        dict(opts=o, sizes=(1, 2, 3), saves=60, depth=24, vers=(1, 2, 3, 4), feat=ALL + ["more", "opts"], mode="sim", num=140 * q, seed=ctx.seed + 77)])


def h08(ctx):
    q = 1 if ctx.quick else 6
    o = all_opts((0, 1, 2, 3, 4), **LIM)
    sim = dict(saves=90, mode="sim", inv="PhaseBound")
    program(ctx, [
        dict(opts=all_opts((1, 2), nths=(0, 1), cnts=(0, 2)), saves=6 if ctx.quick else 8, depth=7 if ctx.quick else 9, sizes=(1, 3), roots=(1,), feat=[]),
        dict(opts=all_opts((1, 2, 3), nths=(0, 1, 2), cnts=(0, 2)), sizes=(2, 4), roots=(1,), saves=6, depth=5 if ctx.quick else 7, feat=["more"], mode="traces"),
        dict(opts=o, sizes=(1, 3, 5), depth=40, roots=(1,), feat=[], num=100 * q, seed=ctx.seed + 80, **sim),
        dict(opts=o, sizes=(2,), depth=30, roots=(1,), feat=[], num=80 * q, seed=ctx.seed + 83, **sim),
        dict(opts=o, sizes=(1, 2, 3, 4, 5, 6), depth=50, roots=(1, 2), feat=["more", "load", "keep"], num=100 * q, seed=ctx.seed + 87, **sim)])


def names(ctx):
    """Names and metadata convert into each other; foreign names give no metadata that would be listed."""
    r = vp.Tlc(ctx, "HistoryNames", "SPECIFICATION Spec\nINVARIANT Unique\nCHECK_DEADLOCK FALSE\n", args=["-workers", "2"], heap="2g").wait().must_pass()
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)
    name_rows(ctx, [json.loads(x) for x in r.tags("NAME")])


def name_rows(ctx, rows):
    with vp.Drv() as d:
        for k in range(0, len(rows), 500):
            part = rows[k:k + 500]
            for w, a in zip(part, d([{"op": "h_props", "name": w["name"]} for w in part])):
                got = a.get("ok")
                want = {"ctl": w["ctl"], "prev": w["prev"], "order": w["order"], "tag": w["tag"][0] if w["tag"] else None, "file": w["name"], "phase": len(w["order"]) - 1}
                ctx.add("names_converted", 1)
                if got != want and ctx.violation("%s gives %s instead of %s" % (w["name"], json.dumps(a), json.dumps(want)), {"name": w}):
                    return


CHECKS = {"H01": (h01, "model_checking"), "H02": (h02, "model_checking"), "H03": (h03, "model_checking"),
          "H07": (h07, "model_checking"), "H08": (h08, "model_checking")}

CHECKS.update(c_fault.HCHECKS)
CHECKS.update(c_conc.HCHECKS)


def replay(ctx, rec):
    d = rec["data"]
    if "fault" in d:
        return c_fault.replay(ctx, rec)
    if "queue" in d or "conc" in d:
        return c_conc.replay(ctx, rec)
    if "name" in d:
        return name_rows(ctx, [d["name"]])
    behs = {d["k"]: d["beh"]}
    k, trace, bad = run_one(ctx, d["k"], d["beh"], d["seed"])
    judge(ctx, behs, [(k, trace, bad)], d["seed"])
