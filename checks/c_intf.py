"""G01, G02: the interface generated for a source (Interface.tla), compiled and used."""
import json, concurrent.futures
import vp, docs, docreplay, intf


def spread(ctx, items, n):
    return [items[i::n] for i in range(n) if items[i::n]]


def compile_all(ctx, traces, run, per):
    """Generates and compiles the interfaces of all sources. Returns {number: (program, schema)}."""
    ss = [(k, intf.ISchema(t)) for k, t in enumerate(traces)]
    gen = intf.generate(ctx, [s for _, s in ss])
    ok = []
    for (k, s), (d, text, err) in zip(ss, gen):
        if text is None:
            ctx.violation("no interface for a source: %s" % err, {"tr": s.tr, "run": run})
            if ctx.enough:
                return {}
        else:
            ok.append((k, s, text))
    intf.rlibs()
    progs = {}
    with concurrent.futures.ThreadPoolExecutor(vp.NCPU) as ex:
        for part, (prog, errs) in zip(spread(ctx, ok, max(1, len(ok) // per)), ex.map(lambda p: intf.crate(ctx, p, run), spread(ctx, ok, max(1, len(ok) // per)))):
            for k, s, _ in part:
                ctx.add("interfaces_compiled")
                if k in errs:
                    if not ctx.enough:
                        ctx.violation("the generated interface does not offer what the source declares: %s" % "; ".join(errs[k][:3]), {"tr": s.tr, "run": run})
                elif prog:
                    progs[k] = (prog, s)
    return progs


def decode(r):
    return [r.decode(t) for t in r.traces]


def g01(ctx):
    q = ctx.quick
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        one = ex.submit(lambda: intf.tlc(ctx, True, 0, 1).must_pass())
        sims = [ex.submit(lambda s=s: intf.tlc(ctx, False, 10 if q else 40, 30 if q else 45, seed=ctx.seed * 10 + s, base=intf.BASE if s % 2 == 0 else []).must_pass()) for s in range(3)]
        r = one.result()
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)
        trs = decode(r)
        ctx.add("exhaustive_behaviours", len(trs))
        for f in sims:
            r = f.result()
            ctx.add("simulated_steps", r.generated)
            trs += decode(r)
    ctx.sample([f["on"] + "::" + f["fn"] + ": " + f["ty"] for f in trs[-1]["fns"][:40]])
    n = sum(len(t["fns"]) for t in trs)
    ctx.add("functions_checked", n)
    compile_all(ctx, trs, False, len(trs) // vp.NCPU)
    ctx.add("traces_validated_against_impl", len(trs))


FEAT = ["set", "mut", "list", "ref", "clone"]


def sources(ctx, n, steps, seed):
    r = intf.tlc(ctx, False, n, steps, seed=seed).must_pass()
    ctx.add("simulated_steps", r.generated)
    return decode(r)


def behaviours(ctx, tr, undef, prog, k, num, depth):
    s = intf.ISchema(tr, undef=undef)
    cfg = dict(s.c, **dict(docs.SIM_DEFAULTS, feat=FEAT, depth=depth, slots=["a", "b"]))
    r = docs.tlc_docs(ctx, cfg, False, seed=ctx.seed * 100 + k, num=num, heap="1g").wait().must_pass()
    ctx.add("simulated_steps", r.generated)
    if not r.traces:
        raise vp.ToolError("no behaviours from TLC")
    return dict(cfg, prog=[prog, k]), r


def undefs(tr, k):
    """Lists that a document of an older source does not have."""
    l = [n["name"] for n in tr["nodes"] if n["k"] == "ml" and n["vt"] == "u"]
    return l[:1] if k % 2 else []


any_judge = lambda kind, e: True


def g02(ctx):
    q = ctx.quick
    flat = intf.tlc(ctx, False, 1, 0, base=intf.flat()).must_pass()
    trs = decode(flat) + sources(ctx, 12 if q else 60, 26, ctx.seed * 10 + 7)
    mc = docs.tlc_check(ctx, dict(docs.tiny_schema(1), **dict(docs.SIM_DEFAULTS, feat=["list", "clone", "set"], slots=["a", "b"], toks=[1], maxitems=2, maxid=2)))
    progs = compile_all(ctx, trs, True, 2)
    if ctx.enough or len(progs) < len(trs) // 2:
        return
    with concurrent.futures.ThreadPoolExecutor(5) as ex:
        for cfg, r in ex.map(lambda k: behaviours(ctx, trs[k], undefs(trs[k], k), progs[k][0], k, (24 if q else 120) if k else 60, 30 if k else 60), sorted(progs)):
            ctx.sample([{x: e[x] for x in e if x not in ("doc", "views")} for e in r.decode(r.traces[0])[:8]])
            docreplay.replay_traces(ctx, cfg, r.traces, r.tags("FIRST")[0], any_judge, cls=intf.IReplayer, nproc=2)
            if ctx.enough:
                return
    r = mc.wait().must_pass()
    ctx.add("states", r.distinct)
    ctx.add("transitions", r.generated)


CHECKS = {"G01": (g01, "model_checking"), "G02": (g02, "model_checking")}


def replay(ctx, rec):
    d = rec["data"] if "data" in rec else rec
    if "cfg" in d:
        cfg = d["cfg"]
        progs = compile_all(ctx, [cfg["intf"]], True, 1)
        cfg = dict(cfg, prog=[progs[0][0], 0])
        rp = intf.IReplayer(ctx, cfg, d["salt"])
        r = rp.run(d["log"], d["first"], d["seed"], any_judge)
        rp.close()
        ctx.add("traces_validated_against_impl", 1)
        if r:
            ctx.violation("%s at step %d: %s" % r, d)
    else:
        compile_all(ctx, [d["tr"]], d["run"], 1)
