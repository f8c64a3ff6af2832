"""D01-D06: behaviours of DocEdit.tla replayed through the accessor interface."""
import json
import vp, docs, docreplay


def account(ctx, r, mode):
    if mode == "sim":
        ctx.add("simulated_steps", r.generated)
    else:
        ctx.add("states", r.distinct)
        ctx.add("transitions", r.generated)


def short(log):
    return [{k: v for k, v in e.items() if k not in ("doc", "views")} for e in log[:12]]


def run(ctx, plans, judge, budget=100):
    """plans: [(schema cfg, exhaustive, num)]; starts the TLC runs a few at a time and replays their traces."""
    jobs = []
    for k, (cfg, exhaustive, num) in enumerate(plans):
        jobs.append((cfg, exhaustive, num, k))

    def one(j):
        cfg, exhaustive, num, k = j
        if exhaustive == "check":
            return docs.tlc_check(ctx, cfg).wait().must_pass()
        return docs.tlc_docs(ctx, cfg, exhaustive, seed=ctx.seed * 100 + k, num=num, workers=2).wait().must_pass()
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        futs = [(j, ex.submit(one, j)) for j in jobs]
        for (cfg, exhaustive, num, k), f in futs:
            r = f.result()
            account(ctx, r, exhaustive if exhaustive == "check" else ("all" if exhaustive else "sim"))
            if exhaustive == "check":
                continue
            if not r.traces:
                raise vp.ToolError("no behaviours from TLC")
            traces = sorted(set(r.traces)) if exhaustive else r.traces
            if exhaustive:
                ctx.add("exhaustive_behaviours", len(traces))
            ctx.sample(short(r.decode(traces[len(traces) // 2])))
            first = r.tags("FIRST")[0]
            docreplay.replay_traces(ctx, cfg, traces, first, judge)
            if ctx.enough:
                return


def sim(schema, feat, depth=40, **kw):
    return dict(schema, **dict(docs.SIM_DEFAULTS, feat=feat, depth=depth, **kw))


ALL = ["set", "mut", "ill", "list", "ref", "refill", "clone"]
# every document reachable by list edits, writes and copies in two slots, for the invariants
CHECK = (sim(docs.tiny_schema(1), ["list", "clone", "set"], slots=["a", "b"], toks=[1], maxitems=2, maxid=3), "check", 0)
any_judge = lambda kind, e: True


def d01(ctx):
    q = 1 if ctx.quick else 8
    flat = docs.flat_schema()
    plans = [
        CHECK,
        # every accessor x member kind x nullability once: all one-step and two-step programs on small member sets
        (sim(flat, ["set", "mut"], depth=1, slots=["a"], toks=[1]), True, 0),
        (sim(docs.nested_schema(), ["set", "mut", "list"], depth=2 if ctx.quick else 3, slots=["a"], toks=[1], maxitems=2, maxid=3), True, 0),
        (sim(flat, ["set", "mut"], depth=60, slots=["a"]), False, 150 * q),
        (sim(docs.std_schema(), ALL, depth=60, slots=["a", "b"]), False, 250 * q),
        (sim(docs.std_schema(True), ["set", "mut", "list", "ref"], depth=40, slots=["a"]), False, 100 * q)]
    run(ctx, plans, any_judge)


def d02(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        CHECK,
        (sim(docs.nested_schema(), ["set", "clone", "list"], depth=2 if ctx.quick else 3, slots=["a", "b"], toks=[1], maxitems=2, maxid=3), True, 0),
        (sim(docs.std_schema(), ["set", "mut", "list", "ref", "clone"], depth=60, slots=["a", "b", "c", "d"]), False, 250 * q),
        (sim(docs.ref_schema(), ["set", "mut", "list", "ref", "clone"], depth=50, slots=["a", "b", "c"]), False, 100 * q),
        (sim(docs.std_schema(True), ["set", "list", "clone"], depth=40, slots=["a", "b", "c"]), False, 100 * q)]
    run(ctx, plans, any_judge)


def d03(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        CHECK,
        (sim(docs.tiny_schema(3), ["list"], depth=3, slots=["a"], maxitems=4, maxid=5), True, 0),
        (sim(docs.tiny_schema(0), ["list"], depth=4, slots=["a"], maxitems=3, maxid=3), True, 0),
        (sim(docs.tiny_schema(4), ["list", "clone"], depth=80, slots=["a", "b"], maxitems=9, maxid=40), False, 200 * q),
        (sim(docs.std_schema(), ["list", "set"], depth=60, slots=["a"], maxitems=5, maxid=12), False, 150 * q)]
    if not ctx.quick:
        plans.append((sim(docs.tiny_schema(3), ["list"], depth=4, slots=["a"], maxitems=4, maxid=5), True, 0))
    run(ctx, plans, any_judge)


def d04(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        CHECK,
        (sim(docs.tiny_schema(1), ["list", "clone"], depth=3, slots=["a", "b"], maxitems=2, maxid=3), True, 0),
        (sim(docs.tiny_schema(1), ["list"], depth=3 if ctx.quick else 4, slots=["a"], maxitems=2, maxid=4), True, 0),
        (sim(docs.tiny_schema(2), ["list", "clone"], depth=60, slots=["a", "b"], maxitems=3, maxid=30), False, 200 * q),
        (sim(docs.std_schema(), ["list", "clone"], depth=60, slots=["a", "b"], maxitems=3, maxid=20), False, 150 * q)]
    run(ctx, plans, any_judge)


def d05(ctx):
    q = 1 if ctx.quick else 8
    ref = docs.ref_schema()
    plans = [
        CHECK,
        (sim(ref, ["ref", "refill"], depth=2, slots=["a"]), True, 0),
        (sim(ref, ["ref", "refill", "list", "clone"], depth=50, slots=["a", "b"], maxitems=4, maxid=8), False, 250 * q),
        (sim(docs.std_schema(), ["ref", "refill", "list", "set"], depth=50, slots=["a"], maxitems=4, maxid=8), False, 150 * q)]
    run(ctx, plans, any_judge)


def d06(ctx):
    q = 1 if ctx.quick else 8
    flat = docs.flat_schema()
    plans = [
        CHECK,
        (sim(flat, ["ill", "set"], depth=1, slots=["a"], toks=[1]), True, 0),
        (sim(flat, ["ill", "set", "mut"], depth=60, slots=["a"]), False, 150 * q),
        (sim(docs.std_schema(), ["ill", "set", "list", "ref"], depth=60, slots=["a"]), False, 200 * q)]
    run(ctx, plans, any_judge)


def d07(ctx):
    q = 1 if ctx.quick else 8
    plans = [
        CHECK,
        (sim(docs.tiny_schema(2), ["list", "clone", "set"], depth=3, slots=["a", "b"], toks=[1], maxitems=3, maxid=4, eqs=True), True, 0),
        (sim(docs.few_schema(), ["set", "mut", "clone"], depth=50, slots=["a", "b"], eqs=True), False, 150 * q),
        # longer lists, and copies whose lists went different ways
        (sim(docs.tiny_schema(4), ["list", "clone"], depth=60, slots=["a", "b", "c"], maxitems=12, maxid=40, eqs=True), False, 150 * q),
        (sim(docs.tiny_schema(6), ["list", "clone", "set"], depth=25, slots=["a", "b"], toks=[1, 2], maxitems=8, maxid=9, eqs=True), False, 300 * q),
        (sim(docs.std_schema(), ["set", "mut", "list", "ref", "clone"], depth=40, slots=["a", "b", "c"], eqs=True), False, 150 * q),
        (sim(docs.ref_schema(), ["ref", "list", "clone"], depth=40, slots=["a", "b", "c"], eqs=True), False, 100 * q)]
    run(ctx, plans, lambda kind, e: kind == "eq" or kind == "panic")


CHECKS = {"D07": (d07, "model_checking"), "D01": (d01, "model_checking"), "D02": (d02, "model_checking"), "D03": (d03, "model_checking"),
          "D04": (d04, "model_checking"), "D05": (d05, "model_checking"), "D06": (d06, "model_checking")}


def replay(ctx, rec):
    d = rec["data"]
    rp = docreplay.Replayer(ctx, d["cfg"], d["salt"])
    r = rp.run(d["log"], d["first"], d["seed"], any_judge)
    rp.close()
    ctx.add("traces_validated_against_impl", 1)
    if r:
        ctx.violation("%s at step %d: %s" % r, d)
