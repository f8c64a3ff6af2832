"""Replays behaviours of DocEdit.tla in the real code and compares every step."""
import json, os, random
import vp, docs


def loose(l):
    """A list without next ids, which == of lists does not look at, and with 0.0 for -0.0."""
    if isinstance(l, dict):
        return {k: loose(v) for k, v in l.items() if k != "n" or "i" not in l}
    if isinstance(l, list):
        return [loose(v) for v in l]
    return "0000000000000000" if l == "8000000000000000" else l


class Replayer:
    def __init__(self, ctx, cfg, salt=0):
        self.ctx, self.cfg = ctx, cfg
        self.s = self.schema(cfg, salt)
        self.dir = self.s.write(ctx.scratch("src"))
        self.drv = None
        self.undef = [e[0][0] for e in cfg["src"]["L"] if not e[1] and len(e[0]) == 1]
        if self.undef:
            # a list is undefined when the document comes from an older source without it
            c2 = json.loads(json.dumps(cfg))
            c2["rootl"] = [l for l in c2["rootl"] if l not in self.undef]
            self.olddir = self.schema(c2, salt, c2["rootl"]).write(ctx.scratch("old"))

    def schema(self, cfg, salt, rootl=None):
        return docs.Schema(cfg, salt)

    def driver(self):
        return vp.Drv()

    views = True

    def start(self):
        self.drv = self.driver()
        self.drv.ok({"op": "schema", "name": "s", "def": self.s.dump_schema()})
        if self.undef:
            self.drv.ok({"op": "src", "dir": self.dir, "to": "n_", "validation": True})
            self.drv.ok({"op": "src", "dir": self.olddir, "to": "o_", "validation": True})
            self.drv.ok({"op": "adjust", "new": "n_", "old": "o_", "to": "base", "validation": True})
        else:
            self.drv.ok({"op": "src", "dir": self.dir, "to": "base", "validation": True})

    def close(self):
        if self.drv:
            self.drv.close()
            self.drv = None

    def cmd(self, e, pool, rng):
        """The driver command of one log entry."""
        o = e["op"]
        if o == "set":
            t, v = e["t"], e["v"]
            if e["how"] == "init":
                vv = 2
            else:
                vv = v if v[0] != "v" else ["v", pool.val(t, v[1])]
            return {"op": "set", "slot": e["slot"], "path": e["path"], "name": e["name"], "t": t, "v": vv, "how": e["how"]}
        if o == "list":
            return {"op": "list", "slot": e["slot"], "path": e["path"], "what": e["what"], "id": e["id"], "other": e["other"],
                    "api": rng.choice(["ptr", "mut"])}
        if o == "ref":
            c = {"op": "ref", "slot": e["slot"], "path": e["path"], "what": e["what"], "name": e["name"]}
            if e["what"] == "set":
                c["v"] = e["v"]
            else:
                c["row"] = e["row"]
            return c
        if o == "clone":
            return {"op": "clone", "slot": e["slot"], "to": e["to"]}
        if o == "drop":
            return {"op": "drop", "slot": e["slot"]}
        raise vp.ToolError("log entry %s" % o)

    @staticmethod
    def expect_res(e):
        if e["op"] == "list" and e["what"].startswith("insert"):
            return e["id"]
        return e.get("res")

    @staticmethod
    def check_views(v, a):
        """Every read view of the list must be the one the specification gives."""
        opt = lambda s: s[0] if s else None
        n = v["len"]
        F, B = v["fwd"], v["bwd"]
        f, l = opt(v["first"]), opt(v["last"])
        want = {"fwd": F, "bwd": B, "first": f, "last": l, "len": n, "empty": n == 0, "next": v["next"], "has_first": n > 0, "has_last": n > 0,
                "has": v["has"], "item": v["has"], "chas": v["has"],
                "from": [[p, True, p == f, p == l, fr, up] if h else None for p, h, fr, up in zip(v["probe"], v["has"], v["from"], v["upto"])],
                "cfwd": F, "cbwd": B, "cends": [f, l, n, n > 0, n > 0],
                "cfrom": [fr if h else None for h, fr in zip(v["has"], v["from"])],
                "mfwd": F, "mends": [f, l, n, n > 0, n > 0], "mbwd": B, "pmbwd": B,
                "pmfrom": [fr if h else None for h, fr in zip(v["has"], v["from"])]}
        return docs.first_diff(want, {k: a.get(k) for k in want})

    def run(self, log, first, seed, judge, dump_all=True):
        """Replays one behaviour. judge(kind, entry) says whether a mismatch of that kind
        belongs to the property. Returns None or (what, step, detail)."""
        if self.drv is None:
            self.start()
        rng = random.Random(seed)
        pool = docs.Pool(seed, self.s.sp)
        live = {first: self.cfg["src"]}
        cmds = [{"op": "clone", "slot": "base", "to": first}]
        plan = [("setup", None, None)]
        if self.cfg.get("dump0", True):
            cmds.append({"op": "dump", "slot": first, "schema": "s", "fl": 1})
            plan.append(("dump", -1, (first, self.cfg["src"])))
        for k, e in enumerate(log):
            cmds.append(self.cmd(e, pool, rng))
            plan.append(("res", k, self.expect_res(e)))
            if e["op"] == "list" and self.views:
                cmds.append({"op": "views", "slot": e["slot"], "path": e["path"], "probe": e["views"]["probe"], "mut": True})
                plan.append(("views", k, e["views"]))
            if "doc" in e:
                live[e["to"] if e["op"] == "clone" else e["slot"]] = e["doc"]
            if e["op"] == "drop":
                del live[e["slot"]]
            for s in live:
                if dump_all or s == e.get("slot") or s == e.get("to"):
                    cmds.append({"op": "dump", "slot": s, "schema": "s", "fl": 1})
                    plan.append(("dump", k, (s, live[s])))
            if self.cfg.get("eqs"):
                names = sorted(live)
                for i, s1 in enumerate(names):
                    for s2 in names[i:]:
                        if s1 == s2:
                            continue
                        cmds.append({"op": "eq", "a": s1, "b": s2})
                        plan.append(("eq", k, (live[s1], live[s2], e["op"] == "clone" and {e["slot"], e["to"]} == {s1, s2})))
                        cmds.append({"op": "eqlists", "a": s1, "b": s2})
                        plan.append(("eqlists", k, (live[s1], live[s2])))
        for s in live:
            cmds.append({"op": "drop", "slot": s})
            plan.append(("setup", None, None))
        # the document all copies came from is still what the source says
        cmds.append({"op": "dump", "slot": "base", "schema": "s", "fl": 1})
        plan.append(("base", len(log) - 1, self.cfg["src"]))
        try:
            ans = self.drv(cmds)
        except vp.DrvDied as ex:
            self.drv = None
            return ("crash", len(log) - 1, str(ex))
        cache = {}
        for (kind, k, want), a, c in zip(plan, ans, cmds):
            if kind == "setup":
                if "ok" not in a:
                    return ("error", -1, "%s -> %s" % (c, a))
                continue
            e = log[k] if k >= 0 else {"op": "load", "slot": first}
            if "ok" not in a:
                got = a
                if judge("panic" if "panic" in a else "error", e):
                    if "panic" in a:
                        self.close()
                    return ("error", k, "%s -> %s" % (json.dumps(c)[:400], json.dumps(a)[:600]))
                continue
            got = a["ok"]
            if kind == "res":
                if want is not None and got != want and judge("res", e):
                    return ("res", k, "%s gave %s, expected %s" % (json.dumps(c)[:400], got, want))
            elif kind == "eq":
                x, y = [cache.setdefault(id(q), self.s.expect(q, pool)) for q in want[:2]]
                if got and x != y and judge("eq", e):
                    return ("eq", k, "%s says equal, but they differ: %s" % (json.dumps(c), docs.first_diff(x, y)))
                if want[2] and not got and judge("eq", e):
                    return ("eq", k, "%s says a fresh copy differs" % json.dumps(c))
            elif kind == "eqlists":
                x, y = [cache.setdefault(id(q), self.s.expect(q, pool))["m"] for q in want]
                for n, eq in got:
                    if eq and loose(x[n]) != loose(y[n]) and judge("eq", e):
                        return ("eq", k, "list %s of %s and %s are said to be equal, but differ: %s" % (n, c["a"], c["b"], docs.first_diff(x[n], y[n])))
            elif kind == "views":
                d = self.check_views(want, got)
                if d and judge("views", e):
                    return ("views", k, "%s: view %s: spec %s, code %s" % (json.dumps(c)[:300], d[0], d[1], d[2]))
            else:
                doc = want if kind == "base" else want[1]
                key = id(doc)
                if key not in cache:
                    cache[key] = self.s.expect(doc, pool)
                d = docs.first_diff(cache[key], got)
                if d and judge("base" if kind == "base" else ("dump" if want[0] == e.get("to", e["slot"]) else "other"), e):
                    return ("dump", k, "slot %s after step %d %s: %s: spec %s, code %s" % (
                        "base" if kind == "base" else want[0], k, json.dumps({x: e[x] for x in e if x not in ("doc", "views")})[:400], d[0], json.dumps(d[1])[:300], json.dumps(d[2])[:300]))
        return None


def replay_traces(ctx, cfg, traces, first, judge, nontrivial=None, nproc=None, salt=0, dump_all=True, cls=None):
    """Replays decoded or raw traces in several driver processes."""
    n = nproc or min(vp.NCPU, max(1, len(traces) // 20))
    parts = [traces[i::n] for i in range(n)]

    def work(part):
        rp = (cls or Replayer)(ctx, cfg, salt)
        out = []
        cnt = 0
        steps = 0
        try:
            for tr in part:
                log = json.loads(json.loads(tr.decode("utf8"))[6:]) if isinstance(tr, bytes) else tr
                seed = (ctx.seed * 1000003 + cnt * 31 + salt) & 0x7fffffff
                r = rp.run(log, first, seed, judge, dump_all)
                cnt += 1
                steps += len(log)
                if r:
                    out.append((r, log, seed))
                    if len(out) >= 2:
                        break
        finally:
            rp.close()
        return out, cnt, steps
    res = vp.pfork(work, parts)
    bad = []
    for out, cnt, steps in res:
        ctx.add("traces_validated_against_impl", cnt)
        ctx.add("impl_steps", steps)
        bad += out
    for (r, log, seed) in bad:
        ctx.violation("%s at step %d: %s" % r, {"cfg": cfg, "log": log, "first": first, "seed": seed, "salt": salt})
        if ctx.enough:
            break
    return not bad
