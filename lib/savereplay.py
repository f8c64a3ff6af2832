"""Replays behaviours of DocSave.tla: edits, stored differences, reloads."""
import json, random
import vp, docs
from docreplay import Replayer


class SaveReplayer(Replayer):
    """Each slot c has k_c (copy at the last commit), r_c (document rebuilt by applying every
    difference) and p_c (the same through the prepared path)."""

    def at_commit(self, do, s, v, k, e):
        pass

    def run(self, log, first, seed, judge, cuts=True):
        if self.drv is None:
            self.start()
        rng = random.Random(seed)
        pool = docs.Pool(seed, self.s.sp)
        cmds, plan = [], []

        def do(c, kind=None, k=-1, want=None):
            cmds.append(c)
            plan.append((kind, k, want))

        def dump(slot, k, doc):
            do({"op": "dump", "slot": slot, "schema": "s", "fl": 1}, "dump", k, doc)
        for x in ("", "k_", "r_", "p_"):
            do({"op": "clone", "slot": "base", "to": x + first})
        live = {first}
        chain = {first: []}   # slot -> [(diff variable, snapshot slot, document)]
        nv = 0
        snaps = []
        for k, e in enumerate(log):
            s = e["slot"]
            if e["op"] == "commit":
                nv += 1
                v = "x%d" % nv
                do({"op": "diff", "a": "k_" + s, "b": s, "as": v}, "diff", k)
                self.at_commit(do, s, v, k, e)
                do({"op": "apply", "slot": "r_" + s, "var": v}, "ok", k)
                do({"op": "apply", "slot": "p_" + s, "var": v, "prep": True}, "ok", k)
                dump("r_" + s, k, e["doc"])
                dump("p_" + s, k, e["doc"])
                dump("k_" + s, k, chain[s][-1][2] if chain[s] else self.cfg["src"])
                dump(s, k, e["doc"])
                do({"op": "clone", "slot": s, "to": "k_" + s})
                do({"op": "clone", "slot": s, "to": "n_" + v})
                # the difference of a document to itself changes nothing
                do({"op": "diff", "a": s, "b": "n_" + v, "as": "same"}, "diff", k)
                do({"op": "apply", "slot": "p_" + s, "var": "same"}, "ok", k)
                dump("p_" + s, k, e["doc"])
                chain[s] = chain[s] + [(v, "n_" + v, e["doc"])]
                snaps.append("n_" + v)
            elif e["op"] == "reload":
                do({"op": "move", "slot": "r_" + s, "to": s})
                do({"op": "clone", "slot": s, "to": "r_" + s})
                if rng.random() < .5:
                    do({"op": "clone", "slot": s, "to": "k_" + s})
                dump(s, k, e["doc"])
            else:
                do(self.cmd(e, pool, rng), "res", k, self.expect_res(e))
                if e["op"] == "clone":
                    t = e["to"]
                    for x in ("k_", "r_", "p_"):
                        do({"op": "clone", "slot": x + s, "to": x + t})
                    chain[t] = list(chain[s])
                    live.add(t)
                elif e["op"] == "drop":
                    live.discard(s)
        if cuts:
            # every chain from the source, and cut differently: jump over some commits
            for s in sorted(live):
                ch = chain[s]
                if not ch:
                    continue
                do({"op": "clone", "slot": "base", "to": "y"})
                for v, _, doc in ch:
                    do({"op": "apply", "slot": "y", "var": v, "prep": rng.random() < .5}, "ok", len(log) - 1)
                dump("y", len(log) - 1, ch[-1][2])
                do({"op": "clone", "slot": "base", "to": "y"})
                at, i = "base", -1
                while i < len(ch) - 1:
                    i = rng.randint(i + 1, len(ch) - 1)
                    do({"op": "diff", "a": at, "b": ch[i][1], "as": "z"}, "diff", len(log) - 1)
                    do({"op": "apply", "slot": "y", "var": "z"}, "ok", len(log) - 1)
                    dump("y", len(log) - 1, ch[i][2])
                    at = ch[i][1]
        for s in live:
            for x in ("", "k_", "r_", "p_"):
                do({"op": "drop", "slot": x + s})
        for s in snaps:
            do({"op": "drop", "slot": s})
        do({"op": "dump", "slot": "base", "schema": "s", "fl": 1}, "dump", len(log) - 1, self.cfg["src"])
        try:
            ans = self.drv(cmds)
        except vp.DrvDied as ex:
            self.drv = None
            return ("crash", len(log) - 1, str(ex))
        cache = {}
        for (kind, k, want), a, c in zip(plan, ans, cmds):
            if "ok" not in a:
                if "panic" in a:
                    self.close()
                return ("error", k, "%s -> %s" % (json.dumps(c)[:400], json.dumps(a)[:600]))
            if kind is None or kind in ("diff", "ok"):
                continue
            got = a["ok"]
            if kind == "cut":
                bad = self.judge_cut(got, want, pool)
                if bad:
                    return ("cut", k, bad)
                continue
            if kind == "res":
                if want is not None and got != want:
                    return ("res", k, "%s gave %s, expected %s" % (json.dumps(c)[:400], got, want))
                continue
            if id(want) not in cache:
                cache[id(want)] = self.s.expect(want, pool)
            d = docs.first_diff(cache[id(want)], got)
            if d:
                e = log[k]
                return ("dump", k, "slot %s after step %d %s: %s: spec %s, code %s" % (
                    c["slot"], k, json.dumps({x: e[x] for x in e if x not in ("doc", "views")})[:300], d[0], json.dumps(d[1])[:300], json.dumps(d[2])[:300]))
        return None


class CutReplayer(SaveReplayer):
    """Applies every proper prefix of every stored difference as well."""

    def at_commit(self, do, s, v, k, e):
        cmds = []
        for prep in (False, True):
            cmds += [{"op": "clone", "slot": "k_" + s, "to": "t"}, {"op": "apply", "slot": "t", "var": "cut", "prep": prep},
                     {"op": "apply", "slot": "t", "var": v}, {"op": "dump", "slot": "t", "schema": "s", "fl": 1}]
        do({"op": "cut", "var": v, "as": "cut", "cmds": cmds + [{"op": "panics"}]}, "cut", k, e["doc"])

    def judge_cut(self, groups, doc, pool):
        n = sum(len(ns) for _, ns in groups)
        self.cuts = getattr(self, "cuts", 0) + n
        for res, ns in groups:
            at = "cut to %s bytes" % ns[:5]
            for j in (0, 4):
                if "err" not in res[j + 1]:
                    return "a difference %s of %d was %s" % (at, n, "applied" if "ok" in res[j + 1] else json.dumps(res[j + 1])[:300])
                if "ok" not in res[j + 2] or "ok" not in res[j + 3]:
                    return "a difference %s was refused, but then the whole one: %s" % (at, json.dumps(res[j + 2:j + 4])[:300])
                d = docs.first_diff(self.s.expect(doc, pool), res[j + 3]["ok"])
                if d:
                    return "a difference %s was refused, but then the whole one gave at %s: spec %s, code %s" % (at, d[0], json.dumps(d[1])[:200], json.dumps(d[2])[:200])
            if res[8].get("ok"):
                return "a difference %s: panics %s" % (at, res[8]["ok"][:2])
        return None
