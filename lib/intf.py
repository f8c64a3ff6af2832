"""Generated interfaces: sources that IntfMC.tla grows, their texts, the programs that use the
accessors the specification names, and what these programs must report."""
import json, os, re, subprocess
import vp, docs, docreplay

# spellings: camel case, snake case, digits, a leading @ or _, words that are no words of Rust
NAMES = ["a", "b2", "fooBar", "foo_baz", "@mark", "_lead", "xY", "longNameOfSeveralWords", "snake_case_name", "int", "str", "float", "list", "item",
         "root", "ptr", "qv", "id", "value", "table", "mixed_caseName", "tEst", "z9", "u_1", "abc", "def", "option", "string", "vec", "names", "kind", "old",
         "mitem", "citem", "@camelCase", "aB3", "n_", "new_item", "selfish", "nullOr", "end", "p1", "p2", "p3", "p4", "p5", "q1", "q2", "q3", "q4", "r1", "r2", "r3", "r4",
         "getX", "len2", "default", "is_old", "w", "val", "v", "s", "i", "x", "y", "camelX", "obj"]
ROWS = ["r", "rowOne", "row_two", "Upper", "UPPER", "x1", "id", "first", "last", "aB", "_r", "some_Long_rowName", "k0", "k1", "k2", "None2"]

BASE = [("ml0", "ml", 0, "", "n", ""), ("in0", "mil", 1, "", "n", ""), ("ta0", "t", 0, "", "n", ""), ("tb0", "t", 0, "", "n", ""),
        ("cl0", "cl", 0, "", "n", ""), ("ci0", "cil", 5, "", "n", ""), ("tc0", "t", 0, "", "n", ""), ("fx0", "p", 0, "int", "n", "v"),
        ("fm0", "p", 1, "int", "n", "v"), ("fi0", "p", 2, "int", "n", "v"), ("fa0", "p", 3, "int", "n", "v"), ("fb0", "p", 4, "str", "q", "v"),
        ("fc0", "p", 5, "int", "n", "v"), ("fd0", "p", 6, "int", "n", "v"), ("fe0", "p", 7, "int", "n", "v")]
BASEROWS = [(3, "ra"), (3, "rb"), (4, "rc"), (7, "rd")]


def flat():
    """A member of every type, nullability and kind of default at every place."""
    out, k = list(BASE), 0
    for place in (0, 1, 2, 3, 5, 6):
        for t in docs.TN:
            for vt, dvs in (("n", "v"), ("q", "vn"), ("u", "vu"), ("qu", "vnu")):
                for dv in dvs:
                    out.append(("m%d_%sX" % (k, t), "p", place, t, vt, dv, k % 5 == 4))
                    k += 1
    return out


def tlc(ctx, exhaustive, num, steps, seed=1, base=BASE, timeout=300):
    d = ctx.scratch("icfg")
    c = {"names": [list(n) for n in NAMES], "rows": [list(n) for n in ROWS], "steps": steps,
         "base": [{"name": list(n), "k": k, "up": u, "t": t, "vt": vt, "dv": dv, "old": any(o)} for n, k, u, t, vt, dv, *o in base],
         "baserows": [{"tab": t, "name": list(n)} for t, n in BASEROWS] if base else []}
    p = os.path.join(d, "cfg.json")
    with open(p, "w") as f:
        json.dump(c, f)
    t = open(os.path.join(vp.SPEC, "IntfMC.cfg.in")).read().replace("@PICK@", "PickAll" if exhaustive else "PickOne")
    args = ["-workers", "4"] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(steps * 3), "-seed", str(seed), "-workers", "1"]
    return vp.Tlc(ctx, "IntfMC", t, env={"INTF_CFG": p}, args=args, timeout=timeout, heap="3g").wait()


class ISchema(docs.Schema):
    """The source that one trace of IntfMC stands for."""

    def __init__(self, tr, salt=0, undef=()):
        self.tr = tr
        N = [None] + tr["nodes"]
        self.N = N
        self.kids = lambda i, kinds: [j for j in range(1, len(N)) if N[j]["up"] == i and N[j]["k"] in kinds]
        self.refs = lambda i: [r for r in tr["refs"] if r["own"] == i]
        self.rows = lambda i: [r for r in tr["rows"] if r["tab"] == i]
        nm = lambda js: [N[j]["name"] for j in js]
        old = lambda js: [N[j]["name"] for j in js if N[j]["old"]]
        mlists = [j for j in range(1, len(N)) if N[j]["k"] in ("ml", "mil")]
        every = ("p", "ml", "mil", "t", "cl", "cil")
        lists, refvt, refdef = {}, [], {}
        for j in mlists:
            n = N[j]
            lists[n["name"]] = {"P": nm(self.kids(j, "p")), "subs": nm(self.kids(j, ("mil",))), "refs": [N[r["tab"]]["name"] for r in self.refs(j)],
                                "enum": n["enum"], "undef": n["vt"] == "u", "old": old(self.kids(j, every)),
                                "rold": [N[r["tab"]]["name"] for r in self.refs(j) if r["old"]]}
            for r in self.refs(j):
                t = N[r["tab"]]["name"]
                refvt.append([n["name"], t, r["vt"]])
                refdef[n["name"] + "." + t] = self.rdef(r)
        tabs = [j for j in range(1, len(N)) if N[j]["k"] == "t"]
        cfg = {"rootp": nm(self.kids(0, "p")), "rootl": nm(self.kids(0, ("ml",))), "lists": lists,
               "pdef": {n["name"]: {"t": n["t"], "vt": n["vt"], "dv": n["dv"]} for n in tr["nodes"] if n["k"] == "p"},
               "rows": {N[j]["name"]: [r["name"] for r in self.rows(j)] for j in tabs if self.rows(j)}, "clists": {}, "refvt": refvt, "refdef": refdef,
               "oldroot": old(self.kids(0, every))}
        L, I = [], []

        def walk(j, path, k):
            u = path[0] in undef
            ids = list(range(0 if u else k))
            L.append([list(path), not u, len(ids), ids])
            for i in ids:
                rs = {x: ["d"] for x in lists[N[j]["name"]]["refs"]}
                if N[j]["enum"]:    # an item of a source must have a variant
                    r, row = self.chosen(j, i)
                    rs[N[r["tab"]]["name"]] = ["v", row]
                I.append([list(path + (i,)), {x: ["d"] for x in lists[N[j]["name"]]["P"]}, rs or 0])
                for s in self.kids(j, ("mil",)):
                    walk(s, path + (i, N[s]["name"]), 0 if N[s]["old"] else i)
        for j in self.kids(0, ("ml",)):
            walk(j, (N[j]["name"],), 2)
        cfg["intf"], cfg["undefs"] = tr, list(undef)
        cfg["src"] = {"p": {x: ["d"] for x in cfg["rootp"]}, "L": L, "I": I}
        super().__init__(cfg, salt)

    # ---- constant data: every row of a table and item of a constant list gets its values by position
    def cval(self, j, k, at):
        n = self.N[j]
        h = (k * 7 + at * 3 + j) % 4
        if h == 0 or n["old"]:    # the values of old members may not be given
            return ["d"]
        if h == 1 and n["vt"] in ("q", "qu"):
            return ["n"]
        if h == 2 and n["vt"] in ("u", "qu"):
            return ["u"]
        return ["v", self.sp.val(n["t"], 3 + k + at)]

    def cref(self, r, k):
        rs = self.fresh(r["tab"])
        h = (k * 5 + r["tab"]) % 4
        if h == 0 or r["old"]:
            return ["d"]
        if h == 1 and r["vt"] in ("q", "qu"):
            return ["n"]
        if h == 2 and r["vt"] in ("u", "qu"):
            return ["u"]
        return ["v", rs[k % len(rs)]["name"]]

    def fresh(self, tab):
        """Rows that a source can refer to."""
        return [r for r in self.rows(tab) if not r["old"] and not r["name"][0].isupper()]

    def rdef(self, r):
        return [r["dv"]] if r["dv"] != "v" else ["v", self.fresh(r["tab"])[0]["name"]]

    def chosen(self, i, k):
        """The variant of an enum in item k."""
        r = self.refs(i)[k % len(self.refs(i))]
        return r, self.fresh(r["tab"])[k % len(self.fresh(r["tab"]))]["name"]

    def cdefault(self, i):
        N = self.N
        o = ["%s: %s" % (json.dumps(N[j]["name"] + docs.SUF[N[j]["vt"]]), docs.lit(N[j]["t"], self.pdefault(N[j]["name"]))) for j in self.kids(i, "p")]
        o += ['%s: ["CilDef", [%s]]' % (json.dumps(N[j]["name"]), self.cdefault(j)) for j in self.kids(i, ("cil",))]
        rs = ["%s: %s" % (json.dumps(N[r["tab"]]["name"] + docs.SUF[r["vt"]]), self.rtext(self.rdef(r))) for r in self.refs(i)]
        ro = [N[r["tab"]]["name"] for r in self.refs(i) if r["old"]]
        if rs:
            o.append("%s: { %s }" % ("Enum" if N[i]["enum"] else "Ref", ", ".join(rs + ([docs.old_obj(ro)] if ro else []))))
        od = [N[j]["name"] for j in self.kids(i, ("p", "cil")) if N[j]["old"]]
        if od:
            o.append(docs.old_obj(od))
        return "{ " + ", ".join(o) + " }"

    @staticmethod
    def rtext(v):
        return {"n": "null", "u": "undefined"}.get(v[0]) or json.dumps(v[1])

    def citem_src(self, i, k, rid=None):
        N = self.N
        o = ["ID: " + json.dumps(rid)] if rid is not None else []
        for at, j in enumerate(self.kids(i, "p")):
            v = self.cval(j, k, at)
            if v[0] != "d":
                o.append("%s: %s" % (json.dumps(N[j]["name"]), docs.lit(N[j]["t"], v)))
        for j in self.kids(i, ("cil",)):
            if N[j]["old"]:
                continue
            o.append('%s: ["Cil"%s]' % (json.dumps(N[j]["name"]), "".join(", " + self.citem_src(j, k + x) for x in range(self.ncil(k)))))
        if N[i]["enum"]:
            r, row = self.chosen(i, k)
            o.append("Enum: { %s: %s }" % (json.dumps(N[r["tab"]]["name"]), json.dumps(row)))
        else:
            rs = ["%s: %s" % (json.dumps(N[r["tab"]]["name"]), self.rtext(self.cref(r, k))) for r in self.refs(i) if self.cref(r, k)[0] != "d"]
            if rs:
                o.append("Ref: { %s }" % ", ".join(rs))
        return "{ " + ", ".join(o) + " }"

    def ncil(self, k):
        return (k + 1) % 3

    def const_src(self):
        out = []
        for j in self.kids(0, ("t", "cl")):
            n = self.N[j]
            if n["k"] == "t":
                rs = self.rows(j)
                o = [docs.old_attr([r["name"] for r in rs if r["old"]])[:-2]] + [self.citem_src(j, k, r["name"]) for k, r in enumerate(rs)]
            else:
                o = [self.citem_src(j, k) for k in range(3)]
            out.append('%s: [%s]' % (json.dumps(n["name"]), ", ".join(x for x in ['"Table"' if n["k"] == "t" else '"CList"', "[" + self.cdefault(j) + "]"] + o if x)))
        return out

    # ---- what the program must report
    def cexpect(self, i, k, deep=True):
        N = self.N
        o = {"p": {}, "d": {}, "c": {}, "r": {}, "x": {}}
        for at, j in enumerate(self.kids(i, "p")):
            n = N[j]["name"]
            v = self.cval(j, k, at)
            o["d"][n] = self.pdefault(n)
            o["p"][n] = self.pdefault(n) if v[0] == "d" else v
        if not deep:
            return {"p": o["p"]}
        for j in self.kids(i, ("cil",)):
            o["c"][N[j]["name"]] = [] if N[j]["old"] else [self.cexpect(j, k + x) for x in range(self.ncil(k))]
        if N[i]["enum"]:
            r, row = self.chosen(i, k)
            o["e"] = [N[r["tab"]]["name"], row]
            o["x"]["Enum"] = [N[r["tab"]]["name"], self.rowshort(r["tab"], row)]
        else:
            for r in self.refs(i):
                t = N[r["tab"]]["name"]
                v = self.cref(r, k)
                v = self.rdef(r) if v[0] == "d" else v
                o["r"][t] = v
                o["x"][t] = ["v", self.rowshort(r["tab"], v[1])] if v[0] == "v" else v
        return o

    def rowshort(self, tab, row):
        return self.cexpect(tab, [r["name"] for r in self.rows(tab)].index(row), False)

    def consts(self):
        N = self.N
        cl = {N[j]["name"]: [self.cexpect(j, k) for k in range(3)] for j in self.kids(0, ("cl",))}
        tb = {}
        for j in self.kids(0, ("t",)):
            rs = self.rows(j)
            d = {r["name"]: self.cexpect(j, k) for k, r in enumerate(rs)}
            tb[N[j]["name"]] = {"rows": d, "ids": {"n": len(rs), "ok": True, "by": d}}
        return cl, tb

    def expect(self, doc, pool, fl=False):
        o = super().expect(doc, pool, False)
        bytab = {self.N[j]["name"]: j for j in range(1, len(self.N)) if self.N[j]["k"] == "t"}

        def fill(it, l):
            it["d"] = {n: self.pdefault(n) for n in it["p"]}
            d = self.c["lists"][l]
            r = it.pop("r", {})
            it["r"], it["x"] = {}, {}
            if d["enum"]:
                e = it.pop("e")
                if e:
                    it["e"] = e
                    it["x"]["Enum"] = [e[0], self.rowshort(bytab[e[0]], e[1])]
            else:
                for t, v in r.items():
                    it["r"][t] = v
                    it["x"][t] = ["v", self.rowshort(bytab[t], v[1])] if v[0] == "v" else v
            for s, ml in it["m"].items():
                if ml:
                    for _, x in ml["i"]:
                        fill(x, s)
        for l, ml in o["m"].items():
            if ml:
                for _, x in ml["i"]:
                    fill(x, l)
        o["d"] = {n: self.pdefault(n) for n in o["p"]}
        return o

    # ---- the program
    def uses(self):
        """Every function the interface must offer, used with the type the specification gives it."""
        return "#![allow(unused)]\nuse super::intf::*;\nuse dochy::core::intf::*;\nuse dochy::core::structs::*;\npub fn uses() {\n%s\n}\n" % "\n".join(
            "  { let _x: %s = %s::%s; }" % (f["ty"], f["on"], f["fn"]) for f in self.tr["fns"])

    def program(self):
        """Reads and edits a document through the generated functions (see intf_prelude.rs)."""
        N = self.N
        q = json.dumps
        o = ["#![allow(unused, unused_mut, unused_variables)]", "use super::intf::*;", "use crate::prelude::*;", "use crate::json::*;",
             "use dochy::core::intf::*;", "use dochy::core::structs::*;"]

        def params(i, root="o"):
            for j in self.kids(i, "p"):
                n = N[j]
                o.append("  p.push((%s.to_string(), v_%s(it.%s()))); d.push((%s.to_string(), v_%s(it.%s_def_val())));" % (q(n["name"]), n["vt"], n["fn"], q(n["name"]), n["vt"], n["fn"]))

        def citem(i):
            n = N[i]
            o.append("pub fn c_%d(it: &%s, deep: bool) -> J {\n  let (mut p, mut d, mut c, mut r, mut x) = (vec![], vec![], vec![], vec![], vec![]);" % (i, n["ty"]))
            params(i)
            o.append("  if !deep { return obj(vec![(\"p\", p)]); }")
            for j in self.kids(i, ("cil",)):
                o.append("  { let l = it.%s(); c.push((%s.to_string(), clist(&l, |y| c_%d(y, true)))); }" % (N[j]["fn"], q(N[j]["name"]), j))
            refs(i)
            o.append("}")

        def refs(i):
            n = N[i]
            extra = ', ("m", m)' if n["k"] in ("ml", "mil") else ', ("c", c)'
            if n["enum"]:
                o.append("  let e = ids(|| it.get_enum_ids());")
                o.append("  let mut out = vec![(\"p\", p), (\"d\", d), (\"r\", r)%s];" % extra)
                o.append("  if let Some((t, w)) = e { x.push((\"Enum\".to_string(), match it.get_enum() {")
                for r in self.refs(i):
                    o.append("    %s::%s(y) => J::Arr(vec![st(%s), c_%d(&y, false)])," % (n["camel"] + "Enum", N[r["tab"]]["camel"], q(N[r["tab"]]["name"]), r["tab"]))
                o.append("  })); out.push((\"x\", x)); let mut b = obj(out); add(&mut b, \"e\", J::Arr(vec![st(t), st(w)])); b }")
                o.append("  else { out.push((\"x\", x)); obj(out) }")
            else:
                for r in self.refs(i):
                    t = N[r["tab"]]["name"]
                    o.append("  r.push((%s.to_string(), v_%s(it.ref_id_%s()))); x.push((%s.to_string(), w_%s(it.ref_%s(), |y| c_%d(y, false))));" % (
                        q(t), r["vt"], r["fn"], q(t), r["vt"], r["fn"], r["tab"]))
                o.append("  obj(vec![(\"p\", p), (\"d\", d), (\"r\", r), (\"x\", x)%s])" % extra)

        def mlist_out(j, owner):
            n = N[j]
            if n["vt"] == "u":
                return "match %s.%s() { Some(l) => mlist(&l, |y| m_%d(y)), None => J::Null }" % (owner, n["fn"], j)
            return "{ let l = %s.%s(); mlist(&l, |y| m_%d(y)) }" % (owner, n["fn"], j)

        def mitem(i):
            n = N[i]
            o.append("pub fn m_%d(it: &%s) -> J {\n  let (mut p, mut d, mut m, mut r, mut x) = (vec![], vec![], vec![], vec![], vec![]);" % (i, n["ty"]))
            params(i)
            for j in self.kids(i, ("mil",)):
                o.append("  m.push((%s.to_string(), %s));" % (q(N[j]["name"]), mlist_out(j, "it")))
            refs(i)
            o.append("}")

        def writes(i):
            """Arms of an edit of the root or an item."""
            for j in self.kids(i, "p"):
                n = N[j]
                o.append("    (\"set\", %s) => { if how == \"mut\" { %s } else { it.set_%s(i_%s(v)) }; J::Bool(true) }" % (
                    q(n["name"]), "p_%s(it.%s_mut(), v)" % (n["vt"], n["fn"]) if n["t"] in ("str", "ia", "fa", "bin") else "unreachable!()", n["fn"], n["vt"]))
            if i and N[i]["enum"]:
                for r in self.refs(i):
                    o.append("    (\"ref\", %s) => { it.set_enum(%s::%s(%s::from_str(c.get(\"row\").s()).unwrap())); J::Bool(true) }" % (
                        q(N[r["tab"]]["name"]), N[i]["camel"] + "Kind", N[r["tab"]]["camel"], N[r["tab"]]["ids"]))
            elif i:
                for r in self.refs(i):
                    o.append("    (\"ref\", %s) => { it.set_ref_%s(k_%s(v, |z| %s::from_str(z).unwrap())); J::Bool(true) }" % (
                        q(N[r["tab"]]["name"]), r["fn"], r["vt"], N[r["tab"]]["ids"]))

        def nav(i):
            for j in self.kids(i, ("ml", "mil")):
                o.append("    %s => { let mut l = it.%s_mut(); if path.len() == 1 { return list_op(&mut l, c); } let mut y = l.get_mut(path[1].i() as u64).expect(\"item\"); e_%d(&mut *y, &path[2..], c) }" % (
                    q(N[j]["name"]), N[j]["fn"], j))

        def edit(i):
            o.append("pub fn e_%d(it: &mut %s, path: &[J], c: &J) -> J {" % (i, N[i]["ty"] if i else "RootIntf"))
            o.append("  if path.is_empty() { let v = c.get(\"v\"); let how = if c.get(\"how\").is_null() { \"\" } else { c.get(\"how\").s() };\n  return match (c.get(\"op\").s(), c.get(\"name\").s()) {")
            writes(i)
            o.append("    _ => panic!(\"protocol: member\") }; }")
            o.append("  match path[0].s() {")
            nav(i)
            o.append("    _ => panic!(\"protocol: list\") }\n}")

        for i in range(1, len(N)):
            if N[i]["k"] in ("t", "cl", "cil"):
                citem(i)
            elif N[i]["k"] in ("ml", "mil"):
                mitem(i)
                edit(i)
        edit(0)
        o.append("pub fn dump(it: &RootIntf) -> J {\n  let (mut p, mut d, mut m, mut cs, mut t) = (vec![], vec![], vec![], vec![], vec![]);")
        params(0)
        for j in self.kids(0, ("ml",)):
            o.append("  m.push((%s.to_string(), %s));" % (q(N[j]["name"]), mlist_out(j, "it")))
        for j in self.kids(0, ("cl",)):
            o.append("  { let l = it.%s(); cs.push((%s.to_string(), clist(&l, |y| c_%d(y, true)))); }" % (N[j]["fn"], q(N[j]["name"]), j))
        for j in self.kids(0, ("t",)):
            n = N[j]
            o.append("  { let t_ = it.%s(); let mut rows = vec![]; let mut by = vec![]; let mut ok = true; type K = %s;" % (n["fn"], n["ids"]))
            for r in self.rows(j):
                o.append("    { let w = t_.%s(); rows.push((%s.to_string(), c_%d(&w, true))); ok &= c_%d(&unsafe { t_.%s_us() }, true) == c_%d(&w, true); ok &= K::%s.to_str() == %s; }" % (
                    r["fn"], q(r["name"]), j, j, r["fn"], j, r["var"], q(r["name"])))
            if self.rows(j):
                o.append("    for k in 0..K::len() { let s = K::metadata()[k]; ok &= K::from_num(k).to_num() == k && K::from_num(k).to_str() == s && K::from_str(s).map(|z| z.to_num()) == Some(k); let w = t_.get_by_id(K::from_num(k)); by.push((s.to_string(), c_%d(&w, true))); }" % j)
            o.append("    ok &= K::from_str(\"no such row\").is_none() && K::metadata().len() == K::len();")
            o.append("    t.push((%s.to_string(), J::Obj(vec![(\"rows\".to_string(), J::Obj(rows)), (\"ids\".to_string(), ob(vec![(\"n\", J::Int(K::len() as i128)), (\"ok\", J::Bool(ok)), (\"by\", J::Obj(by))]))]))); }" % q(n["name"]))
        o.append("  obj(vec![(\"p\", p), (\"d\", d), (\"m\", m), (\"c\", cs), (\"t\", t)])\n}")
        return "\n".join(o) + "\n"


MAIN = r'''mod json; mod prelude;
%s
use json::*;
use dochy::core::structs::RootObject;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
struct F<R> { new: fn(RootObject) -> R, obj: fn(&R) -> &RootObject, into: fn(R) -> RootObject, dump: fn(&R) -> J, edit: fn(&mut R, &[J], &J) -> J }
fn exec<R>(m: &mut HashMap<String, R>, f: &F<R>, c: &J) -> Result<J, String> {
    let key = |k: &str| c.get(k).s().to_string();
    match c.get("op").s() {
        "schema" => {}
        "src" => { let r = dochy::core::json_dir_to_root(c.get("dir").s(), c.get("validation").b()).map_err(|e| e.to_string())?; m.insert(key("to"), (f.new)(r)); }
        "adjust" => { let n = (f.into)(m.remove(c.get("new").s()).unwrap()); let o = (f.into)(m.remove(c.get("old").s()).unwrap());
            let r = dochy::core::adjust_versions(n, o, true).map_err(|e| e.to_string())?; m.insert(key("to"), (f.new)(r)); }
        "clone" => { let r = (f.obj)(&m[c.get("slot").s()]).clone(); m.insert(key("to"), (f.new)(r)); }
        "drop" => return Ok(J::Bool(m.remove(c.get("slot").s()).is_some())),
        "dump" => return Ok((f.dump)(&m[c.get("slot").s()])),
        _ => return Ok((f.edit)(m.get_mut(c.get("slot").s()).unwrap(), c.get("path").a(), c)),
    }
    Ok(J::Bool(true))
}
fn safe<R>(m: &mut HashMap<String, R>, f: &F<R>, c: &J) -> J {
    match catch_unwind(AssertUnwindSafe(|| exec(m, f, c))) {
        Ok(Ok(j)) => ob(vec![("ok", j)]),
        Ok(Err(e)) => ob(vec![("err", st(e))]),
        Err(p) => ob(vec![("panic", st(if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "?".to_string() }))]),
    }
}
fn serve<R>(f: F<R>) {
    let mut m = HashMap::new();
    for line in std::io::stdin().lock().lines() {
        let c = json::parse(&line.unwrap()).expect("protocol");
        let r = if let J::Arr(v) = &c { J::Arr(v.iter().map(|x| safe(&mut m, &f, x)).collect()) } else { safe(&mut m, &f, &c) };
        println!("{}", r.text()); std::io::stdout().flush().unwrap();
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    match std::env::args().nth(1).unwrap().as_str() {
%s
        _ => panic!("which"),
    }
}
'''


def rlibs(_c=[]):
    """Files of the libraries the driver was built from."""
    if not _c:
        r = subprocess.run(["bash", os.path.join(vp.VERIF, "harness/build.sh"), "--message-format=json"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        d = {}
        for l in r.stdout.decode("utf8", "replace").splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("reason") == "compiler-artifact":
                    for f in j["filenames"]:
                        if f.endswith(".rlib"):
                            d[j["target"]["name"]] = f
        if "dochy" not in d:
            raise vp.ToolError("no library files from cargo")
        _c.append(d)
    return _c[0]


def generate(ctx, schemas):
    """The interface texts that the code under test generates: [(dir, text or None, error)]."""
    def work(part):
        out = []
        with vp.Drv() as d:
            for s in part:
                dr = s.write(ctx.scratch("isrc"))
                a = d({"op": "intf", "dir": dr})
                out.append((dr, a.get("ok"), None if "ok" in a else json.dumps(a)[:600]))
        return out
    n = max(1, min(vp.NCPU, len(schemas) // 8))
    parts = vp.pfork(work, [schemas[i::n] for i in range(n)])
    return [parts[i % n][i // n] for i in range(len(schemas))]


def crate(ctx, members, run):
    """Writes and compiles one crate. members: [(number, schema, text)]; run: a program, not only a type check.
    Returns (program or None, {number: errors})."""
    d = ctx.scratch("crate")
    mods, arms = [], []
    for k, s, text in members:
        m = os.path.join(d, "s%d" % k)
        os.makedirs(m)
        files = {"intf.rs": text, "uses.rs": s.uses(), "mod.rs": "pub mod intf; pub mod uses;" + (" pub mod prog;" if run else "")}
        if run:
            files["prog.rs"] = s.program()
        for f, x in files.items():
            with open(os.path.join(m, f), "w") as fh:
                fh.write(x)
        mods.append("mod s%d;" % k)
        arms.append('        "%d" => serve(F { new: s%d::intf::RootIntf::new, obj: s%d::intf::RootIntf::root_obj_ref, into: s%d::intf::RootIntf::deconstruct, dump: s%d::prog::dump, edit: s%d::prog::e_0 }),' % ((k,) * 6))
    with open(os.path.join(d, "main.rs"), "w") as fh:
        fh.write(MAIN % ("\n".join(mods), "\n".join(arms)) if run else "#![allow(unused)]\n" + "\n".join(mods) + "\nfn main() {}\n")
    for a, b in (("src/json.rs", "json.rs"), ("intf_prelude.rs", "prelude.rs")):
        with open(os.path.join(vp.VERIF, "harness", a)) as f, open(os.path.join(d, b), "w") as g:
            g.write("#![allow(unused)]\n" + f.read().replace("//!", "//"))
    L = rlibs()
    e = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2022-05-20-x86_64-unknown-linux-gnu")
    e["PATH"] = "/usr/local/bin:/root/.cargo/bin:" + e["PATH"]
    cmd = ["rustc", "--edition", "2018", "--crate-name", "prog", "--error-format=json", "--cap-lints", "allow", "-C", "debuginfo=0",
           "-L", "dependency=" + os.path.dirname(L["dochy"]), "--extern", "dochy=" + L["dochy"], "main.rs"]
    cmd += ["-o", "prog", "-C", "codegen-units=4"] if run else ["--emit=metadata", "-o", "prog.rmeta"]
    r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    errs = {}
    if r.returncode:
        for l in r.stderr.decode("utf8", "replace").splitlines():
            try:
                j = json.loads(l)
            except ValueError:
                continue
            if j.get("level") != "error" or not j.get("spans"):
                continue
            m = re.match(r"s(\d+)/(intf|uses|prog)\.rs", j["spans"][0]["file_name"])
            if not m:
                raise vp.ToolError("compiling a program failed: %s" % j.get("rendered"))
            sp = j["spans"][0]
            errs.setdefault(int(m[1]), []).append("%s.rs:%d: %s: `%s`" % (m[2], sp["line_start"], j["message"], sp["text"][0]["text"].strip() if sp["text"] else ""))
        if not errs:
            raise vp.ToolError("rustc failed: " + r.stderr.decode("utf8", "replace")[-2000:])
    return (os.path.join(d, "prog") if run and not errs else None), errs


class IReplayer(docreplay.Replayer):
    """Replays behaviours of DocEdit.tla through the generated functions; cfg["prog"] is the compiled program."""
    views = False

    def schema(self, cfg, salt, rootl=None):
        s = ISchema(cfg["intf"], salt, cfg["undefs"])
        if rootl is not None:
            s.c = dict(s.c, rootl=rootl, oldroot=[n for n in s.c["oldroot"] if n in rootl or n not in s.c["lists"]])
        return s

    def driver(self):
        return vp.Drv(cmd=[self.cfg["prog"][0], str(self.cfg["prog"][1])])

    def cmd(self, e, pool, rng):
        if e["op"] == "set" and e["how"] == "init":
            e = dict(e, how="set")
        return super().cmd(e, pool, rng)
