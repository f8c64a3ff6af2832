//! Document operations through the public accessor interface.
use crate::json::*;
use dochy_core::intf::*;
use dochy_core::intf::{citem, mitem, root, table};
use dochy_core::structs::*;

pub type R = Result<J, String>;
type ML = MListPtr<MItemPtr>;

pub fn hexb(b: &[u8]) -> String { let mut s = String::with_capacity(b.len() * 2); for x in b { s.push_str(&format!("{:02x}", x)); } s }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("protocol: hex")).collect() }
pub fn fhex(f: f64) -> J { st(format!("{:016x}", f.to_bits())) }
pub fn unf(j: &J) -> f64 { f64::from_bits(u64::from_str_radix(j.s(), 16).expect("protocol: float bits")) }

fn qv<T>(q: Qv<T>, f: impl Fn(T) -> J) -> J {
    match q { Qv::Val(v) => J::Arr(vec![st("v"), f(v)]), Qv::Null => J::Arr(vec![st("n")]), Qv::Undefined => J::Arr(vec![st("u")]) }
}
fn unqv<T>(j: &J, f: impl Fn(&J) -> T) -> Qv<T> {
    match j.a()[0].s() { "v" => Qv::Val(f(&j.a()[1])), "n" => Qv::Null, "u" => Qv::Undefined, x => panic!("protocol: qv {}", x) }
}
fn ji(v: i64) -> J { J::Int(v as i128) }
fn jia(v: &Vec<i64>) -> J { J::Arr(v.iter().map(|x| ji(*x)).collect()) }
fn jfa(v: &Vec<f64>) -> J { J::Arr(v.iter().map(|x| fhex(*x)).collect()) }
fn opt(o: Option<J>) -> J { o.unwrap_or(J::Null) }

pub fn param(p: &RustParam) -> J {
    match p {
        RustParam::Bool(q) => qv(q.as_ref(), |b| J::Bool(*b)),
        RustParam::Int(q) => qv(q.as_ref(), |i| ji(*i)),
        RustParam::Float(q) => qv(q.as_ref(), |f| fhex(*f)),
        RustParam::String(q) => qv(q.as_ref(), |s| st(s.str())),
        RustParam::IntArray(q) => qv(q.as_ref(), |v| jia(v.vec())),
        RustParam::FloatArray(q) => qv(q.as_ref(), |v| jfa(v.vec())),
        RustParam::Binary(q) => qv(q.as_ref(), |v| st(hexb(v.vec()))),
    }
}
pub fn unparam(t: &str, v: &J) -> RustParam {
    match t {
        "bool" => RustParam::Bool(unqv(v, |x| x.b())),
        "int" => RustParam::Int(unqv(v, |x| x.i() as i64)),
        "float" => RustParam::Float(unqv(v, unf)),
        "str" => RustParam::String(unqv(v, |x| RustString::new(x.s().to_string()))),
        "ia" => RustParam::IntArray(unqv(v, |x| RustIntArray::new(x.a().iter().map(|y| y.i() as i64).collect()))),
        "fa" => RustParam::FloatArray(unqv(v, |x| RustFloatArray::new(x.a().iter().map(unf).collect()))),
        "bin" => RustParam::Binary(unqv(v, |x| RustBinary::new(unhex(x.s())))),
        t => panic!("protocol: type {}", t),
    }
}

pub fn ptr(r: &RootObject) -> RootObjectPtr { RootObjectPtr::new(r as *const RootObject as *mut RootObject) }
pub fn ptr_mut(r: &mut RootObject) -> RootObjectPtr { RootObjectPtr::new(r as *mut RootObject) }

macro_rules! getters { ($name:ident, $m:ident, $p:ty) => {
    fn $name(p: $p, name: &str, t: &str, how: &str) -> J {
        match (t, how) {
            ("bool", "cur") => opt($m::get_bool(p, name).map(|q| qv(q, J::Bool))),
            ("bool", "def") => opt($m::get_bool_def(p, name).map(|q| qv(q, J::Bool))),
            ("int", "cur") => opt($m::get_int(p, name).map(|q| qv(q, ji))),
            ("int", "def") => opt($m::get_int_def(p, name).map(|q| qv(q, ji))),
            ("float", "cur") => opt($m::get_float(p, name).map(|q| qv(q, fhex))),
            ("float", "def") => opt($m::get_float_def(p, name).map(|q| qv(q, fhex))),
            ("str", "cur") => opt($m::get_str(p, name).map(|q| qv(q, |s| st(s)))),
            ("str", "def") => opt($m::get_str_def(p, name).map(|q| qv(q, |s| st(s.as_str())))),
            ("str", "imm") => opt($m::get_immutable_str(p, name).map(|q| qv(q, |s| st(s.as_str())))),
            ("ia", "cur") => opt($m::get_int_array(p, name).map(|q| qv(q, |v| jia(&v)))),
            ("ia", "def") => opt($m::get_int_array_def(p, name).map(|q| qv(q, jia))),
            ("ia", "imm") => opt($m::get_immutable_int_array(p, name).map(|q| qv(q, jia))),
            ("fa", "cur") => opt($m::get_float_array(p, name).map(|q| qv(q, |v| jfa(&v)))),
            ("fa", "def") => opt($m::get_float_array_def(p, name).map(|q| qv(q, jfa))),
            ("fa", "imm") => opt($m::get_immutable_float_array(p, name).map(|q| qv(q, jfa))),
            ("bin", "cur") => opt($m::get_binary(p, name).map(|q| qv(q, |v| st(hexb(&v))))),
            ("bin", "def") => opt($m::get_binary_def(p, name).map(|q| qv(q, |v| st(hexb(v))))),
            ("bin", "imm") => opt($m::get_immutable_binary(p, name).map(|q| qv(q, |v| st(hexb(v))))),
            (_, "imm") | (_, "param") => opt($m::get_param(p, name).map(param)),
            (_, "pdef") => opt($m::get_param_def(p, name).map(param)),
            (t, h) => panic!("protocol: get {} {}", t, h),
        }
    }
} }
getters!(rget, root, RootObjectPtr);
getters!(mget, mitem, MItemPtr);
getters!(cget, citem, CItemPtr);

macro_rules! setters { ($name:ident, $m:ident, $p:ty) => {
    fn $name(p: $p, name: &str, t: &str, v: &J, how: &str) -> R {
        Ok(J::Bool(match (t, how) {
            ("bool", "set") => $m::set_bool(p, name, unqv(v, |x| x.b())),
            ("int", "set") => $m::set_int(p, name, unqv(v, |x| x.i() as i64)),
            ("float", "set") => $m::set_float(p, name, unqv(v, unf)),
            ("str", "set") => $m::set_str(p, name, unqv(v, |x| x.s().to_string())),
            ("ia", "set") => $m::set_int_array(p, name, unqv(v, |x| x.a().iter().map(|y| y.i() as i64).collect())),
            ("fa", "set") => $m::set_float_array(p, name, unqv(v, |x| x.a().iter().map(unf).collect())),
            ("bin", "set") => $m::set_binary(p, name, unqv(v, |x| unhex(x.s()))),
            (t, "sabun") => $m::set_sabun(p, name, unparam(t, v)),
            (t, "pmut") => {
                // overwrite in place through the mutable reference (the caller passes an allowed value)
                match $m::get_param_mut(p, name) { Some(r) => { *r = unparam(t, v); true } None => false }
            }
            ("str", "mut") => match $m::get_mutable_str(p, name) {
                Some(Qv::Val(r)) => { *r = v.a()[1].s().to_string(); true } _ => return Ok(st("no value")) },
            ("ia", "mut") => match $m::get_mutable_int_array(p, name) {
                Some(Qv::Val(r)) => { r.clear(); r.extend(v.a()[1].a().iter().map(|y| y.i() as i64)); true } _ => return Ok(st("no value")) },
            ("fa", "mut") => match $m::get_mutable_float_array(p, name) {
                Some(Qv::Val(r)) => { r.clear(); r.extend(v.a()[1].a().iter().map(unf)); true } _ => return Ok(st("no value")) },
            ("bin", "mut") => match $m::get_mutable_binary(p, name) {
                Some(Qv::Val(r)) => { *r = unhex(v.a()[1].s()); true } _ => return Ok(st("no value")) },
            (_, "init") => $m::set_initial_value(p, name, v.i() as usize),
            (t, h) => panic!("protocol: set {} {}", t, h),
        }))
    }
} }
setters!(rset, root, RootObjectPtr);
setters!(mset, mitem, MItemPtr);

// ---- navigation -------------------------------------------------------------------------

fn list_const(r: RootObjectPtr, path: &[J]) -> Result<Option<ML>, String> {
    let n = path[0].s();
    let mut l: Option<ML> = root::get_mlist_const(r, n).ok_or(format!("no list {}", n))?;
    let mut k = 1;
    while k < path.len() {
        let lp = l.ok_or("undefined list".to_string())?;
        let it = lp.get_item_const(path[k].i() as u64).ok_or(format!("no item {}", path[k].i()))?;
        l = mitem::get_mil_const(it, path[k + 1].s()).ok_or(format!("no inner list {}", path[k + 1].s()))?;
        k += 2;
    }
    Ok(l)
}
fn list_mut(r: RootObjectPtr, path: &[J]) -> Result<ML, String> {
    let n = path[0].s();
    let mut l: ML = root::get_mlist_mut(r, n).ok_or(format!("no list {}", n))?;
    let mut k = 1;
    while k < path.len() {
        let it = l.get_item_mut(path[k].i() as u64).ok_or(format!("no item {}", path[k].i()))?;
        l = mitem::get_mil_mut(it, path[k + 1].s()).ok_or(format!("no inner list {}", path[k + 1].s()))?;
        k += 2;
    }
    Ok(l)
}
fn item_const(r: RootObjectPtr, path: &[J]) -> Result<MItemPtr, String> {
    let l = list_const(r, &path[..path.len() - 1])?.ok_or("undefined list".to_string())?;
    let id = path[path.len() - 1].i() as u64;
    l.get_item_const(id).ok_or(format!("no item {}", id))
}
fn item_mut(r: RootObjectPtr, path: &[J]) -> Result<MItemPtr, String> {
    let mut l = list_mut(r, &path[..path.len() - 1])?;
    let id = path[path.len() - 1].i() as u64;
    l.get_item_mut(id).ok_or(format!("no item {}", id))
}

pub fn get(r: &RootObject, c: &J) -> R {
    let (name, t, how) = (c.get("name").s(), c.get("t").s(), c.get("how").s());
    let path = c.get("path").a();
    if path.len() == 0 { return Ok(rget(ptr(r), name, t, how)); }
    Ok(mget(item_const(ptr(r), path)?, name, t, how))
}
pub fn set(r: &mut RootObject, c: &J) -> R {
    let (name, t, how, v) = (c.get("name").s(), c.get("t").s(), c.get("how").s(), c.get("v"));
    let path = c.get("path").a();
    if path.len() == 0 { return rset(ptr_mut(r), name, t, v, how); }
    mset(item_mut(ptr_mut(r), path)?, name, t, v, how)
}
fn idj(o: Option<u64>) -> J { match o { Some(i) => J::Int(i as i128), None => J::Null } }

pub fn list_op(r: &mut RootObject, c: &J) -> R {
    let path = c.get("path").a();
    let what = c.get("what").s();
    let id = || c.get("id").i() as u64;
    let other = || c.get("other").i() as u64;
    if what == "define" { list_mut(ptr_mut(r), path)?; return Ok(J::Bool(true)); }
    let mut l = list_mut(ptr_mut(r), path)?;
    if c.get("api").is_null() || c.get("api").s() == "ptr" {
        Ok(match what {
            "insert" => { let before = l.next_id(); l.insert(); J::Int(before as i128) }
            "insert_last" => { let before = l.next_id(); l.insert_last(); J::Int(before as i128) }
            "insert_first" => { let before = l.next_id(); l.insert_first(); J::Int(before as i128) }
            "remove" => J::Bool(unsafe { l.remove(id()) }),
            "remove_first" => J::Bool(unsafe { l.remove_first() }),
            "remove_last" => J::Bool(unsafe { l.remove_last() }),
            "move_first" => J::Bool(l.move_to_first(id())),
            "move_last" => J::Bool(l.move_to_last(id())),
            "move_prev" => J::Bool(l.move_to_prev(other(), id())),
            "move_next" => J::Bool(l.move_to_next(other(), id())),
            w => panic!("protocol: list op {}", w),
        })
    } else {
        let mut dummy = 0;
        let mut l = MListMut::new(l, &mut dummy);
        Ok(match what {
            "insert" => { let before = l.next_id(); l.insert(); J::Int(before as i128) }
            "insert_last" => { let before = l.next_id(); l.insert_last(); J::Int(before as i128) }
            "insert_first" => { let before = l.next_id(); l.insert_first(); J::Int(before as i128) }
            "remove" => J::Bool(l.remove(id())),
            "remove_first" => J::Bool(l.remove_first()),
            "remove_last" => J::Bool(l.remove_last()),
            "move_first" => J::Bool(l.move_to_first(id())),
            "move_last" => J::Bool(l.move_to_last(id())),
            "move_prev" => J::Bool(l.move_to_prev(other(), id())),
            "move_next" => J::Bool(l.move_to_next(other(), id())),
            w => panic!("protocol: list op {}", w),
        })
    }
}

/// Every read view of one list: all of them must describe the same sequence.
pub fn list_views(r: &mut RootObject, c: &J) -> R {
    let path = c.get("path").a();
    let probe: Vec<u64> = c.get("probe").a().iter().map(|x| x.i() as u64).collect();
    let mut out: Vec<(&str, J)> = vec![];
    let limit = 10000;
    let l = match list_const(ptr(r), path)? { None => return Ok(J::Null), Some(l) => l };
    let arr = |v: Vec<u64>| J::Arr(v.into_iter().map(|i| J::Int(i as i128)).collect());
    let mut v = vec![]; let mut it = l.iter_const(); while let Some((id, _)) = it.next_const() { v.push(id); if v.len() > limit { break; } }
    out.push(("fwd", arr(v)));
    let mut v = vec![]; let mut it = l.iter_from_last_const(); while let Some((id, _)) = it.prev_const() { v.push(id); if v.len() > limit { break; } }
    out.push(("bwd", arr(v)));
    out.push(("first", idj(l.first_id())));
    out.push(("last", idj(l.last_id())));
    out.push(("len", J::Int(l.len() as i128)));
    out.push(("empty", J::Bool(l.is_empty())));
    out.push(("next", J::Int(l.next_id() as i128)));
    out.push(("has_first", J::Bool(l.first_const().is_some())));
    out.push(("has_last", J::Bool(l.last_const().is_some())));
    out.push(("has", J::Arr(probe.iter().map(|i| J::Bool(l.contains_key(*i))).collect())));
    out.push(("item", J::Arr(probe.iter().map(|i| J::Bool(l.get_item_const(*i).is_some())).collect())));
    let mut f = vec![];
    for i in &probe {
        match l.iter_from_id_const(*i) {
            None => f.push(J::Null),
            Some(mut it) => {
                let isf = it.is_first(); let isl = it.is_last(); let av = it.is_available();
                let cur = it.current_const().map(|x| x.0);
                let mut v = vec![]; while let Some((id, _)) = it.next_const() { v.push(id); if v.len() > limit { break; } }
                let mut b = vec![]; let mut it = l.iter_from_id_const(*i).unwrap(); while let Some((id, _)) = it.prev_const() { b.push(id); if b.len() > limit { break; } }
                f.push(J::Arr(vec![idj(cur), J::Bool(av), J::Bool(isf), J::Bool(isl), arr(v), arr(b)]));
            }
        }
    }
    out.push(("from", J::Arr(f)));
    // the borrowing wrappers used by generated accessors
    {
        let d = 0;
        let k = MListConst::new(l, &d);
        let v: Vec<u64> = k.iter().map(|x| x.0).take(limit).collect();
        out.push(("cfwd", arr(v)));
        let mut v = vec![]; let mut it = k.iter_from_last(); while let Some((id, _)) = it.prev() { v.push(id); if v.len() > limit { break; } }
        out.push(("cbwd", arr(v)));
        out.push(("cends", J::Arr(vec![idj(k.first_id()), idj(k.last_id()), J::Int(k.len() as i128), J::Bool(k.first().is_some()), J::Bool(k.last().is_some())])));
        out.push(("chas", J::Arr(probe.iter().map(|i| J::Bool(k.contains_key(*i) && k.get_item(*i).is_some())).collect())));
        let mut f = vec![];
        for i in &probe {
            f.push(match k.iter_from_id(*i) { None => J::Null, Some(mut it) => {
                let mut v = vec![]; while let Some((id, _)) = it.next() { v.push(id); if v.len() > limit { break; } } arr(v) } });
        }
        out.push(("cfrom", J::Arr(f)));
    }
    if c.get("mut").bo(true) {
        let mut d = 0;
        let lm = list_mut(ptr_mut(r), path)?;
        let mut k = MListMut::new(lm, &mut d);
        let v: Vec<u64> = k.iter().map(|x| x.0).take(limit).collect();
        out.push(("mfwd", arr(v)));
        out.push(("mends", J::Arr(vec![idj(k.first_id()), idj(k.last_id()), J::Int(k.len() as i128), J::Bool(k.first_mut().is_some()), J::Bool(k.last_mut().is_some())])));
        // walk to the last item, then back with prev: exercises the mutable iterator's prev
        let mut it = k.iter();
        let mut bk = vec![];
        let mut steps = 0;
        while it.is_available() && !it.is_last() && steps < limit { it.next(); steps += 1; }
        while let Some((id, _)) = it.prev() { bk.push(id); if bk.len() > limit { break; } }
        out.push(("mbwd", arr(bk)));
        let mut lm = list_mut(ptr_mut(r), path)?;
        let mut v = vec![]; let mut it = lm.iter_from_last_mut(); while let Some((id, _)) = it.prev_mut() { v.push(id); if v.len() > limit { break; } }
        out.push(("pmbwd", arr(v)));
        let mut f = vec![];
        for i in &probe {
            f.push(match lm.iter_from_id_mut(*i) { None => J::Null, Some(mut it) => {
                let mut v = vec![]; while let Some((id, _)) = it.next_mut() { v.push(id); if v.len() > limit { break; } } arr(v) } });
        }
        out.push(("pmfrom", J::Arr(f)));
    }
    Ok(ob(out))
}

/// Edits a list through one mutable iterator pass: the item under the iterator is
/// given a value; used to see that an iterator hands out the item of the id it names.
pub fn iter_set(r: &mut RootObject, c: &J) -> R {
    let l = list_mut(ptr_mut(r), c.get("path").a())?;
    let mut d = 0;
    let mut k = MListMut::new(l, &mut d);
    let (name, t) = (c.get("name").s(), c.get("t").s());
    let vals = c.get("vals").a();
    let mut n = 0;
    for (_, it) in k.iter() {
        if n >= vals.len() { break; }
        mset(*it, name, t, &vals[n], "set")?;
        n += 1;
    }
    Ok(J::Int(n as i128))
}

pub fn ref_op(r: &mut RootObject, c: &J) -> R {
    let path = c.get("path").a();
    match c.get("what").s() {
        "set" => { let it = item_mut(ptr_mut(r), path)?; Ok(J::Bool(mitem::set_ref(it, c.get("name").s(), unqv(c.get("v"), |x| x.s().to_string())))) }
        "get" => { let it = item_const(ptr(r), path)?; Ok(opt(mitem::get_ref_id(it, c.get("name").s()).map(|q| qv(q, |s| st(s.as_str()))))) }
        "set_enum" => { let it = item_mut(ptr_mut(r), path)?; Ok(J::Bool(mitem::set_enum(it, c.get("name").s(), c.get("row").s()))) }
        "get_enum" => { let it = item_const(ptr(r), path)?; Ok(opt(mitem::get_enum(it).map(|(a, b)| J::Arr(vec![st(a), st(b)])))) }
        w => panic!("protocol: ref op {}", w),
    }
}

// ---- dump ---------------------------------------------------------------------------------
// schema: {"p":[[name,t]..],"m":[[name,item]..],"c":[[name,item]..],"t":[[name,item]..],"r":[name..],"e":bool}

fn arr_of<'a>(s: &'a J, k: &str) -> &'a [J] { match s.get(k) { J::Null => &[], x => x.a() } }

fn dump_mlist(l: ML, s: &J, fl: u32) -> Result<J, String> {
    let mut items = vec![];
    let mut it = l.iter_const();
    while let Some((id, i)) = it.next_const() {
        items.push(J::Arr(vec![J::Int(id as i128), dump_mitem(i, s, fl)?]));
        if items.len() > 100000 { return Err("endless list".to_string()); }
    }
    Ok(ob(vec![("n", J::Int(l.next_id() as i128)), ("i", J::Arr(items))]))
}
fn dump_refs(s: &J, g: impl Fn(&str) -> Result<J, String>, e: impl Fn() -> Option<(String, String)>) -> Result<Vec<(String, J)>, String> {
    let mut o = vec![];
    let refs = arr_of(s, "r");
    if refs.len() > 0 {
        let mut v = vec![];
        for n in refs { v.push((n.s().to_string(), g(n.s())?)); }
        o.push(("r".to_string(), J::Obj(v)));
        if s.get("e").bo(false) { o.push(("e".to_string(), opt(e().map(|(a, b)| J::Arr(vec![st(a), st(b)]))))); }
    }
    Ok(o)
}
// the row a reference resolves to must be the row of that id in the table
fn ref_row(id: Option<Qv<&String>>, row: impl Fn() -> Option<Qv<CItemPtr>>, tab: Option<TablePtr>) -> Result<J, String> {
    match id {
        None => Ok(J::Null),
        Some(Qv::Val(s)) => {
            let want = tab.and_then(|t| table::get_value(t, s));
            if s.len() > 0 {
                match (row(), want) {
                    (Some(Qv::Val(a)), Some(b)) => if a.item() != b.item() { return Err(format!("ref {} resolves to another row", s)); },
                    (None, None) => return Ok(J::Arr(vec![st("dangling"), st(s.as_str())])),
                    _ => return Err(format!("ref {} resolves inconsistently", s)),
                }
            }
            Ok(J::Arr(vec![st("v"), st(s.as_str())]))
        }
        Some(Qv::Null) => Ok(J::Arr(vec![st("n")])),
        Some(Qv::Undefined) => Ok(J::Arr(vec![st("u")])),
    }
}
fn dump_mitem(i: MItemPtr, s: &J, fl: u32) -> Result<J, String> {
    let mut p = vec![];
    for x in arr_of(s, "p") { let (n, t) = (x.a()[0].s(), x.a()[1].s()); p.push((n.to_string(), pv(mget(i, n, t, "cur"), mget(i, n, t, "imm"), mget(i, n, t, "def"), mitem::is_unmodified(i, n), fl))); }
    let mut m = vec![];
    for x in arr_of(s, "m") {
        let n = x.a()[0].s();
        let l: Option<ML> = mitem::get_mil_const(i, n).ok_or(format!("no inner list {}", n))?;
        m.push((n.to_string(), match l { None => J::Null, Some(l) => dump_mlist(l, &x.a()[1], fl)? }));
    }
    let mut o = vec![("p".to_string(), J::Obj(p)), ("m".to_string(), J::Obj(m))];
    let tab = |n: &str| unsafe_root_table(i, n);
    o.extend(dump_refs(s, |n| ref_row(mitem::get_ref_id(i, n), || mitem::get_ref(i, n), tab(n)), || mitem::get_enum(i))?);
    Ok(J::Obj(o))
}
thread_local! { static CUR_DEF: std::cell::Cell<Option<RootObjectPtr>> = std::cell::Cell::new(None); }
fn unsafe_root_table(_i: MItemPtr, n: &str) -> Option<TablePtr> { CUR_DEF.with(|c| c.get()).and_then(|r| root::get_table(r.def(), n)) }

// value views: [current, unmodified flag] and, when asked, the default
fn pv(cur: J, imm: J, def: J, unmod: bool, fl: u32) -> J {
    let mut v = vec![cur.clone()];
    if fl & 1 != 0 { v.push(J::Bool(unmod)); }
    if fl & 2 != 0 { v.push(def); }
    if imm != cur { v.push(st("views differ")); v.push(imm); }
    if v.len() == 1 { cur } else { J::Arr(v) }
}
fn dump_citem(i: CItemPtr, s: &J) -> Result<J, String> {
    let mut p = vec![];
    for x in arr_of(s, "p") {
        let (n, t) = (x.a()[0].s(), x.a()[1].s());
        let (a, b) = (cget(i, n, t, "cur"), cget(i, n, t, "imm"));
        if a != b { return Err(format!("views of constant {} differ", n)); }
        p.push((n.to_string(), a));
    }
    let mut m = vec![];
    for x in arr_of(s, "c") {
        let n = x.a()[0].s();
        let l: CListPtr<CItemPtr> = citem::get_cil(i, n).ok_or(format!("no inner clist {}", n))?;
        m.push((n.to_string(), dump_clist(l, &x.a()[1])?));
    }
    let mut o = vec![("p".to_string(), J::Obj(p)), ("c".to_string(), J::Obj(m))];
    let tab = |n: &str| CUR_DEF.with(|c| c.get()).and_then(|r| root::get_table(r.def(), n));
    o.extend(dump_refs(s, |n| ref_row(citem::get_ref_id(i, n), || citem::get_ref(i, n), tab(n)), || citem::get_enum(i))?);
    Ok(J::Obj(o))
}
fn dump_clist(l: CListPtr<CItemPtr>, s: &J) -> Result<J, String> {
    let mut v = vec![];
    for i in l.iter() { v.push(dump_citem(i, s)?); }
    if v.len() != l.len() { return Err("clist length differs from its iteration".to_string()); }
    for k in 0..v.len() { if dump_citem(l.value(k), s)? != v[k] { return Err("clist index differs from its iteration".to_string()); } }
    Ok(J::Arr(v))
}

/// The lists of the root compared by ==: [[name, equal]..]
pub fn eq_lists(a: &RootObject, b: &RootObject) -> J {
    let mut o = vec![];
    for (n, x) in a.sabun() {
        if let (RootSabValue::Mut(Some(x)), Some(RootSabValue::Mut(Some(y)))) = (x, b.sabun().get(n)) { o.push(J::Arr(vec![st(n.as_str()), J::Bool(x == y)])); }
    }
    J::Arr(o)
}

pub fn dump(r: &RootObject, s: &J, fl: u32) -> R {
    let p = ptr(r);
    CUR_DEF.with(|c| c.set(Some(p)));
    let mut ps = vec![];
    for x in arr_of(s, "p") { let (n, t) = (x.a()[0].s(), x.a()[1].s()); ps.push((n.to_string(), pv(rget(p, n, t, "cur"), rget(p, n, t, "imm"), rget(p, n, t, "def"), root::is_unmodified(p, n), fl))); }
    let mut m = vec![];
    for x in arr_of(s, "m") {
        let n = x.a()[0].s();
        let l: Option<ML> = root::get_mlist_const(p, n).ok_or(format!("no list {}", n))?;
        m.push((n.to_string(), match l { None => J::Null, Some(l) => dump_mlist(l, &x.a()[1], fl)? }));
    }
    let mut c = vec![];
    for x in arr_of(s, "c") {
        let n = x.a()[0].s();
        let l: CListPtr<CItemPtr> = root::get_clist(p, n).ok_or(format!("no clist {}", n))?;
        c.push((n.to_string(), dump_clist(l, &x.a()[1])?));
    }
    let mut t = vec![];
    for x in arr_of(s, "t") {
        let n = x.a()[0].s();
        let tp = root::get_table(p.def(), n).ok_or(format!("no table {}", n))?;
        let kvs = table::get_kvs(tp);
        let mut rows = vec![];
        for kv in kvs.items() { rows.push((kv.id().to_string(), dump_citem(table::get_value(tp, kv.id()).ok_or("row not found")?, &x.a()[1])?)); }
        rows.sort_by(|a, b| a.0.cmp(&b.0));
        t.push((n.to_string(), J::Obj(rows)));
    }
    CUR_DEF.with(|c| c.set(None));
    Ok(J::Obj(vec![("p".to_string(), J::Obj(ps)), ("m".to_string(), J::Obj(m)), ("c".to_string(), J::Obj(c)), ("t".to_string(), J::Obj(t))]))
}
