//! Compaction, JSON5, archive, source and difference operations.
use crate::doc::*;
use crate::json::*;
use dochy_compaction::kval_enum::{Decimal, KVal};
use dochy_core::structs::*;
use dochy_json5::JVal;
use std::io::Cursor;

fn e<T: std::fmt::Display>(x: T) -> String { x.to_string() }

pub fn kval(j: &J) -> KVal {
    let a = j.a();
    match a[0].s() {
        "Null" => KVal::Null,
        "Bit" => KVal::Bit(a[1].b()),
        "Bool" => KVal::Bool(a[1].b()),
        "Byte" => KVal::Byte(a[1].i() as i8),
        "Str16" => KVal::Str16(a[1].s().to_string()),
        "Str256" => KVal::Str256(a[1].s().to_string()),
        "BigStr" => KVal::BigStr(a[1].s().to_string()),
        "Int" => KVal::Int(a[1].i() as i64),
        "Float" => KVal::Float(f32::from_bits(u32::from_str_radix(a[1].s(), 16).unwrap())),
        "Double" => KVal::Double(f64::from_bits(u64::from_str_radix(a[1].s(), 16).unwrap())),
        "Decimal" => KVal::Decimal(Decimal::new(a[1].i(), a[2].i() as u8)),
        "Binary" => KVal::Binary(unhex(a[1].s())),
        "BinaryArc" => KVal::BinaryArc(std::sync::Arc::new(unhex(a[1].s()))),
        "Binary8" => KVal::Binary8(a[1].a().iter().map(|x| x.i() as u64).collect()),
        "Binary4" => KVal::Binary4(a[1].a().iter().map(|x| x.i() as u32).collect()),
        "Binary2" => KVal::Binary2(a[1].a().iter().map(|x| x.i() as u16).collect()),
        "Undefined" => KVal::Undefined(a[1].i() as u8),
        x => panic!("protocol: kval {}", x),
    }
}
pub fn unkval(k: &KVal) -> J {
    let two = |n: &str, v: J| J::Arr(vec![st(n), v]);
    match k {
        KVal::Null => J::Arr(vec![st("Null")]),
        KVal::Bit(b) => two("Bit", J::Bool(*b)),
        KVal::Bool(b) => two("Bool", J::Bool(*b)),
        KVal::Byte(i) => two("Byte", J::Int(*i as i128)),
        KVal::Str16(s) => two("Str16", st(s.as_str())),
        KVal::Str256(s) => two("Str256", st(s.as_str())),
        KVal::BigStr(s) => two("BigStr", st(s.as_str())),
        KVal::Int(i) => two("Int", J::Int(*i as i128)),
        KVal::Float(f) => two("Float", st(format!("{:08x}", f.to_bits()))),
        KVal::Double(f) => two("Double", st(format!("{:016x}", f.to_bits()))),
        KVal::Decimal(d) => J::Arr(vec![st("Decimal"), J::Int(d.int), J::Int(d.dot as i128)]),
        KVal::Binary(b) => two("Binary", st(hexb(b))),
        KVal::BinaryArc(b) => two("Binary", st(hexb(b))),
        KVal::Binary8(v) => two("Binary8", J::Arr(v.iter().map(|x| J::Int(*x as i128)).collect())),
        KVal::Binary4(v) => two("Binary4", J::Arr(v.iter().map(|x| J::Int(*x as i128)).collect())),
        KVal::Binary2(v) => two("Binary2", J::Arr(v.iter().map(|x| J::Int(*x as i128)).collect())),
        KVal::Undefined(i) => two("Undefined", J::Int(*i as i128)),
    }
}
fn kvs(j: &J) -> Vec<KVal> { j.a().iter().map(kval).collect() }

fn jval(v: &JVal) -> J {
    match v {
        JVal::Null(_) => J::Arr(vec![st("null")]),
        JVal::Undefined(_) => J::Arr(vec![st("undef")]),
        JVal::Bool(b, _) => J::Arr(vec![st("bool"), J::Bool(*b)]),
        JVal::String(s, _) => J::Arr(vec![st("str"), st(s.as_str())]),
        JVal::Int(i, _) => J::Arr(vec![st("int"), J::Int(*i as i128)]),
        JVal::Double(d, _) => J::Arr(vec![st("num"), fhex(*d)]),
        JVal::Array(a, _) => J::Arr(vec![st("arr"), J::Arr(a.iter().map(jval).collect())]),
        JVal::Map(m, _) => J::Arr(vec![st("map"), J::Arr(m.iter().map(|(k, v)| J::Arr(vec![st(k.as_str()), jval(v)])).collect())]),
    }
}

/// A reader that hands out at most `step` bytes per call.
struct Slow<'a> { b: &'a [u8], pos: usize, step: usize }
impl<'a> std::io::Read for Slow<'a> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        let n = std::cmp::min(std::cmp::min(o.len(), self.step), self.b.len() - self.pos);
        o[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn run(op: &str, c: &J) -> Option<R> {
    Some((|| -> R {
        match op {
            "intf" => {
                let out = format!("{}.rs", c.get("dir").s());
                dochy_intf::generate_accessor_from_json_dir(c.get("dir").s(), out.as_str(), true).map_err(|x| x.to_string())?;
                Ok(st(std::fs::read_to_string(&out).map_err(|x| x.to_string())?))
            }
            "enc" => {
                let v = kvs(c.get("v"));
                let a = dochy_compaction::encode_to_vec(&v).map_err(e)?;
                let mut b: Vec<u8> = vec![];
                let n = dochy_compaction::encode(&v, &mut b).map_err(e)?;
                Ok(ob(vec![("hex", st(hexb(&a))), ("hex2", st(hexb(&b))), ("n", J::Int(n as i128))]))
            }
            "dec" => {
                let b = unhex(c.get("hex").s());
                let mut r = Slow { b: &b, pos: 0, step: if c.get("step").is_null() { usize::MAX } else { c.get("step").i() as usize } };
                let (v, n) = dochy_compaction::decode(&mut r).map_err(e)?;
                Ok(ob(vec![("v", J::Arr(v.iter().map(unkval).collect())), ("n", J::Int(n as i128)), ("pos", J::Int(r.pos as i128))]))
            }
            "dec_slice" => {
                let b = unhex(c.get("hex").s());
                let (v, n) = dochy_compaction::decode_from_slice(&b).map_err(e)?;
                Ok(ob(vec![("v", J::Arr(v.iter().map(unkval).collect())), ("n", J::Int(n as i128))]))
            }
            "prefixes" => {
                // every proper prefix of stored data, given to the reader of its kind; answers with the ones that were not refused
                let b = unhex(c.get("hex").s());
                let kind = c.get("kind").s();
                let ats: Vec<usize> = if c.get("at").is_null() { (0..b.len()).collect() } else { c.get("at").a().iter().map(|x| x.i() as usize).collect() };
                let mut bad = vec![];
                for n in ats {
                    let p = &b[..n];
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                        match kind {
                            "kvals" => { dochy_compaction::decode_from_slice(p).map_err(e)?; }
                            "kvals1" => { dochy_compaction::decode(&mut Slow { b: p, pos: 0, step: 1 }).map_err(e)?; }
                            "strings" => { dochy_compaction::string_compaction::decompress(p).map_err(e)?; }
                            "archive" => { dochy_archiver2::read_archive(|_p, b| b.len(), &mut Slow { b: p, pos: 0, step: usize::MAX }).map_err(e)?; }
                            "source" => { dochy_core::read_archive_to_root_with_hash(&mut Cursor::new(p), true).map_err(e)?; }
                            k => panic!("protocol: prefixes {}", k),
                        }
                        Ok(())
                    }));
                    match r {
                        Ok(Err(_)) => {}
                        Ok(Ok(())) => bad.push(J::Arr(vec![J::Int(n as i128), st("accepted")])),
                        Err(x) => bad.push(J::Arr(vec![J::Int(n as i128), st(format!("panic: {}", x.downcast_ref::<String>().cloned().or_else(|| x.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))])),
                    }
                }
                Ok(J::Arr(bad))
            }
            "url_enc" => Ok(st(dochy_compaction::url_string::get_url_string(&unhex(c.get("hex").s())))),
            "url_dec" => Ok(match dochy_compaction::url_string::get_bytes(c.get("s").s()) { Some(b) => st(hexb(&b)), None => J::Null }),
            "str_comp" => {
                let v: Vec<String> = c.get("v").a().iter().map(|x| x.s().to_string()).collect();
                let b = dochy_compaction::string_compaction::compress_strings(v.clone().into_iter()).map_err(e)?;
                let kv = dochy_compaction::string_compaction::to_kvals(v.into_iter());
                let back = dochy_compaction::string_compaction::to_strings(&kv);
                Ok(ob(vec![("hex", st(hexb(&b))), ("kv", J::Arr(kv.iter().map(unkval).collect())), ("back", J::Arr(back.into_iter().map(st).collect()))]))
            }
            "str_decomp" => {
                let (v, n) = dochy_compaction::string_compaction::decompress(&unhex(c.get("hex").s())).map_err(e)?;
                Ok(ob(vec![("v", J::Arr(v.into_iter().map(st).collect())), ("n", J::Int(n as i128))]))
            }
            "comp" => {
                use dochy_compaction::basic_compaction::*;
                let t = c.get("t").s();
                let k = match t {
                    "int" => comp_int(c.get("v").i() as i64),
                    "double" => comp_double(unf(c.get("v"))),
                    "float" => comp_float(f32::from_bits(u32::from_str_radix(c.get("v").s(), 16).unwrap())),
                    "str" => comp_str(c.get("v").s().to_string()),
                    t => panic!("protocol: comp {}", t),
                };
                let b = dochy_compaction::encode_to_vec(&[k]).map_err(e)?;
                let (v, _) = dochy_compaction::decode_from_slice(&b).map_err(e)?;
                let back = match t {
                    "int" => v[0].as_i64().map(|x| J::Int(x as i128)),
                    "double" => v[0].as_f64().map(fhex),
                    "float" => v[0].as_f32().map(|x| st(format!("{:08x}", x.to_bits()))),
                    _ => v[0].as_string().map(st),
                };
                Ok(back.unwrap_or(J::Null))
            }
            "json5" => Ok(jval(&dochy_json5::from_str(c.get("s").s()).map_err(|x| format!("{:?}", x))?)),
            "arc_dir" => {
                // archive of a source directory: hash and bytes
                let mut w: Vec<u8> = vec![];
                dochy_core::archive_src_dir(c.get("dir").s(), &mut w).map_err(e)?;
                Ok(st(hexb(&w)))
            }
            "arc_read" => {
                let b = unhex(c.get("hex").s());
                let mut r = Slow { b: &b, pos: 0, step: if c.get("step").is_null() { usize::MAX } else { c.get("step").i() as usize } };
                let d = dochy_archiver2::read_archive(|_p, b| b.len(), &mut r).map_err(e)?;
                let mut files = vec![];
                for (k, v) in d.btree() {
                    files.push(J::Arr(vec![st(k.as_str()), st(hexb(v.raw_data())), J::Int(*v.converted_data() as i128)]));
                }
                let mut w: Vec<u8> = vec![];
                dochy_archiver2::write_archive(&d, &mut w).map_err(e)?;
                Ok(ob(vec![("files", J::Arr(files)), ("hash", st(format!("{:032x}", d.hash()))), ("again", st(hexb(&w))), ("pos", J::Int(r.pos as i128))]))
            }
            "fhash" => {
                let n = dochy_fs::common::hash::hash_to_folder_name(u128::from_str_radix(c.get("v").s(), 16).unwrap());
                let b = dochy_fs::common::hash::folder_name_to_hash(&n);
                Ok(ob(vec![("name", st(n.to_string_lossy().to_string())), ("back", match b { Some(h) => st(format!("{:032x}", h)), None => J::Null })]))
            }
            "funhash" => Ok(match dochy_fs::common::hash::folder_name_to_hash(std::ffi::OsStr::new(c.get("name").s())) { Some(h) => st(format!("{:032x}", h)), None => J::Null }),
            _ => Err("NOOP".to_string()),
        }
    })()).and_then(|r| if r == Err("NOOP".to_string()) { None } else { Some(r) })
}

pub fn load_src(c: &J) -> Result<(RootObject, u128), String> {
    let val = c.get("validation").bo(true);
    if !c.get("dir").is_null() { return dochy_core::json_dir_to_root_with_hash(c.get("dir").s(), val).map_err(e); }
    if !c.get("arc").is_null() { return dochy_core::archive_file_to_root_with_hash(c.get("arc").s(), val).map_err(e); }
    let b = unhex(c.get("archex").s());
    dochy_core::read_archive_to_root_with_hash(&mut Cursor::new(b), val).map_err(e)
}

pub fn diff(a: &RootObject, b: &RootObject) -> R {
    let d = dochy_diff::get_diff(a, b).map_err(e)?;
    let k = dochy_diff::get_kvals(a, b).map_err(e)?;
    let mut w: Vec<u8> = vec![];
    dochy_compaction::encode(&k, &mut w).map_err(e)?;
    if w != d { return Err(format!("get_kvals encodes to {} but get_diff gives {}", hexb(&w), hexb(&d))); }
    Ok(st(hexb(&d)))
}
pub fn apply(r: &mut RootObject, hex: &str, prepared: bool) -> R {
    let b = unhex(hex);
    let mut cur = Cursor::new(&b[..]);
    if prepared {
        let (k, _) = dochy_compaction::decode(&mut cur).map_err(e)?;
        let p = dochy_diff::get_root_diff_r(k, r.meta_table()).map_err(e)?;
        dochy_diff::apply_root_diff_r(r, p).map_err(e)?;
    } else {
        dochy_diff::apply_diff(r, &mut cur).map_err(e)?;
    }
    Ok(J::Int(cur.position() as i128))
}
/// The printed document; with "dir" it becomes the root file of that source directory.
pub fn print(r: &RootObject, c: &J) -> R {
    let v = dochy_core::root_to_json_new_default(r).map_err(e)?;
    let s = v.to_string_pretty();
    if !c.get("dir").is_null() {
        std::fs::write(std::path::Path::new(c.get("dir").s()).join("root.json5"), &s).expect("protocol: writing a source");
    }
    Ok(st(s))
}

/// What the source of a document declares: members with their types and marks, references, rows, and what is out of use.
pub fn decl(r: &RootObject) -> R {
    use dochy_core::intf::member_desc::{get_member_desc, MemberDesc};
    fn members(l: &[MemberDesc]) -> J {
        let mut v: Vec<(String, J)> = l.iter().map(|m| (m.name().to_string(), J::Arr(vec![
            st(m.name()), st(format!("{:?} {:?} {}", m.var_type(), m.member_type(), m.is_old())),
            match m.child_descs() {
                None => J::Null,
                Some(d) => {
                    let mut k: Vec<String> = d.keys().iter().map(|k| format!("{} {}", k.key(), k.is_old())).collect();
                    k.sort();
                    let mut f: Vec<String> = d.refs().items().iter().map(|x| format!("{} {:?} {}", x.data_name(), x.var_type(), x.is_old())).collect();
                    f.sort();
                    J::Arr(vec![members(d.items()), J::Arr(k.into_iter().map(st).collect()), J::Arr(f.into_iter().map(st).collect()), J::Bool(d.refs().is_enum())])
                }
            }]))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        J::Arr(v.into_iter().map(|x| x.1).collect())
    }
    Ok(members(&get_member_desc(r)))
}

/// Names of the members in the order in which stored data numbers them (only used to aim at boundary cases).
pub fn meta(r: &RootObject, c: &J) -> R {
    use dochy_core::structs::{MetaTable, MetaValue};
    fn names(t: &MetaTable) -> J { J::Arr((0..5000).filter_map(|i| t.get(i).map(|(n, _)| st(n))).collect()) }
    let m = r.meta_table();
    if c.get("list").is_null() { return Ok(names(m)); }
    for (n, v) in (0..5000).filter_map(|i| m.get(i)) {
        if n == c.get("list").s() {
            return match v { MetaValue::MList(t) | MetaValue::OptMil(t) => Ok(J::Arr(vec![names(t.items()), names(t.refs())])), _ => Err("not a list".to_string()) };
        }
    }
    Err("no list".to_string())
}
