use dochy_core::intf::*;
use dochy_core::intf::{mitem, root};
use dochy_core::structs::*;

fn load(dir: &str, name: &str, text: &str) -> RootObject {
    let d = format!("{}/{}", dir, name);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(format!("{}/root.json5", d), text).unwrap();
    dochy_core::json_dir_to_root(&d, true).unwrap()
}
fn p(r: &mut RootObject) -> RootObjectPtr { RootObjectPtr::new(r as *mut RootObject) }
type ML = MListPtr<MItemPtr>;
fn list(r: &mut RootObject, n: &str) -> ML { root::get_mlist_mut(p(r), n).unwrap() }
fn ids(l: ML) -> Vec<u64> { let mut v = vec![]; let mut it = l.iter_const(); while let Some((i, _)) = it.next_const() { v.push(i); } v }
fn check(what: &str, ok: bool) { if !ok { println!("WRONG: {}", what); std::process::exit(1); } }
