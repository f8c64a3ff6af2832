//! Common part of the programs that use generated interfaces.
use crate::json::*;
use dochy::core::intf::*;
use dochy::core::structs::*;

pub trait Out { fn out(&self) -> J; }
impl Out for bool { fn out(&self) -> J { J::Bool(*self) } }
impl Out for i64 { fn out(&self) -> J { J::Int(*self as i128) } }
impl Out for f64 { fn out(&self) -> J { st(format!("{:016x}", self.to_bits())) } }
impl Out for String { fn out(&self) -> J { st(self.clone()) } }
impl Out for Vec<i64> { fn out(&self) -> J { J::Arr(self.iter().map(|x| x.out()).collect()) } }
impl Out for Vec<f64> { fn out(&self) -> J { J::Arr(self.iter().map(|x| x.out()).collect()) } }
impl Out for Vec<u8> { fn out(&self) -> J { st(self.iter().map(|x| format!("{:02x}", x)).collect::<String>()) } }
impl<'a, T: Out> Out for &'a T { fn out(&self) -> J { (*self).out() } }

pub trait In { fn inn(j: &J) -> Self; }
fn bits(j: &J) -> f64 { f64::from_bits(u64::from_str_radix(j.s(), 16).unwrap()) }
impl In for bool { fn inn(j: &J) -> bool { j.b() } }
impl In for i64 { fn inn(j: &J) -> i64 { j.i() as i64 } }
impl In for f64 { fn inn(j: &J) -> f64 { bits(j) } }
impl In for String { fn inn(j: &J) -> String { j.s().to_string() } }
impl In for Vec<i64> { fn inn(j: &J) -> Vec<i64> { j.a().iter().map(|x| x.i() as i64).collect() } }
impl In for Vec<f64> { fn inn(j: &J) -> Vec<f64> { j.a().iter().map(bits).collect() } }
impl In for Vec<u8> { fn inn(j: &J) -> Vec<u8> { let s = j.s(); (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect() } }

pub fn val(j: J) -> J { J::Arr(vec![st("v"), j]) }
pub fn null() -> J { J::Arr(vec![st("n")]) }
pub fn undef() -> J { J::Arr(vec![st("u")]) }

pub fn w_n<T>(x: T, f: impl Fn(&T) -> J) -> J { val(f(&x)) }
pub fn w_q<T>(x: NullOr<T>, f: impl Fn(&T) -> J) -> J { match x { NullOr::Val(x) => val(f(&x)), NullOr::Null => null() } }
pub fn w_u<T>(x: UndefOr<T>, f: impl Fn(&T) -> J) -> J { match x { UndefOr::Val(x) => val(f(&x)), UndefOr::Undefined => undef() } }
pub fn w_qu<T>(x: Qv<T>, f: impl Fn(&T) -> J) -> J { match x { Qv::Val(x) => val(f(&x)), Qv::Null => null(), Qv::Undefined => undef() } }
pub fn v_n<T: Out>(x: T) -> J { w_n(x, |y| y.out()) }
pub fn v_q<T: Out>(x: NullOr<T>) -> J { w_q(x, |y| y.out()) }
pub fn v_u<T: Out>(x: UndefOr<T>) -> J { w_u(x, |y| y.out()) }
pub fn v_qu<T: Out>(x: Qv<T>) -> J { w_qu(x, |y| y.out()) }

fn kind(j: &J) -> &str { j.a()[0].s() }
pub fn k_n<T>(j: &J, f: impl Fn(&str) -> T) -> T { f(j.a()[1].s()) }
pub fn k_q<T>(j: &J, f: impl Fn(&str) -> T) -> NullOr<T> { if kind(j) == "v" { NullOr::Val(f(j.a()[1].s())) } else { NullOr::Null } }
pub fn k_u<T>(j: &J, f: impl Fn(&str) -> T) -> UndefOr<T> { if kind(j) == "v" { UndefOr::Val(f(j.a()[1].s())) } else { UndefOr::Undefined } }
pub fn k_qu<T>(j: &J, f: impl Fn(&str) -> T) -> Qv<T> { match kind(j) { "v" => Qv::Val(f(j.a()[1].s())), "n" => Qv::Null, _ => Qv::Undefined } }
pub fn i_n<T: In>(j: &J) -> T { T::inn(&j.a()[1]) }
pub fn i_q<T: In>(j: &J) -> NullOr<T> { if kind(j) == "v" { NullOr::Val(i_n(j)) } else { NullOr::Null } }
pub fn i_u<T: In>(j: &J) -> UndefOr<T> { if kind(j) == "v" { UndefOr::Val(i_n(j)) } else { UndefOr::Undefined } }
pub fn i_qu<T: In>(j: &J) -> Qv<T> { match kind(j) { "v" => Qv::Val(i_n(j)), "n" => Qv::Null, _ => Qv::Undefined } }

// in-place mutation of a member that has a value
pub fn p_n<T: In>(r: &mut T, j: &J) { *r = i_n(j) }
pub fn p_q<T: In>(r: NullOr<&mut T>, j: &J) { match r { NullOr::Val(r) => *r = i_n(j), NullOr::Null => panic!("the member is null") } }
pub fn p_u<T: In>(r: UndefOr<&mut T>, j: &J) { match r { UndefOr::Val(r) => *r = i_n(j), UndefOr::Undefined => panic!("the member is undefined") } }
pub fn p_qu<T: In>(r: Qv<&mut T>, j: &J) { match r { Qv::Val(r) => *r = i_n(j), _ => panic!("the member has no value") } }

pub fn obj(v: Vec<(&str, Vec<(String, J)>)>) -> J { J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), J::Obj(v))).collect()) }
pub fn add(o: &mut J, k: &str, v: J) { if let J::Obj(x) = o { x.push((k.to_string(), v)) } }
pub fn ids(f: impl Fn() -> (String, String)) -> Option<(String, String)> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).ok() }

pub fn clist<V: From<CItemPtr>>(l: &CListConst<V>, f: impl Fn(&V) -> J) -> J {
    let a: Vec<J> = l.iter().map(|y| f(&*y)).collect();
    let b: Vec<J> = (0..l.len()).map(|k| f(&*l.value(k))).collect();
    if a != b { panic!("iteration and indexing of a constant list differ") }
    J::Arr(a)
}
pub fn mlist<V: From<MItemPtr>>(l: &MListConst<V>, f: impl Fn(&V) -> J) -> J {
    let v: Vec<J> = l.iter().map(|(id, y)| J::Arr(vec![J::Int(id as i128), f(&*y)])).collect();
    for x in &v { if f(&*l.get_item(x.a()[0].i() as u64).expect("an item of the list")) != x.a()[1] { panic!("iteration and look-up of a list differ") } }
    if l.len() != v.len() { panic!("length of a list") }
    J::Obj(vec![("n".to_string(), J::Int(l.next_id() as i128)), ("i".to_string(), J::Arr(v))])
}
pub fn list_op<V: From<MItemPtr>>(l: &mut MListMut<V>, c: &J) -> J {
    let (id, other) = (c.get("id").i() as u64, c.get("other").i() as u64);
    let n = l.next_id();
    match c.get("what").s() {
        "define" => J::Bool(true),
        "insert" => { l.insert(); J::Int(n as i128) }
        "insert_last" => { l.insert_last(); J::Int(n as i128) }
        "insert_first" => { l.insert_first(); J::Int(n as i128) }
        "remove" => J::Bool(l.remove(id)),
        "remove_first" => J::Bool(l.remove_first()),
        "remove_last" => J::Bool(l.remove_last()),
        "move_first" => J::Bool(l.move_to_first(id)),
        "move_last" => J::Bool(l.move_to_last(id)),
        "move_prev" => J::Bool(l.move_to_prev(other, id)),
        "move_next" => J::Bool(l.move_to_next(other, id)),
        w => panic!("protocol: {}", w),
    }
}
