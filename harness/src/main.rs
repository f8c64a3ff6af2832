//! Replay driver: reads one JSON command per line, runs it on the code under test and
//! answers with one JSON line: {"ok":..} | {"err":..} | {"panic":..}.
mod json; mod doc; mod misc; mod fsops;
use json::*;
use dochy_core::structs::RootObject;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex, Barrier};
use std::sync::atomic::{AtomicU64, Ordering};

struct Slot(RootObject);
unsafe impl Send for Slot {}
unsafe impl Sync for Slot {}

struct St { slots: Mutex<HashMap<String, Arc<Mutex<Slot>>>>, fs: fsops::Fs, schemas: Mutex<HashMap<String, Arc<J>>>, vars: Mutex<HashMap<String, String>> }
unsafe impl Send for St {}
unsafe impl Sync for St {}

static PANICS: Mutex2 = Mutex2::new();
static TICK: AtomicU64 = AtomicU64::new(0);
/// global order of the events that answers report
pub fn tick() -> u64 { TICK.fetch_add(1, Ordering::SeqCst) }

impl St {
    fn slot(&self, k: &J) -> Arc<Mutex<Slot>> { self.slots.lock().unwrap().get(k.s()).unwrap_or_else(|| panic!("protocol: no slot {}", k.s())).clone() }
    fn put(&self, k: &J, r: RootObject) { self.slots.lock().unwrap().insert(k.s().to_string(), Arc::new(Mutex::new(Slot(r)))); }
    fn schema(&self, c: &J) -> Arc<J> {
        match c.get("schema") { J::Str(s) => self.schemas.lock().unwrap().get(s).expect("protocol: no schema").clone(), j => Arc::new(j.clone()) }
    }
    fn exec(&self, c: &J) -> doc::R {
        let op = c.get("op").s();
        if let Some(r) = misc::run(op, c) { return r; }
        if let Some(r) = self.fs.run(op, c) { return r; }
        macro_rules! slot { ($k:expr) => { self.slot(c.get($k)).lock().unwrap().0 } }
        match op {
            "ping" => Ok(J::Bool(true)),
            "reset" => { self.slots.lock().unwrap().clear(); Ok(J::Bool(true)) }
            "schema" => { self.schemas.lock().unwrap().insert(c.get("name").s().to_string(), Arc::new(c.get("def").clone())); Ok(J::Bool(true)) }
            "src" => { let (r, h) = misc::load_src(c)?; self.put(c.get("to"), r); Ok(st(format!("{:032x}", h))) }
            "clone" => { let a = self.slot(c.get("slot")); let r = a.lock().unwrap().0.clone(); self.put(c.get("to"), r); Ok(J::Bool(true)) }
            "drop" => { let r = self.slots.lock().unwrap().remove(c.get("slot").s()); Ok(J::Bool(r.is_some())) }
            "move" => { let mut g = self.slots.lock().unwrap(); let r = g.remove(c.get("slot").s()).expect("protocol: no slot"); g.insert(c.get("to").s().to_string(), r); Ok(J::Bool(true)) }
            "get" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); doc::get(&g.0, c) }
            "set" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap(); doc::set(&mut g.0, c) }
            "list" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap(); doc::list_op(&mut g.0, c) }
            "views" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap(); doc::list_views(&mut g.0, c) }
            "iter_set" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap(); doc::iter_set(&mut g.0, c) }
            "ref" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap(); doc::ref_op(&mut g.0, c) }
            "dump" => { let s = self.schema(c); let fl = if c.get("fl").is_null() { 0 } else { c.get("fl").i() as u32 }; let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); doc::dump(&g.0, &s, fl) }
            "eq" => { let a = self.slot(c.get("a")); let b = self.slot(c.get("b")); let ga = a.lock().unwrap(); let gb = b.lock().unwrap(); Ok(J::Bool(ga.0.contents_eq(&gb.0))) }
            "eqlists" => { let a = self.slot(c.get("a")); let b = self.slot(c.get("b")); let ga = a.lock().unwrap(); let gb = b.lock().unwrap(); Ok(doc::eq_lists(&ga.0, &gb.0)) }
            "diff" => { let a = self.slot(c.get("a")); let b = self.slot(c.get("b"));
                let r = if Arc::ptr_eq(&a, &b) { let g = a.lock().unwrap(); misc::diff(&g.0, &g.0)? }
                    else { let ga = a.lock().unwrap(); let gb = b.lock().unwrap(); misc::diff(&ga.0, &gb.0)? };
                if c.get("as").is_null() { return Ok(r); }
                let n = r.s().len() / 2;
                self.vars.lock().unwrap().insert(c.get("as").s().to_string(), r.s().to_string());
                Ok(J::Int(n as i128)) }
            "apply" => { let a = self.slot(c.get("slot")); let mut g = a.lock().unwrap();
                let h = if c.get("var").is_null() { c.get("hex").s().to_string() } else { self.vars.lock().unwrap().get(c.get("var").s()).expect("protocol: no var").clone() };
                misc::apply(&mut g.0, &h, c.get("prep").bo(false)) }
            "adjust" => {
                let (n, o) = (slot!("new").clone(), slot!("old").clone());
                let r = dochy_core::adjust_versions(n, o, c.get("validation").bo(true)).map_err(|e| e.to_string())?;
                self.put(c.get("to"), r); Ok(J::Bool(true))
            }
            "meta" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); misc::meta(&g.0, c) }
            "decl" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); misc::decl(&g.0) }
            "print" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); misc::print(&g.0, c) }
            "h_src" => { let r = self.fs.h_src(c); self.put(c.get("to"), r); Ok(J::Bool(true)) }
            "s_src" => { let r = self.fs.s_src(c); self.put(c.get("to"), r); Ok(J::Bool(true)) }
            "h_save" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); self.fs.h_save(c, &g.0) }
            "h_save_nb" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); self.fs.h_save_nb(c, &g.0) }
            "h_load" => { let r = self.fs.h_load(c)?; self.put(c.get("to"), r); Ok(J::Bool(true)) }
            "s_save" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); self.fs.s_save(c, &g.0) }
            "s_save_nb" => { let a = self.slot(c.get("slot")); let g = a.lock().unwrap(); self.fs.s_save_nb(c, &g.0) }
            "s_load" => { let r = self.fs.s_load(c)?; self.put(c.get("to"), r); Ok(J::Bool(true)) }
            "sleep" => { std::thread::sleep(std::time::Duration::from_millis(c.get("ms").i() as u64)); Ok(J::Bool(true)) }
            "cut" => self.cut(c),
            "panics" => Ok(J::Arr(PANICS.take().into_iter().map(st).collect())),
            "exit" => std::process::exit(0),
            o => panic!("protocol: unknown op {}", o),
        }
    }
    /// Runs the commands once for every given prefix of a file or a variable; answers [results, [lengths]] per different outcome.
    fn cut(&self, c: &J) -> Result<J, String> {
        let path = c.get("path");
        let all: Vec<u8> = if path.is_null() { doc::unhex(self.vars.lock().unwrap().get(c.get("var").s()).expect("protocol: no var")) } else { std::fs::read(path.s()).map_err(|e| e.to_string())? };
        let ats: Vec<usize> = if c.get("at").is_null() { (0..all.len()).collect() } else { c.get("at").a().iter().map(|x| x.i() as usize).filter(|n| *n < all.len()).collect() };
        let mut out: Vec<(String, J, Vec<J>)> = vec![];
        for n in ats {
            if path.is_null() { self.vars.lock().unwrap().insert(c.get("as").s().to_string(), doc::hexb(&all[..n])); } else { std::fs::write(path.s(), &all[..n]).map_err(|e| e.to_string())?; }
            let r = J::Arr(c.get("cmds").a().iter().map(|x| {
                let a = self.safe(x);
                // error texts do not matter
                if a.get("err").is_null() { a } else { json::ob(vec![("err", J::Bool(true))]) }
            }).collect());
            let t = r.text();
            match out.iter_mut().find(|o| o.0 == t) {
                Some(o) => o.2.push(J::Int(n as i128)),
                None => out.push((t, r, vec![J::Int(n as i128)])),
            }
        }
        if !path.is_null() { std::fs::write(path.s(), &all).map_err(|e| e.to_string())?; }
        Ok(J::Arr(out.into_iter().map(|(_, r, ns)| J::Arr(vec![r, J::Arr(ns)])).collect()))
    }
    fn safe(&self, c: &J) -> J {
        match catch_unwind(AssertUnwindSafe(|| self.exec(c))) {
            Ok(Ok(j)) => ob(vec![("ok", j)]),
            Ok(Err(m)) => ob(vec![("err", st(m))]),
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<String>() { s.clone() } else if let Some(s) = p.downcast_ref::<&str>() { s.to_string() } else { "?".to_string() };
                ob(vec![("panic", st(m))])
            }
        }
    }
    fn timed(&self, k: &J) -> J {
        let t0 = tick();
        let r = self.safe(k);
        let t1 = tick();
        J::Arr(vec![J::Int(t0 as i128), J::Int(t1 as i128), r])
    }
    /// runs a command sequence on a thread of its own; the answers arrive like those of callbacks
    fn bg(self: &Arc<Self>, c: &J) -> J {
        let me = self.clone();
        let c = c.clone();
        std::thread::spawn(move || {
            let out: Vec<J> = c.get("cmds").a().iter().map(|k| me.timed(k)).collect();
            me.fs.cb.push(c.get("key").s().to_string(), J::Arr(out));
        });
        ob(vec![("ok", J::Int(tick() as i128))])
    }
    /// runs several command sequences on as many threads at once; every answer carries
    /// the global tick before and after it
    fn par(self: &Arc<Self>, c: &J) -> J {
        let th = c.get("threads").a();
        let bar = Arc::new(Barrier::new(th.len()));
        let mut hs = vec![];
        for t in th {
            let cmds: Vec<J> = t.a().to_vec();
            let me = self.clone();
            let bar = bar.clone();
            hs.push(std::thread::spawn(move || {
                bar.wait();
                let mut out = vec![];
                for k in &cmds { out.push(me.timed(k)); }
                J::Arr(out)
            }));
        }
        ob(vec![("ok", J::Arr(hs.into_iter().map(|h| h.join().unwrap_or(J::Null)).collect()))])
    }
}

/// const-initialised list of panic messages
struct Mutex2 { m: std::cell::UnsafeCell<Option<Mutex<Vec<String>>>>, once: std::sync::Once }
unsafe impl Sync for Mutex2 {}
impl Mutex2 {
    const fn new() -> Mutex2 { Mutex2 { m: std::cell::UnsafeCell::new(None), once: std::sync::Once::new() } }
    fn get(&self) -> &Mutex<Vec<String>> { self.once.call_once(|| unsafe { *self.m.get() = Some(Mutex::new(vec![])) }); unsafe { (*self.m.get()).as_ref().unwrap() } }
    fn push(&self, s: String) { self.get().lock().unwrap().push(s); }
    fn take(&self) -> Vec<String> { std::mem::take(&mut *self.get().lock().unwrap()) }
}

fn main() {
    std::panic::set_hook(Box::new(|i| { PANICS.push(i.to_string()); eprintln!("{}", i); }));
    let s = Arc::new(St { slots: Mutex::new(HashMap::new()), fs: fsops::Fs::new(), schemas: Mutex::new(HashMap::new()), vars: Mutex::new(HashMap::new()) });
    let stdin = std::io::stdin();
    // deep JSON5 inputs and dumps get a large stack of their own
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let out = std::io::stdout();
        for line in stdin.lock().lines() {
            let line = line.expect("stdin");
            if line.trim().is_empty() { continue; }
            let c = match json::parse(&line) { Ok(c) => c, Err(e) => { println!("{{\"protocol\":\"{}\"}}", e); continue; } };
            let r = if c.get("op") == &st("par") { s.par(&c) } else if c.get("op") == &st("bg") { s.bg(&c) } else if c.get("op") == &st("timed") { s.timed(c.get("cmd")) } else if let J::Arr(v) = &c { J::Arr(v.iter().map(|x| s.safe(x)).collect()) } else { s.safe(&c) };
            let mut o = out.lock();
            o.write_all(r.text().as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    t.join().unwrap();
}
