//! History and save-directory operations.
use crate::json::*;
use crate::doc::{R, hexb};
use dochy_core::structs::RootObject;
use dochy_fs::common::*;
use dochy_fs::filesys::*;
use dochy_fs::history::*;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, Condvar};

fn e<T: std::fmt::Display>(x: T) -> String { x.to_string() }

pub struct Cb { pub results: Mutex<Vec<(String, J, u64)>>, pub cond: Condvar }
impl Cb { pub fn push(&self, k: String, j: J) { self.results.lock().unwrap().push((k, j, crate::tick())); self.cond.notify_all(); } }

pub struct Fs {
    pub h: Mutex<HashMap<String, Arc<HistoryInfo>>>,
    pub s: Mutex<HashMap<String, Arc<SaveDirInfo>>>,
    pub cb: Arc<Cb>,
}
impl Fs { pub fn new() -> Fs { Fs { h: Mutex::new(HashMap::new()), s: Mutex::new(HashMap::new()), cb: Arc::new(Cb { results: Mutex::new(vec![]), cond: Condvar::new() }) } } }

fn src(c: &J) -> CurrentSrc {
    if !c.get("dir").is_null() { CurrentSrc::from_src_dir(c.get("dir").s()) } else { CurrentSrc::from_archive_file(c.get("arc").s()) }
}
fn us(j: &J) -> usize { j.i() as usize }
pub fn options(o: &J) -> Result<HistoryOptions, String> {
    let mut b = HistoryOptionsBuilder::new();
    if !o.get("max_phase").is_null() { b = b.max_phase(us(o.get("max_phase"))); }
    if !o.get("update0").is_null() { b = b.update_phase_0(o.get("update0").b()); }
    if !o.get("mt_save").is_null() { b = b.mt_save(o.get("mt_save").b()); }
    if !o.get("mt_load").is_null() { b = b.mt_load(o.get("mt_load").b()); }
    if !o.get("cum").is_null() {
        let c = o.get("cum");
        let mut cb = CumulativeOptionsBuilder::new();
        if !c.get("nth").is_null() { cb = cb.limit_nth(if c.get("nth").i() < 0 { None } else { Some(us(c.get("nth"))) }); }
        if !c.get("count").is_null() { cb = cb.limit_count(if c.get("count").i() < 0 { None } else { Some(us(c.get("count"))) }); }
        b = b.cumulative(Some(cb));
    } else if o.get("nocum").bo(false) { b = b.cumulative(None); }
    b.build().map_err(e)
}
pub fn props(p: &FileNameProps) -> J {
    ob(vec![("file", st(p.calc_filename())), ("ctl", J::Int(p.control() as i128)), ("prev", J::Int(p.prev_ctl() as i128)),
        ("order", J::Arr(p.order().iter().map(|x| J::Int(*x as i128)).collect())), ("phase", J::Int(p.phase() as i128)),
        ("tag", match p.tag() { Some(t) => st(t), None => J::Null })])
}
fn tag(c: &J) -> Option<String> { if c.get("tag").is_null() { None } else { Some(c.get("tag").s().to_string()) } }
fn hx(h: u128) -> J { st(format!("{:032x}", h)) }

fn find_and<T>(h: &HistoryInfo, c: &J, f: impl Fn(&HistoryFileData) -> Result<T, String>) -> Result<T, String> {
    let l = list_histories(h).map_err(e)?;
    for d in l.list_files() {
        if d.props().calc_filename() == c.get("file").s() && (c.get("hash").is_null() || c.get("hash").s() == format!("{:032x}", d.hash())) { return f(&d); }
    }
    Err(format!("not listed: {}", c.get("file").s()))
}

impl Fs {
    pub fn hist(&self, c: &J) -> Arc<HistoryInfo> { self.h.lock().unwrap().get(c.get("h").s()).expect("protocol: unknown history").clone() }
    pub fn sdir(&self, c: &J) -> Arc<SaveDirInfo> { self.s.lock().unwrap().get(c.get("s").s()).expect("protocol: unknown save dir").clone() }

    /// operations that need no document; None = not an operation of this module
    pub fn run(&self, op: &str, c: &J) -> Option<R> {
        match op {
            "h_open" | "h_list" | "h_prune" | "h_prune_hash" | "h_removable" | "h_remover" | "h_queued" | "h_clear" | "h_props" | "h_opts"
            | "s_open" | "s_list" | "s_remove" | "s_queued" | "cb_wait" | "cb_take" | "h_paths" => Some(self.run2(op, c)),
            _ => None,
        }
    }
    fn run2(&self, op: &str, c: &J) -> R {
        match op {
            "h_open" => {
                let o = options(c.get("opts"))?;
                let i = if c.get("force").bo(false) { unsafe { init_dochy_cache_us(std::path::Path::new(c.get("hdir").s()), src(c.get("src")), &o) } }
                    else { HistoryInfo::create(c.get("hdir").s(), src(c.get("src")), o) }.map_err(e)?;
                let h = i.hash();
                self.h.lock().unwrap().insert(c.get("h").s().to_string(), Arc::new(i));
                Ok(hx(h))
            }
            "h_opts" => {
                let o = options(c.get("opts"))?;
                Ok(ob(vec![("max_phase", J::Int(o.max_phase() as i128)), ("update0", J::Bool(o.update_phase_0())), ("cum", J::Bool(o.is_cumulative())),
                    ("nth", o.cumulative().and_then(|c| c.limit_nth()).map(|x| J::Int(x as i128)).unwrap_or(J::Null)),
                    ("count", o.cumulative().and_then(|c| c.limit_count()).map(|x| J::Int(x as i128)).unwrap_or(J::Null)),
                    ("mt_save", J::Bool(o.mt_save())), ("mt_load", J::Bool(o.mt_load()))]))
            }
            "h_list" => {
                let h = self.hist(c);
                let l = list_histories(&*h).map_err(e)?;
                let files: Vec<J> = l.list_files().iter().map(|d| J::Arr(vec![hx(d.hash()), props(d.props()),
                    st(d.calc_path(h.history_dir()).to_string_lossy().to_string())])).collect();
                let newest = match l.get_newest_file_data() { Some(d) => J::Arr(vec![hx(d.hash()), st(d.props().calc_filename())]), None => J::Null };
                let per: Vec<J> = l.iter().map(|(hh, f)| J::Arr(vec![hx(*hh), J::Arr(f.list_files().iter().map(|p| st(p.calc_filename())).collect()),
                    match f.newest_file_path(std::path::Path::new("")) { Some(p) => st(p.to_string_lossy().to_string()), None => J::Null }])).collect();
                Ok(ob(vec![("files", J::Arr(files)), ("newest", newest), ("per", J::Arr(per))]))
            }
            "h_prune" => {
                let h = self.hist(c);
                let l = list_histories(&*h).map_err(e)?;
                l.remove_old_files(us(c.get("keep")), h.history_dir()).map_err(e)?;
                Ok(J::Bool(true))
            }
            "h_prune_hash" => {
                let h = self.hist(c);
                let f = FileHistory::create(h.history_dir(), h.hash(), h.options().max_phase(), h.options().is_cumulative()).map_err(e)?;
                let left = f.remove_old_files(us(c.get("keep")), hash_dir_path(h.history_dir(), h.hash()));
                Ok(J::Int(left.len() as i128))
            }
            "h_removable" => {
                let h = self.hist(c);
                let f = FileHistory::create(h.history_dir(), h.hash(), h.options().max_phase(), h.options().is_cumulative()).map_err(e)?;
                let r = f.get_removable_old_items(us(c.get("keep"))).iter().map(|p| st(p.calc_filename())).collect();
                Ok(J::Arr(r))
            }
            "h_remover" => {
                let h = self.hist(c);
                let f = FileHistory::create(h.history_dir(), h.hash(), h.options().max_phase(), h.options().is_cumulative()).map_err(e)?;
                let r = HistoryRemover::from(&f);
                for n in c.get("keep").a() {
                    let p = FileNameProps::from(n.s()).ok_or("bad name")?;
                    r.keep(&p).ok_or(format!("keep failed {}", n.s()))?;
                }
                let out: Vec<J> = r.get_removable_props().iter().map(|p| st(p.calc_filename())).collect();
                if c.get("do").bo(true) { r.remove(hash_dir_path(h.history_dir(), h.hash())); }
                Ok(J::Arr(out))
            }
            "h_queued" => Ok(J::Int(self.hist(c).peekable().queued() as i128)),
            "h_clear" => { set_current_root_obj_info(&*self.hist(c), None); Ok(J::Bool(true)) }
            "h_props" => Ok(match FileNameProps::from(c.get("name").s()) { Some(p) => props(&p), None => J::Null }),
            "h_paths" => { let h = self.hist(c); Ok(st(hash_dir_path(h.history_dir(), h.hash()).to_string_lossy().to_string())) }
            "s_open" => {
                let i = if c.get("force").bo(false) { unsafe { force_update_and_get_info_us(c.get("sdir").s(), src(c.get("src"))) } }
                    else { SaveDirInfo::create(c.get("sdir").s(), src(c.get("src"))) }.map_err(e)?;
                let h = i.hash();
                self.s.lock().unwrap().insert(c.get("s").s().to_string(), Arc::new(i));
                Ok(hx(h))
            }
            "s_list" => {
                let v = list_dochy_files(c.get("sdir").s()).map_err(e)?;
                Ok(J::Arr(v.iter().map(|d| J::Arr(vec![hx(d.hash()), st(d.name()), J::Int(d.len() as i128), st(d.calc_path(c.get("sdir").s()).to_string_lossy().to_string())])).collect()))
            }
            "s_remove" => {
                remove_dochy_file(c.get("sdir").s(), u128::from_str_radix(c.get("hash").s(), 16).unwrap(), c.get("file").s()).map_err(e)?;
                Ok(J::Bool(true))
            }
            "s_queued" => Ok(J::Int(self.sdir(c).queued_threads() as i128)),
            "cb_wait" => {
                let n = us(c.get("n"));
                let ms = if c.get("ms").is_null() { 20000 } else { c.get("ms").i() as u64 };
                let mut g = self.cb.results.lock().unwrap();
                let t0 = std::time::Instant::now();
                while g.len() < n && t0.elapsed().as_millis() < ms as u128 {
                    let (g2, _) = self.cb.cond.wait_timeout(g, std::time::Duration::from_millis(20)).unwrap();
                    g = g2;
                }
                if c.get("settle").bo(false) { drop(g); std::thread::sleep(std::time::Duration::from_millis(30)); g = self.cb.results.lock().unwrap(); }
                Ok(J::Arr(g.drain(..).map(|(k, v, t)| J::Arr(vec![st(k), v, J::Int(t as i128)])).collect()))
            }
            "cb_take" => Ok(J::Arr(self.cb.results.lock().unwrap().drain(..).map(|(k, v, t)| J::Arr(vec![st(k), v, J::Int(t as i128)])).collect())),
            _ => unreachable!(),
        }
    }

    pub fn h_save(&self, c: &J, r: &RootObject) -> R { save_history_file(&*self.hist(c), tag(c), r).map(|p| props(&p)).map_err(e) }
    pub fn h_save_nb(&self, c: &J, r: &RootObject) -> R {
        let cb = self.cb.clone();
        let key = c.get("key").s().to_string();
        // an optional pause inside the callback keeps the save thread busy
        let pause = if c.get("pause").is_null() { 0 } else { c.get("pause").i() as u64 };
        let f = move |x: dochy_fs::FsResult<FileNameProps>| {
            let j = match x { Ok(p) => ob(vec![("ok", props(&p))]), Err(er) => ob(vec![("err", st(er.to_string()))]) };
            if pause > 0 { std::thread::sleep(std::time::Duration::from_millis(pause)); }
            cb.push(key, j);
        };
        let h = self.hist(c);
        if c.get("vacant").bo(false) { return Ok(J::Bool(save_history_file_nb_if_vacant(&*h, tag(c), r, f))); }
        save_history_file_nb(&*h, tag(c), r, f);
        Ok(J::Bool(true))
    }
    pub fn h_load(&self, c: &J) -> Result<RootObject, String> {
        let h = self.hist(c);
        let val = c.get("validation").bo(true);
        match c.get("via") {
            J::Str(s) if s == "history" => {
                let f = FileHistory::create(h.history_dir(), h.hash(), h.options().max_phase(), h.options().is_cumulative()).map_err(e)?;
                let p = FileNameProps::from(c.get("file").s()).ok_or("bad name")?;
                let p = f.get_props(p.control(), p.order()).ok_or("not listed")?;
                load_history_file(&*h, p, &f, val).map_err(e)
            }
            J::Str(s) if s == "newest" => {
                let l = list_histories(&*h).map_err(e)?;
                let d = l.get_newest_file_data().ok_or("no newest")?;
                load_history_file_data(&*h, &d, val).map_err(e)
            }
            _ => find_and(&h, c, |d| load_history_file_data(&*h, d, val).map_err(e)),
        }
    }
    pub fn h_src(&self, c: &J) -> RootObject { self.hist(c).clone_src_root() }
    pub fn s_src(&self, c: &J) -> RootObject { self.sdir(c).clone_src_root() }
    pub fn s_save(&self, c: &J, r: &RootObject) -> R {
        save_dochy_file(&*self.sdir(c), c.get("file").s(), r, c.get("ow").bo(false)).map(|p| st(p.to_string_lossy().to_string())).map_err(e)
    }
    pub fn s_save_nb(&self, c: &J, r: &RootObject) -> R {
        let cb = self.cb.clone();
        let key = c.get("key").s().to_string();
        save_dochy_file_nb(&*self.sdir(c), c.get("file").s(), r, c.get("ow").bo(false), move |x| {
            let j = match x { Ok(p) => ob(vec![("ok", st(p.to_string_lossy().to_string()))]), Err(er) => ob(vec![("err", st(er.to_string()))]) };
            cb.push(key, j);
        });
        Ok(J::Bool(true))
    }
    pub fn s_load(&self, c: &J) -> Result<RootObject, String> {
        load_dochy_file(c.get("path").s(), &*self.sdir(c), c.get("validation").bo(true)).map_err(e)
    }
}
#[allow(dead_code)]
pub fn _unused() -> String { hexb(&[]) }
