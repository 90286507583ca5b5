//! Runs one plan: every client is a fresh thread that drives the real library against the simulated machine.
use crate::model::*;
use crate::own::Own;
use crate::pkg::*;
use crate::plan::*;
use crate::sim::*;
use draviavemal_openxml_office::document_2007::{Word, WordPropertiesModel};
use draviavemal_openxml_office::presentation_2007::{PowerPoint, PowerPointPropertiesModel};
use draviavemal_openxml_office::spreadsheet_2007::models::*;
use draviavemal_openxml_office::spreadsheet_2007::parts::WorkSheet;
use draviavemal_openxml_office::spreadsheet_2007::{Excel, ExcelPropertiesModel};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
pub struct Viol {
    pub cat: String,
    pub msg: String,
    pub client: usize,
    pub step: usize,
}
#[derive(Clone, Debug, Default)]
pub struct Saved {
    pub client: usize,
    pub step: usize,
    pub path: String,
    pub ok: bool,
    pub data: Option<Arc<Vec<u8>>>,
}
#[derive(Clone, Debug, Default)]
pub struct RunResult {
    pub viols: Vec<Viol>,
    pub hash: u64,
    pub log: Vec<String>,
    pub sys: u64,
    pub nsys: Vec<u32>,
    pub nalloc: Vec<u32>,
    pub preemptions: u64,
    pub lock_waits: u64,
    pub sim_ns: i64,
    pub fired: BTreeMap<String, u64>,
    pub fired_list: Vec<String>,
    pub switches: u64,
    pub choice_points: u64,
    pub errs: BTreeSet<(usize, usize)>, // (client, step) of steps that returned an error
    pub saves: Vec<Saved>,
    pub opens_ok: u64,
    pub saves_ok: u64,
    pub saves_err: u64,
    pub restarts: u64,
    pub steps: u64,
    pub states: BTreeSet<u64>,
    pub all_touched: BTreeSet<String>,
    pub ops: BTreeMap<&'static str, u64>,
    pub op_sys: BTreeMap<&'static str, u64>,
    pub final_files: BTreeMap<String, Arc<Vec<u8>>>,
    pub compared: u64,
}
/// shared between the clients of one run; only the baton holder touches it
#[derive(Default)]
struct Shared {
    viols: Vec<Viol>,
    errs: BTreeSet<(usize, usize)>,
    saves: Vec<Saved>,
    accepted: HashMap<String, Vec<Option<Arc<Vec<u8>>>>>,
    /// stored bytes of damaged files: what an honest open would yield
    tainted: BTreeMap<String, Option<Arc<Vec<u8>>>>,
    opens_ok: u64,
    saves_ok: u64,
    saves_err: u64,
    restarts: u64,
    steps: u64,
    states: BTreeSet<u64>,
    ops: BTreeMap<&'static str, u64>,
    op_sys: BTreeMap<&'static str, u64>,
    save_paths: BTreeSet<String>,
    compared: u64,
}
enum Lib {
    X(Own<Excel>),
    W(Own<Word>),
    P(Own<PowerPoint>),
}
struct Handle {
    ws: WorkSheet,
    uids: Vec<Option<u32>>, // per candidate model
    open: bool,
}
struct Session {
    lib: Option<Lib>,
    handles: BTreeMap<u8, Handle>,
    stale: Vec<WorkSheet>,
    models: Vec<Model>,
    styles: BTreeMap<u8, (StyleId, StyleSpec)>,
    open_seq: u64,
    clean: bool,
}
pub fn abs(p: &str) -> String {
    crate::seam::norm(p)
}
/// outcome of a library call
enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
    Dead,
}
struct Cl<'a> {
    m: &'a Arc<Machine>,
    id: usize,
    sh: &'a Mutex<Shared>,
    s: Option<Session>,
    step: usize,
    solo: bool,
}
#[derive(PartialEq, Clone, Copy)]
enum Exp {
    Ok,
    Err,
    Any,
}
fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<String>() { s.clone() } else if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else { "panic".into() }
}
thread_local! {
    pub static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.location().map(|l| format!("{}:{}", l.file().rsplit('/').take(3).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("/"), l.line())).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = s);
        if std::env::var_os("DST_PANIC").is_some() && ctx().is_none() {
            eprintln!("harness panic: {}", i);
        }
    }));
}
/// what faults fired for this client since the marks
struct Mark {
    fired: usize,
    seq: u64,
    vers: BTreeMap<String, usize>,
}
impl<'a> Cl<'a> {
    fn viol(&self, cat: &str, msg: String) {
        let mut s = self.sh.lock().unwrap();
        if s.viols.len() < 80 {
            s.viols.push(Viol { cat: cat.into(), msg, client: self.id, step: self.step });
        }
    }
    fn mark(&self) -> Mark {
        let w = self.m.lock();
        Mark { fired: w.fired_list.len(), seq: w.seq, vers: w.versions.iter().map(|(k, v)| (k.clone(), v.len())).collect() }
    }
    /// (hard faults, recoverable faults) of this client since the mark
    fn faults_since(&self, mk: &Mark) -> (bool, bool, bool) {
        let w = self.m.lock();
        let me = format!("c{} ", self.id);
        let (mut hard, mut soft, mut unlink) = (false, false, false);
        for f in &w.fired_list[mk.fired.min(w.fired_list.len())..] {
            let mine = f.starts_with(&me);
            let k = f.split(' ').nth(1).unwrap_or("");
            match k {
                "power_loss" => hard = true,
                "eintr" | "short_read" | "short_write" | "clock_forward" | "clock_back" | "stall" => soft |= mine,
                "disk_full" => hard = true,
                _ => hard |= mine,
            }
            if mine && f.contains("at Unlink") {
                unlink = true;
            }
        }
        (hard, soft, unlink)
    }
    fn dead(&self) -> bool {
        self.m.lock().clients[self.id].dead
    }
    fn call<T>(&mut self, op: &'static str, f: impl FnOnce(&mut Session) -> anyhow_lite::R<T>) -> Out<T> {
        {
            let mut w = self.m.lock();
            w.clients[self.id].in_op = op;
            w.clients[self.id].op_sys = 0;
            let id = self.id;
            w.note(id, "call", op, 0);
        }
        let s = self.s.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let _l = InLib::new();
            f(s)
        }));
        let (hung, dead, n) = {
            let mut w = self.m.lock();
            w.clients[self.id].in_op = "";
            let c = &mut w.clients[self.id];
            let h = c.hung;
            c.hung = false;
            (h, c.dead, c.op_sys)
        };
        {
            let mut sh = self.sh.lock().unwrap();
            *sh.ops.entry(op).or_insert(0) += 1;
            let e = sh.op_sys.entry(op).or_insert(0);
            *e = (*e).max(n);
        }
        #[cfg(feature = "ffi")]
        for p in crate::ffi::problems() {
            if !dead {
                self.viol("ffi", p);
            }
        }
        if hung {
            self.viol("hang", format!("{} made more than {} storage calls", op, SYSCALL_CAP));
        }
        {
            let mut w = self.m.lock();
            let id = self.id;
            let txt = match &r {
                Ok(Ok(_)) => "ok",
                Ok(Err(_)) => "err",
                Err(_) => "panic",
            };
            w.note(id, "return", txt, 0);
        }
        match r {
            Ok(Ok(v)) => {
                if dead {
                    return Out::Dead;
                }
                Out::Ok(v)
            }
            Ok(Err(e)) => {
                if dead {
                    return Out::Dead;
                }
                self.sh.lock().unwrap().errs.insert((self.id, self.step));
                Out::Err(e)
            }
            Err(p) => {
                let t = panic_text(p);
                let at = PANIC_AT.with(|x| x.borrow().clone());
                if dead {
                    return Out::Dead;
                }
                Out::Panic(format!("{} panicked at {}: {}", op, at, t))
            }
        }
    }
    /// Judge an in-memory operation: prune candidate models whose expectation does not fit, report if none is left.
    fn judge<T>(&mut self, op: &'static str, out: &Out<T>, exp: Vec<Exp>, cat: &str, what: &str) -> bool {
        let ok = match out {
            Out::Ok(_) => true,
            Out::Err(_) => false,
            Out::Panic(p) => {
                self.viol("panic", format!("{} ({})", p, what));
                return false;
            }
            Out::Dead => return false,
        };
        let _ = op;
        let keep: Vec<bool> = exp.iter().map(|e| *e == Exp::Any || (*e == Exp::Ok) == ok).collect();
        if !keep.iter().any(|k| *k) {
            let m = match out {
                Out::Err(e) => format!("{} failed: {}", what, e),
                _ => format!("{} was accepted", what),
            };
            self.viol(cat, m);
            return ok;
        }
        if keep.iter().any(|k| !*k) {
            let s = self.s.as_mut().unwrap();
            let mut i = 0;
            s.models.retain(|_| {
                i += 1;
                keep[i - 1]
            });
            for h in s.handles.values_mut() {
                let mut i = 0;
                h.uids.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
        }
        ok
    }
    fn end_session(&mut self) {
        // all library objects of the session are dropped: every descriptor must be closed
        if let Some(s) = self.s.take() {
            let r = catch_unwind(AssertUnwindSafe(move || {
                let _l = InLib::new();
                drop(s)
            }));
            if let Err(p) = r {
                if !self.dead() {
                    let t = panic_text(p);
                    self.viol("panic", format!("drop of the session panicked at {}: {}", PANIC_AT.with(|x| x.borrow().clone()), t));
                }
            }
        }
        let w = self.m.lock();
        if !w.clients[self.id].dead {
            let open: Vec<String> = w.clients[self.id].fds.values().map(|f| f.path.clone()).collect();
            drop(w);
            if !open.is_empty() {
                self.viol("fdleak", format!("descriptors left open after the session: {}", open.join(", ")));
                self.m.lock().clients[self.id].fds.clear();
            }
        }
    }
    fn crash(&mut self) {
        self.end_session();
        let mut w = self.m.lock();
        w.restart(self.id);
        drop(w);
        self.sh.lock().unwrap().restarts += 1;
    }
    fn load(&self, doc: &Doc, data: &Arc<Vec<u8>>) -> Result<Model, String> {
        let key = (Arc::as_ptr(data) as usize, doc.clone());
        let _ = key;
        Model::load(doc.clone(), data)
    }
    fn step(&mut self, st: &Step) {
        self.sh.lock().unwrap().steps += 1;
        match st {
            Step::Open { path, doc } => self.open(path.as_deref(), doc),
            Step::Save { path } => self.save(path),
            Step::Drop => self.drop_session(),
            Step::Jump { secs } => {
                let mut w = self.m.lock();
                w.now_ns = clamp_clock(w.now_ns + secs * 1_000_000_000);
                let id = self.id;
                w.note(id, "clock jump", "", *secs);
                *w.fired.entry(if *secs >= 0 { "clock_forward" } else { "clock_back" }).or_insert(0) += 1;
            }
            Step::Freeze { on } => {
                let mut w = self.m.lock();
                w.frozen = *on;
                if *on {
                    *w.fired.entry("clock_frozen").or_insert(0) += 1;
                }
            }
            Step::Corrupt { path, at, mask, region } => self.damage(path, |b| {
                let mut v = b.to_vec();
                let ents = zip_dir(b).ok()?;
                let ents: Vec<_> = ents.iter().filter(|e| e.csize > 0).collect();
                if ents.is_empty() {
                    return None;
                }
                let e = ents[*region as usize % ents.len()];
                let i = e.data_at + (*at as usize) % e.csize;
                v[i] ^= if *mask == 0 { 1 } else { *mask };
                Some((v, format!("byte {} of part {}", i - e.data_at, e.name)))
            }),
            Step::Truncate { path, at } => self.damage(path, |b| {
                if b.len() < 2 {
                    return None;
                }
                let n = (*at as usize) % b.len();
                Some((b[..n].to_vec(), format!("cut to {} of {} bytes", n, b.len())))
            }),
            Step::PowerCycle { seed } => {
                {
                    let mut w = self.m.lock();
                    let before: Vec<(String, Option<Arc<Vec<u8>>>)> = w.versions.keys().map(|p| (p.clone(), w.disk.get(p))).collect();
                    let t = w.disk.power_loss(*seed);
                    let id = self.id;
                    w.fire(id, "power_loss", "step");
                    w.note(id, "power", &t, 0);
                    for c in w.clients.iter_mut() {
                        c.dead = true;
                    }
                    for (p, old) in before {
                        if w.disk.get(&p) != old {
                            w.push_version(&p, usize::MAX);
                        }
                    }
                }
                self.crash();
            }
            Step::Copy { from, to } => {
                let mut w = self.m.lock();
                if let Some(d) = w.disk.get(&abs(from)) {
                    w.disk.put_durable(&abs(to), d.to_vec());
                    w.push_version(&abs(to), usize::MAX - 1);
                    let mut sh = self.sh.lock().unwrap();
                    sh.accepted.entry(abs(to)).or_default().push(Some(d));
                }
            }
            Step::Heal => {
                let mut w = self.m.lock();
                w.faults_on = false;
            }
            Step::Capacity { bytes } => {
                let mut w = self.m.lock();
                let used = w.disk.used();
                w.disk.capacity = bytes.map(|b| used + b);
            }
            _ => {
                if self.s.is_some() {
                    self.edit(st);
                }
            }
        }
        if self.dead() {
            self.crash();
        }
        // a measure of what was reached: the operation, its outcome, the shape of the session
        let shape = self.s.as_ref().map(|s| (s.handles.values().filter(|h| h.open).count(), s.models.first().map(|m| (m.wb.sheets.len(), m.wb.sheets.iter().map(|x| x.cells.len().min(9)).sum::<usize>(), m.deleted.len().min(3))))).unwrap_or_default();
        let tag = match st {
            Step::Cells { .. } | Step::RefCells { .. } => 1u64,
            Step::Open { .. } => 2,
            Step::Save { .. } => 3,
            Step::Row { .. } => 4,
            Step::Col { .. } | Step::ColRef { .. } => 5,
            Step::Style { .. } => 6,
            Step::Add { .. } => 7,
            Step::Get { .. } => 8,
            Step::Delete { .. } => 9,
            Step::Rename { .. } => 10,
            Step::Hide { .. } => 11,
            _ => 12,
        };
        let mut sh = self.sh.lock().unwrap();
        let e = sh.errs.contains(&(self.id, self.step));
        let h = crate::rng::fnv(crate::rng::FNV0, format!("{} {} {:?}", tag, e, shape).as_bytes());
        sh.states.insert(h);
    }
    fn damage(&mut self, path: &str, f: impl FnOnce(&[u8]) -> Option<(Vec<u8>, String)>) {
        let p = abs(path);
        let mut w = self.m.lock();
        let Some(d0) = w.disk.get(&p) else { return };
        if let Some((v, what)) = f(&d0) {
            let ino = w.disk.names[&p];
            let a = Arc::new(v);
            w.disk.inodes[ino].data = a.clone();
            w.disk.inodes[ino].durable = a.clone();
            let id = self.id;
            w.fire(id, "media_damage", &format!("{} {}", path, what));
            w.push_version(&p, usize::MAX - 1);
            let mut sh = self.sh.lock().unwrap();
            sh.accepted.entry(p.clone()).or_default().push(Some(a));
            sh.tainted.entry(p).or_insert(Some(d0));
        }
    }
    // ------------------------------------------------------------ sessions
    fn drop_session(&mut self) {
        if self.s.is_none() {
            return;
        }
        let mk = self.mark();
        self.end_session();
        if self.dead() {
            return;
        }
        self.footprint(&mk, None, "abandoned session");
    }
    /// nothing but `dest` may have changed since the mark by this client, and no new name may exist
    fn footprint(&mut self, mk: &Mark, dest: Option<&str>, what: &str) {
        let (_, _, unlink) = self.faults_since(mk);
        let mut bad = vec![];
        {
            let mut w = self.m.lock();
            let t: Vec<String> = w.clients[self.id].touched.iter().cloned().collect();
            w.clients[self.id].touched.clear();
            for p in t {
                if Some(p.as_str()) == dest {
                    continue;
                }
                match w.versions.get(&p) {
                    Some(v) => {
                        let n = mk.vers.get(&p).cloned().unwrap_or(0);
                        if v[n.min(v.len())..].iter().any(|x| x.client == self.id) {
                            bad.push(format!("{} changed {}", what, p));
                        }
                    }
                    None => {
                        if (w.disk.names.contains_key(&p) || w.disk.dirs.contains(&p)) && !unlink && w.owner.get(&p) == Some(&self.id) {
                            bad.push(format!("{} left {} behind", what, p));
                        }
                    }
                }
            }
            let b = std::mem::take(&mut w.clients[self.id].bad_calls);
            bad.extend(b);
        }
        for b in bad {
            self.viol("footprint", b);
        }
    }
    fn open(&mut self, path: Option<&str>, doc: &Doc) {
        if self.s.is_some() {
            self.drop_session();
        }
        let mk = self.mark();
        {
            let mut w = self.m.lock();
            w.clients[self.id].touched.clear();
            w.clients[self.id].clock_reads.clear();
        }
        self.s = Some(Session { lib: None, handles: BTreeMap::new(), stale: vec![], models: vec![], styles: BTreeMap::new(), open_seq: mk.seq, clean: true });
        let before = path.map(|p| self.m.lock().disk.get(&abs(p)));
        let p = path.map(|s| s.to_string());
        let d2 = doc.clone();
        let out = self.call("open", move |s| {
            #[cfg(feature = "ffi")]
            if crate::ffi::via() {
                use crate::ffi::Foreign;
                let p = p.as_deref();
                s.lib = Some(match d2 {
                    Doc::Excel => Lib::X(Own::C(Excel::open(p)?)),
                    Doc::Word => Lib::W(Own::C(Word::open(p)?)),
                    Doc::Ppt => Lib::P(Own::C(PowerPoint::open(p)?)),
                });
                return Ok(());
            }
            s.lib = Some(match d2 {
                Doc::Excel => Lib::X(Own::Rust(Box::new(Excel::new(p, ExcelPropertiesModel::default()).map_err(err)?))),
                Doc::Word => Lib::W(Own::Rust(Box::new(Word::new(p, WordPropertiesModel { is_in_memory: true }).map_err(err)?))),
                Doc::Ppt => Lib::P(Own::Rust(Box::new(PowerPoint::new(p, PowerPointPropertiesModel { is_in_memory: true }).map_err(err)?))),
            });
            Ok(())
        });
        if let Out::Dead = out {
            return;
        }
        let (hard, _, _) = self.faults_since(&mk);
        // what the open may have seen: every version of the file current at some instant of the call
        let mut cand: Vec<Option<Arc<Vec<u8>>>> = vec![];
        let mut taint = false;
        if let Some(p) = path {
            let a = abs(p);
            if let Some(orig) = self.sh.lock().unwrap().tainted.get(&a) {
                cand.push(orig.clone());
                taint = true;
            } else {
                let w = self.m.lock();
                match w.versions.get(&a) {
                    Some(v) => {
                        let from = mk.vers.get(&a).cloned().unwrap_or(1).max(1) - 1;
                        for x in &v[from..] {
                            if !cand.contains(&x.data) {
                                cand.push(x.data.clone());
                            }
                        }
                    }
                    None => cand.push(before.clone().unwrap()),
                }
            }
        }
        self.footprint(&mk, None, "open");
        match out {
            Out::Ok(()) => {
                let mut models = vec![];
                let mut why = String::new();
                if path.is_none() {
                    models.push(Model::new_doc(doc.clone()));
                } else {
                    for c in &cand {
                        match c {
                            None => why = "the file does not exist".into(),
                            Some(b) => match self.load(doc, b) {
                                Ok(m) => models.push(m),
                                Err(e) => why = e,
                            },
                        }
                    }
                }
                self.sh.lock().unwrap().opens_ok += 1;
                if models.is_empty() {
                    self.viol("open.accepts", format!("open of {:?} succeeded but {}", path, why));
                    self.end_session();
                    return;
                }
                let s = self.s.as_mut().unwrap();
                s.models = models;
                s.clean = !taint;
            }
            Out::Err(e) => {
                self.end_session();
                let legit = hard || taint || cand.iter().any(|c| match c {
                    None => true,
                    Some(b) => self.load(doc, b).is_err(),
                });
                if !legit || path.is_none() && !hard {
                    self.viol("open.fails", format!("open of {:?} failed without a reason: {}", path, e));
                }
            }
            Out::Panic(t) => {
                self.end_session();
                self.viol("panic", t);
            }
            Out::Dead => {}
        }
    }
    fn save(&mut self, path: &str) {
        if self.s.is_none() {
            return;
        }
        let a = abs(path);
        let mk = self.mark();
        {
            let mut w = self.m.lock();
            w.track(&a);
            w.clients[self.id].touched.clear();
        }
        // a place where nothing can be stored
        let impossible = {
            let w = self.m.lock();
            w.disk.dirs.contains(&a) || !w.disk.dirs.contains(&crate::seam::parent(&a))
        };
        self.sh.lock().unwrap().save_paths.insert(a.clone());
        let mk = Mark { vers: self.mark().vers, ..mk };
        let p = path.to_string();
        let out = self.call("save", move |s| match s.lib.take() {
            #[cfg(feature = "ffi")]
            Some(Lib::X(x @ Own::C(_))) => crate::ffi::Foreign::store(x.raw(), &p),
            Some(Lib::X(x)) => x.rust().save_as(&p).map_err(err),
            #[cfg(feature = "ffi")]
            Some(Lib::W(x @ Own::C(_))) => crate::ffi::Foreign::store(x.raw(), &p),
            Some(Lib::W(x)) => x.rust().save_as(&p).map_err(err),
            #[cfg(feature = "ffi")]
            Some(Lib::P(x @ Own::C(_))) => crate::ffi::Foreign::store(x.raw(), &p),
            Some(Lib::P(x)) => x.rust().save_as(&p).map_err(err),
            None => Err("no document".into()),
        });
        let hard = self.faults_since(&mk).0 || impossible;
        // every version this save published must be complete
        let (pubd, now): (Vec<Option<Arc<Vec<u8>>>>, Option<Arc<Vec<u8>>>) = {
            let w = self.m.lock();
            let v = &w.versions[&a];
            let n = mk.vers[&a];
            (v[n..].iter().filter(|x| x.client == self.id).map(|x| x.data.clone()).collect(), v[n..].iter().rev().find(|x| x.client == self.id).map(|x| x.data.clone()).unwrap_or_else(|| w.disk.get(&a)))
        };
        let mut models = std::mem::take(&mut self.s.as_mut().unwrap().models);
        let clock: Vec<(u64, i64)> = self.m.lock().clients[self.id].clock_reads.clone();
        let mut diffs_of_last: Option<Vec<Diff>> = None;
        for v in &pubd {
            let ok = match v {
                None => Err("the destination was removed".to_string()),
                Some(b) => {
                    let mut best: Option<Vec<Diff>> = None;
                    let mut keep = vec![];
                    for m in &models {
                        self.sh.lock().unwrap().compared += 1;
                        let d = m.compare(b);
                        keep.push(d.is_empty());
                        if best.as_ref().map(|x| d.len() < x.len()).unwrap_or(true) {
                            best = Some(d);
                        }
                    }
                    if keep.iter().any(|k| *k) {
                        let mut i = 0;
                        models.retain(|_| {
                            i += 1;
                            keep[i - 1]
                        });
                    }
                    let d = best.unwrap_or_default();
                    let fatal = d.iter().find(|x| x.cat == "package").map(|x| x.msg.clone());
                    diffs_of_last = Some(d);
                    match fatal {
                        Some(m) => Err(m),
                        None => Ok(()),
                    }
                }
            };
            match ok {
                Ok(()) => {
                    self.sh.lock().unwrap().accepted.entry(a.clone()).or_default().push(v.clone());
                }
                Err(m) => self.viol("atomic", format!("during the save {} held neither the old nor the new document: {}", path, m)),
            }
        }
        if !pubd.is_empty() {
            self.sh.lock().unwrap().tainted.remove(&a);
        }
        for d in diffs_of_last.iter().flatten() {
            self.viol(d.cat, d.msg.clone());
        }
        if let Out::Dead = out {
            return;
        }
        {
            let mut sh = self.sh.lock().unwrap();
            sh.saves.push(Saved { client: self.id, step: self.step, path: a.clone(), ok: matches!(out, Out::Ok(_)), data: now.clone() });
        }
        match out {
            Out::Ok(()) => {
                self.sh.lock().unwrap().saves_ok += 1;
                match &now {
                    None => self.viol("truth", format!("save to {} reported success but nothing is there", path)),
                    Some(b) => {
                        if diffs_of_last.is_none() {
                            // nothing was published: the content must then be right already
                            let d = models.iter().map(|m| m.compare(b)).min_by_key(|d| d.len()).unwrap_or_default();
                            for x in d {
                                self.viol(x.cat, x.msg.clone());
                                self.viol("truth", format!("save to {} reported success but stored nothing: {}", path, x.msg));
                            }
                        }
                        self.times(b, &mk, &clock, &models);
                    }
                }
            }
            Out::Err(e) => {
                self.sh.lock().unwrap().saves_err += 1;
                if !hard {
                    self.viol("save.fails", format!("save to {} failed without a reason: {}", path, e));
                }
            }
            Out::Panic(t) => self.viol("panic", t),
            Out::Dead => {}
        }
        // handles that outlive the document are kept a little and then dropped
        self.end_session();
        if self.dead() {
            return;
        }
        self.footprint(&mk, Some(&a), "save");
    }
    fn times(&self, b: &Arc<Vec<u8>>, mk: &Mark, clock: &[(u64, i64)], models: &[Model]) {
        let Ok(p) = Pkg::read(b) else { return };
        let Some(c) = read_core(&p) else { return };
        let Some(m) = models.first() else { return };
        let during: Vec<i64> = clock.iter().filter(|x| x.0 >= mk.seq).map(|x| x.1.div_euclid(1_000_000_000)).collect();
        match c.modified.as_deref().map(parse_utc) {
            Some(Some(t)) => {
                if !during.contains(&t) {
                    self.viol("modified", format!("last-modified {:?} but the clock during the save read {:?}", c.modified, during.iter().map(|t| show_utc(*t)).collect::<Vec<_>>()));
                }
            }
            x => self.viol("modified", format!("last-modified is {:?} ({})", c.modified, if x.is_none() { "missing" } else { "not a UTC time" })),
        }
        if m.is_new {
            let all: Vec<i64> = clock.iter().map(|x| x.1.div_euclid(1_000_000_000)).collect();
            match c.created.as_deref().map(parse_utc) {
                Some(Some(t)) => {
                    if !all.contains(&t) {
                        self.viol("created", format!("creation time {:?} of a new document but the clock read {:?}", c.created, all.iter().map(|t| show_utc(*t)).collect::<Vec<_>>()));
                    }
                }
                _ => self.viol("created", format!("creation time of a new document is {:?}", c.created)),
            }
        }
    }
    // ------------------------------------------------------------ editing
    fn x(s: &mut Session) -> anyhow_lite::R<&mut Excel> {
        match s.lib.as_mut() {
            Some(Lib::X(x)) => Ok(x),
            _ => Err("no workbook".into()),
        }
    }
    /// the workbook as a foreign caller holds it
    #[cfg(feature = "ffi")]
    fn foreign(s: &mut Session) -> Option<*mut Excel> {
        match s.lib.as_mut() {
            Some(Lib::X(x @ Own::C(_))) => Some(x.ptr()),
            _ => None,
        }
    }
    fn edit(&mut self, st: &Step) {
        if !matches!(self.s.as_ref().unwrap().lib, Some(Lib::X(_))) {
            return;
        }
        if self.s.as_ref().unwrap().models.is_empty() {
            return;
        }
        // the scheduler may switch here
        {
            let w = self.m.lock();
            let mut w = self.m.yield_point(w, self.id);
            w.tick();
        }
        match st {
            Step::Add { name, h } => self.add_or_get(name.clone(), *h, true),
            Step::Get { name, h } => self.add_or_get(Some(name.clone()), *h, false),
            Step::Close { h } => {
                if let Some(hd) = self.s.as_mut().unwrap().handles.remove(h) {
                    let out = self.call("close", move |_| {
                        drop(hd);
                        Ok(())
                    });
                    if let Out::Panic(t) = out {
                        self.viol("panic", t);
                    }
                }
            }
            Step::Cells { h, row, col, by_ref, cells } => {
                let rf = if *by_ref { Some(format!("{}{}", col_name(*col as u32), row)) } else { None };
                self.cells(*h, *row, *col as u32, rf, cells);
            }
            Step::RefCells { h, cell_ref, cells } => {
                // a reference that names no cell must be refused
                match parse_ref(cell_ref) {
                    Some((r, c)) => self.cells(*h, r, c, Some(cell_ref.clone()), cells),
                    None => self.cells(*h, 0, 0, Some(cell_ref.clone()), cells),
                }
            }
            Step::Row { h, row, height, hidden, style, top, bot } => self.row(*h, *row, *height, *hidden, *style, *top, *bot),
            Step::Col { h, col, by_ref, clear, width, hidden, style, best } => self.col(*h, *col, *by_ref, *clear, *width, *hidden, *style, *best, None),
            Step::ColRef { h, col_ref } => {
                let c = parse_ref(&format!("{}1", col_ref)).map(|x| x.1 as u16).unwrap_or(0);
                self.col(*h, c, true, false, Some(17.5), None, None, None, Some(col_ref.clone()))
            }
            Step::Style { slot, spec } => self.style(*slot, spec),
            Step::Delete { h } => {
                let Some(hd) = self.s.as_mut().unwrap().handles.remove(h) else { return };
                let uids = hd.uids.clone();
                let ws = hd.ws;
                let out = self.call("delete", move |_| ws.delete_sheet_mut().map_err(err));
                let exp = vec![Exp::Ok; uids.len()];
                if self.judge("delete", &out, exp, "op.fails", "deleting a sheet") {
                    let s = self.s.as_mut().unwrap();
                    for (m, u) in s.models.iter_mut().zip(uids) {
                        if let Some(u) = u {
                            m.delete(u);
                        }
                    }
                }
            }
            Step::Rename { old, new } => {
                let (o, n) = (old.clone(), new.clone());
                let exp: Vec<Exp> = self.s.as_ref().unwrap().models.iter().map(|m| if m.by_name(old).is_none() || new.is_empty() { Exp::Err } else if unstorable(new) || old == new { Exp::Any } else if m.by_name_nocase(new).is_some_and(|u| Some(u) != m.by_name(old)) { Exp::Err } else { Exp::Ok }).collect();
                let out = self.call("rename", move |s| {
                    #[cfg(feature = "ffi")]
                    if let Some(x) = Self::foreign(s).filter(|_| !crate::ffi::odd(&o) && !crate::ffi::odd(&n)) {
                        return crate::ffi::rename_sheet(x, &o, &n);
                    }
                    Self::x(s)?.rename_sheet_name_mut(o, n).map_err(err)
                });
                if self.judge("rename", &out, exp, "op.rename", &format!("renaming {:?} to {:?}", old, new)) {
                    for m in self.s.as_mut().unwrap().models.iter_mut() {
                        if let Some(u) = m.by_name(old) {
                            let i = m.ix(u).unwrap();
                            m.wb.sheets[i].name = new.clone();
                        }
                    }
                }
                self.check_list();
            }
            Step::Hide { name } => {
                let n = name.clone();
                let out = self.call("hide", move |s| {
                    #[cfg(feature = "ffi")]
                    if let Some(x) = Self::foreign(s).filter(|_| !crate::ffi::odd(&n)) {
                        return crate::ffi::hide_sheet(x, &n);
                    }
                    Self::x(s)?.hide_sheet_mut(n).map_err(err)
                });
                // hiding the last visible sheet may be refused
                let last = |m: &Model, u: u32| m.wb.sheets.iter().enumerate().all(|(i, x)| Some(i) == m.ix(u) || x.state != "visible");
                let exp: Vec<Exp> = self.s.as_ref().unwrap().models.iter().map(|m| if m.by_name(name).is_some_and(|u| !last(m, u)) { Exp::Ok } else { Exp::Any }).collect();
                if self.judge("hide", &out, exp, "op.fails", &format!("hiding {:?}", name)) {
                    for m in self.s.as_mut().unwrap().models.iter_mut() {
                        if let Some(i) = m.by_name(name).and_then(|u| m.ix(u)) {
                            if m.wb.sheets[i].state == "visible" {
                                m.wb.sheets[i].state = "hidden".into();
                            }
                            // a hidden sheet may stop being the active one
                            if m.active == m.by_name(name) {
                                m.active = None;
                            }
                        }
                    }
                }
            }
            Step::Active { name } => {
                let n = name.clone();
                let out = self.call("activate", move |s| Self::x(s)?.set_active_sheet_mut(n).map_err(err));
                let exp: Vec<Exp> = self.s.as_ref().unwrap().models.iter().map(|m| if m.by_name(name).is_some() { Exp::Ok } else { Exp::Any }).collect();
                if self.judge("activate", &out, exp, "op.fails", &format!("activating {:?}", name)) {
                    for m in self.s.as_mut().unwrap().models.iter_mut() {
                        if let Some(u) = m.by_name(name) {
                            m.active = Some(u);
                        }
                    }
                }
            }
            Step::View { which, on } => {
                let (w, o) = (*which % 5, *on);
                let out = self.call("view", move |s| {
                    let x = Self::x(s)?;
                    match w {
                        0 => x.set_visibility_mut(o),
                        1 => x.minimize_workbook_mut(o),
                        2 => x.hide_sheet_tabs_mut(o),
                        3 => x.hide_vertical_scroll_mut(o),
                        _ => x.hide_horizontal_scroll_mut(o),
                    }
                    .map_err(err)
                });
                let n = self.s.as_ref().unwrap().models.len();
                if self.judge("view", &out, vec![Exp::Ok; n], "op.fails", "a window setting") {
                    for m in self.s.as_mut().unwrap().models.iter_mut() {
                        match w {
                            0 => m.set_view("visibility", if o { "visible" } else { "hidden" }, "visible"),
                            1 => m.set_view("minimized", if o { "1" } else { "0" }, "0"),
                            2 => m.set_view("showSheetTabs", if o { "0" } else { "1" }, "1"),
                            3 => m.set_view("showVerticalScroll", if o { "0" } else { "1" }, "1"),
                            _ => m.set_view("showHorizontalScroll", if o { "0" } else { "1" }, "1"),
                        }
                    }
                }
            }
            Step::List => self.check_list(),
            _ => {}
        }
    }
    fn check_list(&mut self) {
        let out = self.call("list", |s| Self::x(s)?.list_sheet_names().map_err(err));
        match out {
            Out::Ok(l) => {
                let exp: Vec<Exp> = self.s.as_ref().unwrap().models.iter().map(|m| if m.names() == l { Exp::Ok } else { Exp::Err }).collect();
                if !exp.contains(&Exp::Ok) {
                    let m = self.s.as_ref().unwrap().models[0].names();
                    self.viol("sheets", format!("listing gives {:?} but the sheets are {:?}", l, m));
                } else {
                    let o: Out<()> = Out::Ok(());
                    self.judge("list", &o, exp, "sheets", "list");
                }
            }
            Out::Err(e) => self.viol("op.fails", format!("listing the sheets failed: {}", e)),
            Out::Panic(t) => self.viol("panic", t),
            Out::Dead => {}
        }
    }
    fn add_or_get(&mut self, name: Option<String>, h: u8, is_add: bool) {
        // a handle slot in use is closed first
        if self.s.as_ref().unwrap().handles.contains_key(&h) {
            self.edit(&Step::Close { h });
        }
        let open: Vec<Vec<Option<u32>>> = self.s.as_ref().unwrap().handles.values().filter(|x| x.open).map(|x| x.uids.clone()).collect();
        let exp: Vec<Exp> = self
            .s
            .as_ref()
            .unwrap()
            .models
            .iter()
            .enumerate()
            .map(|(i, m)| match &name {
                None => Exp::Ok,
                Some(n) => match m.by_name(n) {
                    Some(u) => {
                        let ws = m.wb.sheets[m.ix(u).unwrap()].kind == "worksheet";
                        if open.iter().any(|o| o[i] == Some(u)) {
                            Exp::Err
                        } else if !ws {
                            Exp::Err
                        } else if is_add {
                            Exp::Any
                        } else {
                            Exp::Ok
                        }
                    }
                    None => {
                        if n.is_empty() || unstorable(n) {
                            Exp::Any
                        } else if m.by_name_nocase(n).is_some() {
                            Exp::Err // names differing only in case: the file would be damaged to its users
                        } else if is_add {
                            Exp::Ok
                        } else {
                            Exp::Any
                        }
                    }
                },
            })
            .collect();
        let n2 = name.clone();
        let out = self.call(if is_add { "add" } else { "get" }, move |s| {
            #[cfg(feature = "ffi")]
            if let Some(x) = Self::foreign(s).filter(|_| !n2.as_deref().is_some_and(crate::ffi::odd)) {
                return if is_add { crate::ffi::add_sheet(x, n2.as_deref()) } else { crate::ffi::get_sheet(x, n2.as_deref().unwrap()) };
            }
            let x = Self::x(s)?;
            if is_add {
                x.add_sheet_mut(n2).map_err(err)
            } else {
                x.get_worksheet_mut(n2.unwrap()).map_err(err)
            }
        });
        let what = format!("{} sheet {:?}", if is_add { "adding" } else { "opening" }, name);
        let refused = exp.iter().all(|e| *e == Exp::Err);
        let ok = self.judge("handle", &out, exp, if refused { "handle.second" } else { "handle.fails" }, &what);
        if !ok {
            self.check_list();
            return;
        }
        let Out::Ok(ws) = out else { return };
        // the name a nameless new sheet got
        let listed = match self.call("list", |s| Self::x(s)?.list_sheet_names().map_err(err)) {
            Out::Ok(l) => l,
            _ => vec![],
        };
        let mut bad = None;
        if name.is_none() {
            let fits = |old: Vec<String>| listed.len() == old.len() + 1 && listed[..old.len()] == old[..] && !old.contains(&listed[old.len()]) && !listed[old.len()].is_empty();
            let exp: Vec<Exp> = self.s.as_ref().unwrap().models.iter().map(|m| if fits(m.names()) { Exp::Ok } else { Exp::Err }).collect();
            if exp.contains(&Exp::Ok) {
                let o: Out<()> = Out::Ok(());
                self.judge("list", &o, exp, "sheets", "list");
            } else {
                bad = Some(format!("after adding a sheet without a name to {:?} the list is {:?}", self.s.as_ref().unwrap().models[0].names(), listed));
            }
        }
        let s = self.s.as_mut().unwrap();
        let mut uids = vec![];
        for m in s.models.iter_mut() {
            let u = match &name {
                Some(n) => match m.by_name(n) {
                    Some(u) => {
                        m.touch.entry(u).or_default().opened = true;
                        u
                    }
                    None => m.add(n),
                },
                None => {
                    if bad.is_some() {
                        m.add("?")
                    } else {
                        m.add(&listed[listed.len() - 1])
                    }
                }
            };
            uids.push(Some(u));
        }
        s.handles.insert(h, Handle { ws, uids, open: true });
        if let Some(b) = bad {
            self.viol("sheets", b);
        } else {
            self.check_list();
        }
    }
    fn cells(&mut self, h: u8, row: u32, col: u32, rf: Option<String>, cells: &[CellSpec]) {
        let s = self.s.as_ref().unwrap();
        let Some(hd) = s.handles.get(&h) else { return };
        let uids = hd.uids.clone();
        let mut props = vec![];
        let mut want: Vec<Option<Cell>> = vec![];
        for c in cells {
            let mut p = CellProperties::default();
            p.value = c.v.clone();
            p.formula = c.f.clone();
            p.data_type = match c.t {
                Ty::Auto => CellDataType::Auto,
                Ty::Number => CellDataType::Number,
                Ty::Boolean => CellDataType::Boolean,
                Ty::String => CellDataType::String,
                Ty::Shared => CellDataType::ShareString,
                Ty::Inline => CellDataType::InlineString,
                Ty::Error => CellDataType::Error,
            };
            let (mut st, mut xf): (Rc<str>, usize) = ("".into(), 0);
            if let Some((id, spec)) = c.s.and_then(|k| s.styles.get(&k)) {
                xf = id.get_id() as usize;
                st = spec_string(spec);
                p.style_id = Some(id.clone());
            }
            want.push(if c.v.as_deref().map(text_allowed).unwrap_or(true) && c.f.as_deref().map(text_allowed).unwrap_or(true) { written_cell(c, st, xf) } else { None });
            props.push(p);
        }
        let (mut row, mut col) = (row, col);
        let by_ref = rf.is_some();
        let bad_ref = by_ref && row == 0;
        if !by_ref {
            // the index form takes what it is given
            if col > 16384 || col == 0 || row == 0 || row > 1_048_576 {
                row = 0;
            }
        } else if bad_ref {
            col = 0;
        }
        let in_range = row > 0 && col > 0 && (cells.is_empty() || col as usize + cells.len() - 1 <= 16384);
        let unspecified = cells.is_empty();
        let valid = in_range && want.iter().all(|w| w.is_some());
        let forbidden_text = cells.iter().any(|c| c.v.as_deref().map(|t| !text_allowed(t)).unwrap_or(false) || c.f.as_deref().map(|t| !text_allowed(t)).unwrap_or(false));
        let e = if unspecified { Exp::Any } else if valid { Exp::Ok } else if forbidden_text && in_range { Exp::Err } else { Exp::Err };
        let (r2, c2) = match self.step_args() {
            Some(x) => x,
            None => (row, col),
        };
        let rf2 = rf.clone();
        let out = self.call("cells", move |s| {
            let hd = s.handles.get_mut(&h).unwrap();
            match &rf2 {
                Some(r) => hd.ws.set_row_value_ref_mut(r, props).map_err(err),
                None => hd.ws.set_row_value_index_mut(r2, c2 as u16, props).map_err(err),
            }
        });
        let what = match &rf {
            Some(r) => format!("writing {} cells at {:?}: {:?}", cells.len(), r, cells),
            None => format!("writing {} cells at row {} column {}: {:?}", cells.len(), r2, c2, cells),
        };
        let n = self.s.as_ref().unwrap().models.len();
        let ok = self.judge("cells", &out, vec![e; n], if valid { "cell.fails" } else { "arg.accepted" }, &what);
        if ok && valid {
            let s = self.s.as_mut().unwrap();
            for (m, u) in s.models.iter_mut().zip(uids) {
                if let Some(u) = u {
                    for (i, w) in want.iter().enumerate() {
                        m.set_cell(u, row, col + i as u32, w.clone().unwrap());
                    }
                }
            }
        }
    }
    /// raw arguments of an index write (they may be out of range)
    fn step_args(&self) -> Option<(u32, u32)> {
        RAW.with(|r| r.get())
    }
    #[allow(clippy::too_many_arguments)]
    fn row(&mut self, h: u8, row: u32, height: Option<f32>, hidden: Option<bool>, style: Option<u8>, top: Option<bool>, bot: Option<bool>) {
        let s = self.s.as_ref().unwrap();
        let Some(hd) = s.handles.get(&h) else { return };
        let uids = hd.uids.clone();
        let mut v = RowV::default();
        let mut p = RowProperties::default();
        p.height = height;
        p.hidden = hidden;
        p.thick_top = top;
        p.thick_bottom = bot;
        if let Some((id, spec)) = style.and_then(|k| s.styles.get(&k)) {
            p.style_id = Some(id.clone());
            v.style = Some(spec_string(spec));
        }
        if let Some(x) = height {
            v.p.insert("ht".into(), format!("{}", x));
            v.p.insert("customHeight".into(), "1".into());
        }
        for (k, x) in [("hidden", hidden), ("thickTop", top), ("thickBot", bot)] {
            if x == Some(true) {
                v.p.insert(k.into(), "1".into());
            }
        }
        let valid = (1..=1_048_576).contains(&row);
        let out = self.call("row", move |s| s.handles.get_mut(&h).unwrap().ws.set_row_index_properties_mut(&row, p).map_err(err));
        let n = self.s.as_ref().unwrap().models.len();
        if self.judge("row", &out, vec![if valid { Exp::Ok } else { Exp::Err }; n], if valid { "op.fails" } else { "arg.accepted" }, &format!("row properties of row {}", row)) && valid {
            let s = self.s.as_mut().unwrap();
            for (m, u) in s.models.iter_mut().zip(uids) {
                if let Some(u) = u {
                    m.set_row(u, row, v.clone());
                }
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn col(&mut self, h: u8, col: u16, by_ref: bool, clear: bool, width: Option<f32>, hidden: Option<bool>, style: Option<u8>, best: Option<bool>, raw: Option<String>) {
        let s = self.s.as_ref().unwrap();
        let Some(hd) = s.handles.get(&h) else { return };
        let uids = hd.uids.clone();
        let mut v = ColV::default();
        let mut p = ColumnProperties::default();
        p.width = width;
        p.hidden = hidden;
        p.best_fit = best;
        if let Some((id, spec)) = style.and_then(|k| s.styles.get(&k)) {
            p.style_id = Some(id.clone());
            if id.get_id() != 0 {
                v.style = Some(spec_string(spec));
            }
        }
        if let Some(x) = width {
            v.p.insert("width".into(), format!("{}", x));
            v.p.insert("customWidth".into(), "1".into());
        }
        for (k, x) in [("hidden", hidden), ("bestFit", best)] {
            if x == Some(true) {
                v.p.insert(k.into(), "1".into());
            }
        }
        let arg = if clear { None } else { Some(p) };
        let valid = (1..=16384).contains(&col);
        let rf = raw.clone().or(if by_ref { Some(col_name(col as u32)) } else { None });
        let rf2 = rf.clone();
        let out = self.call("col", move |s| {
            let ws = &mut s.handles.get_mut(&h).unwrap().ws;
            match rf2 {
                Some(r) => ws.set_column_ref_properties_mut(&r, arg).map_err(err),
                None => ws.set_column_index_properties_mut(&col, arg).map_err(err),
            }
        });
        let n = self.s.as_ref().unwrap().models.len();
        if self.judge("col", &out, vec![if valid { Exp::Ok } else { Exp::Err }; n], if valid { "op.fails" } else { "arg.accepted" }, &format!("column properties of column {} ({:?})", col, rf)) && valid {
            let s = self.s.as_mut().unwrap();
            for (m, u) in s.models.iter_mut().zip(uids) {
                if let Some(u) = u {
                    m.set_col(u, col as u32, if clear { None } else { Some(v.clone()) });
                }
            }
        }
    }
    fn style(&mut self, slot: u8, spec: &StyleSpec) {
        let st = to_style(spec);
        let valid = !(spec.num == 255 && spec.custom.is_none());
        let odd = unstorable(&spec.font) || spec.custom.as_ref().is_some_and(|c| unstorable(c));
        #[cfg(feature = "ffi")]
        let sp2 = spec.clone();
        let out = self.call("style", move |s| {
            #[cfg(feature = "ffi")]
            if let Some(x) = Self::foreign(s) {
                if let Some(f) = foreign_style(&sp2, &st) {
                    let id = crate::ffi::style_id(x, &f)?;
                    let other = Self::x(s)?.get_style_id_mut(st).map_err(err)?;
                    if id != other.get_id() {
                        crate::ffi::problem(format!("get_style_id_mut hands out {} for settings whose style is {}: {:?}", id, other.get_id(), sp2));
                    }
                    return Ok(other);
                }
            }
            Self::x(s)?.get_style_id_mut(st).map_err(err)
        });
        let n = self.s.as_ref().unwrap().models.len();
        if !self.judge("style", &out, vec![if odd { Exp::Any } else if valid { Exp::Ok } else { Exp::Err }; n], "op.fails", &format!("style {:?}", spec)) {
            return;
        }
        let Out::Ok(id) = out else { return };
        let i = id.get_id();
        let mut bad = None;
        for (sp, other) in &self.s.as_ref().unwrap().models[0].style_ids {
            if sp == spec && *other != i {
                bad = Some(format!("equal settings got ids {} and {}: {:?}", other, i, spec));
            }
            if *other == i && render_key(sp) != render_key(spec) {
                bad = Some(format!("id {} was given for {:?} and for {:?}", i, sp, spec));
            }
        }
        if let Some(b) = bad {
            self.viol("style", b);
        }
        let s = self.s.as_mut().unwrap();
        for m in s.models.iter_mut() {
            if !m.style_ids.iter().any(|x| x.0 == *spec) {
                m.style_ids.push((spec.clone(), i));
            }
        }
        s.styles.insert(slot, (id, spec.clone()));
    }
}
thread_local! {
    static RAW: std::cell::Cell<Option<(u32, u32)>> = const { std::cell::Cell::new(None) };
}
/// no XML document can hold the text as it is
fn unstorable(s: &str) -> bool {
    s.chars().any(|c| (c < ' ' && !"\t\n\r".contains(c)) || c == '\u{FFFE}' || c == '\u{FFFF}')
}
fn render_key(s: &StyleSpec) -> String {
    // settings that show the same: bottom is the vertical default, a border colour without a border, double wins
    let mut s = s.clone();
    if s.v as usize % VALIGN.len() == 3 {
        s.v = 0;
    }
    s.borders.resize(5, (0, None));
    for b in s.borders.iter_mut() {
        if b.0 as usize % BORDERS.len() == 0 {
            *b = (0, None);
        }
    }
    if s.dunderline {
        s.underline = false;
    }
    if s.custom.is_some() {
        s.num = 255;
    }
    // text without a colour has the default one
    if s.color.is_none() {
        s.color = Some((1, "1".into()));
    }
    serde_json::to_string(&s).unwrap()
}
fn color(c: &(u8, String)) -> ColorSetting {
    ColorSetting {
        color_setting_type: match c.0 {
            0 => ColorSettingTypeValues::Indexed,
            1 => ColorSettingTypeValues::Theme,
            _ => ColorSettingTypeValues::Rgb,
        },
        value: c.1.clone(),
    }
}
fn to_style(s: &StyleSpec) -> StyleSetting {
    use NumberFormatValues as N;
    let mut o = StyleSetting::default();
    o.number_format = if s.num == 255 || s.custom.is_some() {
        N::Custom
    } else {
        match NUMS[s.num as usize % NUMS.len()].1 {
            0 => N::General,
            1 => N::Integer,
            2 => N::DecimalTwoPlaces,
            3 => N::ThousandsSeparator,
            4 => N::ThousandsSeparatorTwoDecimals,
            9 => N::Percentage,
            10 => N::PercentageTwoDecimals,
            11 => N::Scientific,
            12 => N::FractionOneDigit,
            13 => N::FractionTwoDigits,
            14 => N::DateMMDDYY,
            15 => N::DateDMmmYY,
            20 => N::Time24Hour,
            22 => N::DateTimeMMDDYY,
            48 => N::ScientificOneDecimal,
            5 => N::CurrencyNoDecimals,
            6 => N::CurrencyNoDecimalsRed,
            7 => N::CurrencyTwoDecimals,
            8 => N::CurrencyTwoDecimalsRed,
            16 => N::DateDMmm,
            17 => N::DateMmmYY,
            18 => N::Time12Hour,
            19 => N::Time12HourWithSeconds,
            21 => N::Time24HourWithSeconds,
            37 => N::AccountingNoDecimals,
            38 => N::AccountingNoDecimalsRed,
            39 => N::AccountingTwoDecimals,
            40 => N::AccountingTwoDecimalsRed,
            41 => N::AccountingNegativeInParentheses,
            42 => N::AccountingTwoDecimalsNegativeInParentheses,
            43 => N::AccountingAlignedSymbols,
            44 => N::AccountingAlignedSymbolsTwoDecimals,
            45 => N::TimeMinutesSeconds,
            46 => N::TimeHoursMinutesSeconds,
            47 => N::ElapsedTimeWithFractions,
            _ => N::TextFormat,
        }
    };
    o.custom_number_format = s.custom.clone();
    o.font_family = s.font.clone();
    o.font_size = s.size;
    o.is_bold = s.bold;
    o.is_italic = s.italic;
    o.is_underline = s.underline;
    o.is_double_underline = s.dunderline;
    o.is_wrap_text = s.wrap;
    if let Some(c) = &s.color {
        o.text_color = color(c);
    }
    o.background_color = s.bg.clone();
    o.foreground_color = s.fg.clone();
    let b = |i: usize| -> BorderSetting {
        let mut x = BorderSetting::default();
        if let Some((st, c)) = s.borders.get(i) {
            use BorderStyleValues as B;
            x.style = match *st as usize % BORDERS.len() {
                0 => B::None,
                1 => B::Thin,
                2 => B::Thick,
                3 => B::Dotted,
                4 => B::Double,
                5 => B::Dashed,
                6 => B::DashDot,
                7 => B::DashDotDot,
                8 => B::Medium,
                9 => B::MediumDashed,
                10 => B::MediumDashDot,
                11 => B::MediumDashDotDot,
                12 => B::SlantDashDot,
                _ => B::Hair,
            };
            x.border_color = c.as_ref().map(color);
        }
        x
    };
    o.border_left = b(0);
    o.border_top = b(1);
    o.border_right = b(2);
    o.border_bottom = b(3);
    o.border_diagonal = b(4);
    o.horizontal_alignment = match s.h as usize % HALIGN.len() {
        0 => HorizontalAlignmentValues::None,
        1 => HorizontalAlignmentValues::LEFT,
        2 => HorizontalAlignmentValues::CENTER,
        3 => HorizontalAlignmentValues::RIGHT,
        _ => HorizontalAlignmentValues::JUSTIFY,
    };
    o.vertical_alignment = match s.v as usize % VALIGN.len() {
        0 => VerticalAlignmentValues::None,
        1 => VerticalAlignmentValues::Top,
        2 => VerticalAlignmentValues::Middle,
        _ => VerticalAlignmentValues::Bottom,
    };
    o
}
/// The settings as the interface takes them; none if it has no place for one of them (borders, text colour and
/// alignment: the interface does not read these, see known/ffi-style.json).
#[cfg(feature = "ffi")]
fn foreign_style(s: &StyleSpec, st: &StyleSetting) -> Option<ffi_shim::caller::Style> {
    let odd = |x: &Option<String>| x.as_deref().is_some_and(crate::ffi::odd);
    if s.color.is_some() || s.borders.iter().any(|b| b.0 as usize % BORDERS.len() != 0 || b.1.is_some()) || s.h as usize % HALIGN.len() != 0 || s.v as usize % VALIGN.len() != 0 {
        return None;
    }
    if crate::ffi::odd(&s.font) || odd(&s.custom) || odd(&s.bg) || odd(&s.fg) {
        return None;
    }
    let number_format: u16 = if s.num == 255 || s.custom.is_some() { 164 } else { NUMS[s.num as usize % NUMS.len()].1 as u16 };
    let _ = st;
    Some(ffi_shim::caller::Style { number_format, custom: s.custom.clone(), font: Some(s.font.clone()), size: s.size, bold: s.bold, italic: s.italic, underline: s.underline, double_underline: s.dunderline, wrap: s.wrap, bg: s.bg.clone(), fg: s.fg.clone() })
}
pub mod anyhow_lite {
    pub type R<T> = Result<T, String>;
}
fn err<E: std::fmt::Debug>(e: E) -> String {
    let s = format!("{:?}", e);
    s.split("Stack backtrace").next().unwrap_or("").replace('\n', " ").trim().chars().take(300).collect()
}
/// W3CDTF in UTC to seconds
pub fn parse_utc(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() < 20 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' {
        return None;
    }
    let n = |a: usize, l: usize| s.get(a..a + l)?.parse::<i64>().ok();
    let (y, mo, d, h, mi, se) = (n(0, 4)?, n(5, 2)?, n(8, 2)?, n(11, 2)?, n(14, 2)?, n(17, 2)?);
    let rest = &s[19..];
    let z = if let Some(f) = rest.strip_prefix('.') { f.trim_start_matches(|c: char| c.is_ascii_digit()) } else { rest };
    if z != "Z" && z != "+00:00" {
        return None;
    }
    if !(1..=12).contains(&mo) || d < 1 || d > 31 || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let yy = if mo <= 2 { y - 1 } else { y };
    let era = yy.div_euclid(400);
    let yoe = yy - era * 400;
    let doy = (153 * (mo + if mo > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    Some((era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + se)
}
pub fn show_utc(t: i64) -> String {
    let days = t.div_euclid(86400);
    let s = t.rem_euclid(86400);
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z", y, m, d, s / 3600, s / 60 % 60, s % 60)
}

pub fn src_bytes(s: &Src) -> Vec<u8> {
    match s {
        Src::Foreign { kind, seed, features } => crate::foreign::build(kind, *seed, features),
        Src::Repo { path } => std::fs::read(format!("/repo/{}", path)).unwrap_or_default(),
        Src::Bytes { hex } => (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap_or(0)).collect(),
    }
}
/// One execution of a plan.
pub fn run(plan: &Plan, keep_log: bool) -> RunResult {
    let mut disk = Disk::default();
    disk.dirs.insert("/simfs".into());
    disk.dirs.insert(CWD.into());
    disk.dirs.insert(format!("{}/sub", CWD));
    disk.dirs.insert("/tmp".into());
    for f in &plan.files {
        disk.put_durable(&abs(&f.path), src_bytes(&f.src));
    }
    disk.capacity = plan.capacity.map(|c| disk.used() + c);
    let n = plan.clients.len().max(1);
    let m = Machine::new(n, disk, plan.faults.clone(), plan.sched.clone(), plan.clock0, plan.entropy, keep_log);
    {
        let mut w = m.lock();
        for f in &plan.files {
            w.track(&abs(&f.path));
        }
        for (c, at) in &plan.preempt {
            if let Some(q) = w.preempt.get_mut(*c as usize) {
                q.push_back(*at);
            }
        }
        for q in w.preempt.iter_mut() {
            q.make_contiguous().sort();
        }
    }
    let sh = Arc::new(Mutex::new(Shared::default()));
    {
        let w = m.lock();
        let mut s = sh.lock().unwrap();
        for (p, v) in &w.versions {
            s.accepted.insert(p.clone(), vec![v[0].data.clone()]);
        }
    }
    m.start();
    std::thread::scope(|sc| {
        let mut hs = vec![];
        for id in 0..n {
            let (m, sh, steps) = (m.clone(), sh.clone(), plan.clients.get(id).cloned().unwrap_or_default());
            #[cfg(feature = "ffi")]
            let via = plan.prop == "F21";
            let h = std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn_scoped(sc, move || {
                    {
                        let w = m.lock();
                        drop(m.wait_turn(w, id));
                    }
                    #[cfg(feature = "ffi")]
                    crate::ffi::start(via);
                    enter_thread(&m, id);
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        let mut c = Cl { m: &m, id, sh: &sh, s: None, step: 0, solo: n == 1 };
                        let _ = c.solo;
                        for (i, st) in steps.iter().enumerate() {
                            c.step = i;
                            // raw arguments of index writes
                            RAW.with(|r| {
                                r.set(match st {
                                    Step::Cells { row, col, by_ref: false, .. } => Some((*row, *col as u32)),
                                    _ => None,
                                })
                            });
                            c.step(st);
                        }
                        c.step = steps.len();
                        c.drop_session();
                        if c.dead() {
                            c.crash();
                        }
                    }));
                    if let Err(p) = r {
                        let t = panic_text(p);
                        sh.lock().unwrap_or_else(|p| p.into_inner()).viols.push(Viol { cat: "harness".into(), msg: format!("harness panic {} {}", PANIC_AT.with(|x| x.borrow().clone()), t), client: id, step: 0 });
                    }
                    leave_thread();
                    #[cfg(feature = "ffi")]
                    {
                        let (twice, late) = quarantine::flush();
                        if twice + late > 0 {
                            sh.lock().unwrap_or_else(|p| p.into_inner()).viols.push(Viol { cat: "ffi".into(), msg: format!("memory released twice {} times, written after its release {} times", twice, late), client: id, step: 0 });
                        }
                    }
                    m.lock().nalloc[id] = heap_count();
                    m.finish(id);
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            let _ = h.join();
        }
    });
    let mut w = m.lock();
    let mut s = sh.lock().unwrap_or_else(|p| p.into_inner());
    // contents that appeared through power loss or inside a save that was cut short
    let mut extra = vec![];
    for (p, vs) in &w.versions {
        let acc = s.accepted.get(p).cloned().unwrap_or_default();
        for v in vs.iter().skip(1) {
            if v.client == usize::MAX && !acc.contains(&v.data) && vs[0].data != v.data {
                let ever = vs.iter().any(|x| x.client != usize::MAX && x.data == v.data);
                if !ever || v.data.is_some() {
                    extra.push(Viol { cat: "atomic".into(), msg: format!("after power loss {} holds {}", p, v.data.as_ref().map(|d| format!("{} bytes that were never a complete document", d.len())).unwrap_or("nothing, though it existed before".into())), client: 0, step: 0 });
                }
            }
        }
        // a file that existed and was never saved to
        if !s.save_paths.contains(p) && vs.iter().any(|v| v.client < usize::MAX - 1 && v.data != vs[0].data) {
            extra.push(Viol { cat: "footprint".into(), msg: format!("{} was changed though nothing was saved to it", p), client: 0, step: 0 });
        }
    }
    s.viols.extend(extra);
    let log = w.log.take().unwrap_or_default();
    let touched = std::mem::take(&mut w.all_touched);
    RunResult {
        viols: std::mem::take(&mut s.viols),
        hash: w.hash,
        log,
        sys: w.total_sys,
        nsys: w.clients.iter().map(|c| c.nsys).collect(),
        nalloc: w.nalloc.clone(),
        preemptions: w.preemptions,
        lock_waits: w.lock_waits,
        sim_ns: w.mono_ns,
        fired: w.fired.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        fired_list: w.fired_list.clone(),
        switches: w.switches,
        choice_points: w.choice_points,
        errs: s.errs.clone(),
        saves: s.saves.clone(),
        opens_ok: s.opens_ok,
        saves_ok: s.saves_ok,
        saves_err: s.saves_err,
        restarts: s.restarts,
        steps: s.steps,
        states: std::mem::take(&mut s.states),
        all_touched: touched,
        ops: s.ops.clone(),
        op_sys: s.op_sys.clone(),
        final_files: w.disk.names.iter().map(|(p, i)| (p.clone(), w.disk.inodes[*i].data.clone())).collect(),
        compared: s.compared,
    }
}
