//! The simulated machine: disk, descriptors, clock, entropy, faults and the baton scheduler.
//! Everything is behind one mutex; only the client thread that holds the baton runs.
use crate::plan::{Fault, FaultKind};
use crate::rng::{fnv, mix, Rng, FNV0};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

pub const CWD: &str = "/simfs/work";
pub const FD_BASE: i32 = 1_000_000;
pub const SYSCALL_CAP: u64 = 200_000;

#[derive(Clone, Debug)]
pub enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64),
}
#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Arc<Vec<u8>>,
    pub durable: Arc<Vec<u8>>,
    pub pend: Vec<Pend>,
    pub mode: u32,
    pub mtime: i64,
}
#[derive(Clone, Debug)]
pub enum Meta {
    Set(String, usize),
    Del(String),
    Ren(String, String),
}
#[derive(Clone, Debug, Default)]
pub struct Disk {
    pub inodes: Vec<Inode>,
    pub names: BTreeMap<String, usize>,
    pub dirs: BTreeSet<String>,
    pub durable_names: BTreeMap<String, usize>,
    pub journal: Vec<Meta>,
    pub capacity: Option<u64>,
}
fn apply_meta(names: &mut BTreeMap<String, usize>, m: &Meta) {
    match m {
        Meta::Set(p, i) => {
            names.insert(p.clone(), *i);
        }
        Meta::Del(p) => {
            names.remove(p);
        }
        Meta::Ren(a, b) => {
            if let Some(i) = names.remove(a) {
                names.insert(b.clone(), i);
            }
        }
    }
}
impl Disk {
    pub fn put_durable(&mut self, path: &str, data: Vec<u8>) {
        let a = Arc::new(data);
        let ino = self.inodes.len();
        self.inodes.push(Inode { data: a.clone(), durable: a, pend: vec![], mode: 0o644, mtime: 1_600_000_000 });
        self.names.insert(path.into(), ino);
        self.durable_names.insert(path.into(), ino);
        let mut d = path.to_string();
        while let Some(p) = d.rfind('/') {
            d.truncate(p);
            if d.is_empty() {
                break;
            }
            self.dirs.insert(d.clone());
        }
    }
    pub fn get(&self, path: &str) -> Option<Arc<Vec<u8>>> {
        self.names.get(path).map(|i| self.inodes[*i].data.clone())
    }
    pub fn meta(&mut self, m: Meta) {
        apply_meta(&mut self.names, &m);
        self.journal.push(m);
    }
    pub fn used(&self) -> u64 {
        let live: BTreeSet<usize> = self.names.values().cloned().collect();
        live.iter().map(|i| self.inodes[*i].data.len() as u64).sum()
    }
    pub fn write(&mut self, ino: usize, off: u64, b: &[u8]) {
        let n = &mut self.inodes[ino];
        let d = Arc::make_mut(&mut n.data);
        let end = off as usize + b.len();
        if d.len() < end {
            d.resize(end, 0);
        }
        d[off as usize..end].copy_from_slice(b);
        n.pend.push(Pend::Write(off, b.to_vec()));
    }
    pub fn trunc(&mut self, ino: usize, len: u64) {
        let n = &mut self.inodes[ino];
        if n.data.len() as u64 != len {
            Arc::make_mut(&mut n.data).resize(len as usize, 0);
            n.pend.push(Pend::Trunc(len));
        }
    }
    pub fn sync(&mut self, ino: usize) {
        let n = &mut self.inodes[ino];
        n.durable = n.data.clone();
        n.pend.clear();
    }
    pub fn sync_dirs(&mut self) {
        let j = std::mem::take(&mut self.journal);
        for m in &j {
            apply_meta(&mut self.durable_names, m);
        }
    }
    /// Power loss: synced data and a prefix of the metadata journal survive; unsynced writes survive in part.
    pub fn power_loss(&mut self, seed: u64) -> String {
        let mut r = Rng::new(seed);
        let j = std::mem::take(&mut self.journal);
        let keep = r.usize(j.len() + 1);
        for m in &j[..keep] {
            apply_meta(&mut self.durable_names, m);
        }
        self.names = self.durable_names.clone();
        let mut txt = format!("metadata journal {}/{} kept", keep, j.len());
        for (i, n) in self.inodes.iter_mut().enumerate() {
            if n.pend.is_empty() {
                continue;
            }
            let mode = r.below(4);
            let mut d = (*n.durable).clone();
            let total = n.pend.len();
            let k = if mode == 0 { 0 } else { r.usize(total + 1) };
            for (q, p) in n.pend.iter().enumerate() {
                if q > k || (q == k && mode < 2) {
                    break;
                }
                match p {
                    Pend::Trunc(l) => d.resize(*l as usize, 0),
                    Pend::Write(o, b) => {
                        let mut len = b.len();
                        if q == k {
                            len = r.usize(len + 1);
                        } // torn
                        let end = *o as usize + len;
                        if mode == 3 && q < k && r.pct(50) {
                            // size updated, block never written
                            if d.len() < end {
                                d.resize(end, 0);
                            }
                            continue;
                        }
                        if d.len() < end {
                            d.resize(end, 0);
                        }
                        d[*o as usize..end].copy_from_slice(&b[..len]);
                    }
                }
            }
            n.data = Arc::new(d);
            n.durable = n.data.clone();
            n.pend.clear();
            txt.push_str(&format!("; inode {} {} of {} unsynced writes", i, k, total));
        }
        txt
    }
}

#[derive(Clone, Debug)]
pub struct OpenFile {
    pub ino: usize,
    pub dir: Option<String>,
    pub pos: u64,
    pub append: bool,
    pub write: bool,
    pub read: bool,
    pub path: String,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Sys {
    Open,
    Read,
    Write,
    Seek,
    Stat,
    Unlink,
    Rename,
    Link,
    Fsync,
    Trunc,
    Mkdir,
    Chmod,
    Close,
    Dup,
    ReadDir,
    Step,
}
impl Sys {
    pub fn faultable(self) -> bool {
        !matches!(self, Sys::Seek | Sys::Close | Sys::Dup | Sys::Step)
    }
    pub fn mutating(self) -> bool {
        matches!(self, Sys::Open | Sys::Write | Sys::Unlink | Sys::Rename | Sys::Link | Sys::Trunc | Sys::Mkdir | Sys::Fsync | Sys::Chmod)
    }
}
pub struct Client {
    pub fds: BTreeMap<i32, OpenFile>,
    pub next_fd: i32,
    pub nsys: u32,
    pub op_sys: u64,
    pub dead: bool,
    pub clock_reads: Vec<(u64, i64)>, // (seq, unix ns)
    pub done: bool,
    pub touched: BTreeSet<String>, // names this client created, replaced, removed or wrote
    pub in_op: &'static str,
    pub hung: bool,
    pub bad_calls: Vec<String>,
}
pub struct Version {
    pub seq: u64,
    pub data: Option<Arc<Vec<u8>>>,
    pub client: usize,
}
pub struct World {
    pub disk: Disk,
    pub cwd: Arc<Mutex<String>>,
    pub clients: Vec<Client>,
    pub now_ns: i64,
    pub mono_ns: i64,
    pub start_ns: i64,
    pub frozen: bool,
    pub ent: u64,
    pub ent_ctr: Vec<u64>,
    pub seq: u64,
    pub hash: u64,
    pub log: Option<Vec<String>>,
    pub faults: Vec<(Fault, bool)>,
    pub faults_on: bool,
    pub fired: BTreeMap<&'static str, u64>,
    pub fired_list: Vec<String>,
    pub versions: BTreeMap<String, Vec<Version>>,
    // scheduler
    pub turn: usize,
    pub sched: Vec<u16>,
    pub sched_pos: usize,
    pub switches: u64,
    pub choice_points: u64,
    pub total_sys: u64,
    pub sys_count: BTreeMap<Sys, u64>,
    pub all_touched: BTreeSet<String>,
    /// the client that touched a name last
    pub owner: BTreeMap<String, usize>,
    /// per client the heap operations at which it loses the processor, ascending
    pub preempt: Vec<std::collections::VecDeque<u32>>,
    pub nalloc: Vec<u32>,
    pub preemptions: u64,
    pub lock_waits: u64,
}
pub struct Machine {
    /// working folder of the process
    pub cwd: Arc<Mutex<String>>,
    pub w: Mutex<World>,
    pub cvs: Vec<Condvar>,
}
thread_local! {
    static CTX: Cell<(*const Machine, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
    /// library code runs on this thread
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    /// heap operations of the library on this thread, and the one to stop at
    static HEAP: Cell<(u32, u32)> = const { Cell::new((0, u32::MAX)) };
}
/// Counts the library's heap operations: the places between two system calls where a thread can lose the processor.
pub struct Heap;
unsafe impl std::alloc::GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        heap_op();
        std::alloc::System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        heap_op();
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        heap_op();
        std::alloc::System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        heap_op();
        #[cfg(feature = "ffi")]
        if l.size() >= 8 && l.size() <= 4096 && IN_LIB.with(|c| c.get()) {
            return quarantine::put(p, l);
        }
        std::alloc::System.dealloc(p, l)
    }
}
/// Objects handed to foreign callers: what is released is overwritten and kept back for a while, so that a second
/// release, a use or a write after the release shows.
#[cfg(feature = "ffi")]
pub mod quarantine {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::{Cell, UnsafeCell};
    const N: usize = 512;
    const DEAD: u8 = 0xFB;
    thread_local! {
        static RING: UnsafeCell<[(*mut u8, usize, usize); N]> = const { UnsafeCell::new([(std::ptr::null_mut(), 0, 1); N]) };
        static NEXT: Cell<usize> = const { Cell::new(0) };
        static SEEN: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
    }
    unsafe fn release(e: (*mut u8, usize, usize)) {
        if e.0.is_null() {
            return;
        }
        if std::slice::from_raw_parts(e.0, e.1).iter().any(|b| *b != DEAD) {
            SEEN.with(|s| s.set((s.get().0, s.get().1 + 1)));
        }
        System.dealloc(e.0, Layout::from_size_align_unchecked(e.1, e.2));
    }
    pub unsafe fn put(p: *mut u8, l: Layout) {
        let first = std::ptr::read_unaligned(p as *const u64);
        let r = RING.with(|r| r.get());
        if first == u64::from_ne_bytes([DEAD; 8]) && (*r).iter().any(|e| e.0 == p) {
            SEEN.with(|s| s.set((s.get().0 + 1, s.get().1)));
            return;
        }
        std::ptr::write_bytes(p, DEAD, l.size());
        let i = NEXT.with(|n| n.replace((n.get() + 1) % N));
        let old = std::mem::replace(&mut (*r)[i], (p, l.size(), l.align()));
        release(old);
    }
    /// gives everything back; (released twice, written after the release)
    pub fn flush() -> (u32, u32) {
        let r = RING.with(|r| r.get());
        for i in 0..N {
            unsafe { release(std::mem::replace(&mut (*r)[i], (std::ptr::null_mut(), 0, 1))) };
        }
        SEEN.with(|s| s.replace((0, 0)))
    }
}
#[inline]
fn heap_op() {
    if IN_LIB.with(|c| c.get()) && !IN_SIM.with(|c| c.get()) {
        let (n, stop) = HEAP.with(|c| c.get());
        HEAP.with(|c| c.set((n + 1, stop)));
        if n >= stop {
            preempted();
        }
    }
}
#[cold]
fn preempted() {
    let Some((m, id)) = ctx() else { return };
    let _g = Inside::new();
    let w = m.lock();
    let mut w = m.switch_away(w, id, "preempt");
    w.preemptions += 1;
    let n = HEAP.with(|c| c.get()).0;
    while w.preempt[id].front().map_or(false, |x| *x < n) {
        w.preempt[id].pop_front();
    }
    let stop = w.preempt[id].front().cloned().unwrap_or(u32::MAX);
    HEAP.with(|c| c.set((n, stop)));
}
/// A lock of the library is taken: let the others run until it is free.
pub fn lock_wait() -> bool {
    if !IN_LIB.with(|c| c.get()) {
        return false;
    }
    let Some((m, id)) = ctx() else { return false };
    let _g = Inside::new();
    let w = m.lock();
    let mut w = m.switch_away(w, id, "lock");
    w.lock_waits += 1;
    true
}
/// Guard: library code runs.
pub struct InLib;
impl InLib {
    pub fn new() -> Self {
        IN_LIB.with(|c| c.set(true));
        InLib
    }
}
impl Drop for InLib {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(false));
    }
}
/// Marks the current thread as simulator client `id`.
pub fn enter_thread(m: &Arc<Machine>, id: usize) {
    CTX.with(|c| c.set((Arc::as_ptr(m), id)));
    let stop = m.lock().preempt[id].front().cloned().unwrap_or(u32::MAX);
    HEAP.with(|c| c.set((0, stop)));
}
/// The heap operations the library made on this thread.
pub fn heap_count() -> u32 {
    HEAP.with(|c| c.get()).0
}
pub fn leave_thread() {
    CTX.with(|c| c.set((std::ptr::null(), 0)));
}
/// Run harness code on a client thread with real system calls.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let old = CTX.with(|c| c.replace((std::ptr::null(), 0)));
    let r = f();
    CTX.with(|c| c.set(old));
    r
}
#[inline]
pub fn ctx() -> Option<(&'static Machine, usize)> {
    let (p, i) = CTX.with(|c| c.get());
    if p.is_null() || IN_SIM.with(|c| c.get()) {
        None
    } else {
        Some((unsafe { &*p }, i))
    }
}
/// Working folder of the simulated process whose thread this is
pub fn cwd() -> String {
    let (p, _) = CTX.with(|c| c.get());
    if p.is_null() {
        CWD.into()
    } else {
        // no switch to another thread while the lock is held
        let was = IN_SIM.with(|c| c.replace(true));
        let d = unsafe { &*p }.cwd.lock().unwrap().clone();
        IN_SIM.with(|c| c.set(was));
        d
    }
}
/// Guard so that code of the simulator itself never re-enters the seam.
pub struct Inside;
impl Inside {
    pub fn new() -> Self {
        IN_SIM.with(|c| c.set(true));
        Inside
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        IN_SIM.with(|c| c.set(false));
    }
}

pub enum Act {
    Go,
    Err(i32),
    /// transfer at most this many bytes
    Short(usize),
}

impl Machine {
    pub fn new(n: usize, disk: Disk, faults: Vec<Fault>, sched: Vec<u16>, clock0: i64, ent: u64, keep_log: bool) -> Arc<Machine> {
        let clients = (0..n)
            .map(|_| Client {
                fds: BTreeMap::new(),
                next_fd: 0,
                nsys: 0,
                op_sys: 0,
                dead: false,
                clock_reads: vec![],
                done: false,
                touched: BTreeSet::new(),
                in_op: "",
                hung: false,
                bad_calls: vec![],
            })
            .collect();
        let w = World {
            cwd: Arc::new(Mutex::new(CWD.into())),
            disk,
            clients,
            now_ns: clock0 * 1_000_000_000,
            start_ns: clock0 * 1_000_000_000,
            mono_ns: 5_000_000_000,
            frozen: false,
            ent,
            ent_ctr: vec![0; n],
            seq: 0,
            hash: FNV0,
            log: if keep_log { Some(vec![]) } else { None },
            faults: faults.into_iter().map(|f| (f, false)).collect(),
            faults_on: true,
            fired: BTreeMap::new(),
            fired_list: vec![],
            versions: BTreeMap::new(),
            turn: 0,
            sched,
            sched_pos: 0,
            switches: 0,
            choice_points: 0,
            total_sys: 0,
            sys_count: BTreeMap::new(),
            all_touched: BTreeSet::new(),
            owner: BTreeMap::new(),
            preempt: vec![Default::default(); n],
            nalloc: vec![0; n],
            preemptions: 0,
            lock_waits: 0,
        };
        let m = Machine { cwd: w.cwd.clone(), w: Mutex::new(w), cvs: (0..n).map(|_| Condvar::new()).collect() };
        Arc::new(m)
    }
    pub fn lock(&self) -> MutexGuard<'_, World> {
        self.w.lock().unwrap_or_else(|p| p.into_inner())
    }
    /// Decide who runs first.
    pub fn start(&self) {
        let mut w = self.lock();
        let n = w.clients.len();
        let run: Vec<usize> = (0..n).collect();
        let t = w.choose(&run, None);
        w.turn = t;
        drop(w);
        self.cvs[t].notify_all();
    }
    pub fn wait_turn<'a>(&'a self, mut w: MutexGuard<'a, World>, id: usize) -> MutexGuard<'a, World> {
        while w.turn != id {
            w = self.cvs[id].wait(w).unwrap_or_else(|p| p.into_inner());
        }
        w
    }
    pub fn yield_point<'a>(&'a self, mut w: MutexGuard<'a, World>, id: usize) -> MutexGuard<'a, World> {
        if w.clients.len() < 2 {
            return w;
        }
        let run: Vec<usize> = (0..w.clients.len()).filter(|i| !w.clients[*i].done).collect();
        if run.len() < 2 {
            return w;
        }
        let t = w.choose(&run, Some(id));
        if t != id {
            w.switches += 1;
            w.note(id, "switch", &format!("-> c{}", t), 0);
            w.turn = t;
            self.cvs[t].notify_all();
            w = self.wait_turn(w, id);
        }
        w
    }
    /// The next client in turn runs, wherever this one is.
    pub fn switch_away<'a>(&'a self, mut w: MutexGuard<'a, World>, id: usize, why: &str) -> MutexGuard<'a, World> {
        let n = w.clients.len();
        let Some(t) = (1..n).map(|k| (id + k) % n).find(|i| !w.clients[*i].done) else { return w };
        w.switches += 1;
        w.note(id, why, &format!("-> c{}", t), 0);
        w.turn = t;
        self.cvs[t].notify_all();
        self.wait_turn(w, id)
    }
    pub fn finish(&self, id: usize) {
        let mut w = self.lock();
        w.clients[id].done = true;
        let run: Vec<usize> = (0..w.clients.len()).filter(|i| !w.clients[*i].done).collect();
        if !run.is_empty() {
            let t = w.choose(&run, None);
            w.turn = t;
            drop(w);
            self.cvs[t].notify_all();
        }
    }
    /// A system call begins: scheduling point, clock tick, fault decision.
    pub fn begin<'a>(&'a self, id: usize, sys: Sys, what: &str, len: usize) -> (MutexGuard<'a, World>, Act) {
        let w = self.lock();
        let mut w = self.yield_point(w, id);
        w.tick();
        w.total_sys += 1;
        *w.sys_count.entry(sys).or_insert(0) += 1;
        let c = &mut w.clients[id];
        c.op_sys += 1;
        if c.op_sys > SYSCALL_CAP {
            c.hung = true;
            return (w, Act::Err(libc::EIO));
        }
        if c.dead {
            return (w, Act::Err(libc::EIO));
        }
        if sys.faultable() {
            c.nsys += 1;
        }
        let a = if sys.faultable() { w.fault(id, sys, what, len) } else { Act::Go };
        (w, a)
    }
}
impl World {
    pub fn touch(&mut self, id: usize, p: &str) {
        self.clients[id].touched.insert(p.to_string());
        self.owner.insert(p.to_string(), id);
        if !self.all_touched.contains(p) {
            self.all_touched.insert(p.to_string());
        }
    }
    pub fn tick(&mut self) {
        self.mono_ns += 1_300_000;
        if !self.frozen {
            self.now_ns += 1_300_000;
        }
    }
    fn choose(&mut self, run: &[usize], cur: Option<usize>) -> usize {
        self.choice_points += 1;
        let c = if self.sched_pos < self.sched.len() {
            self.sched_pos += 1;
            self.sched[self.sched_pos - 1] as usize
        } else {
            0
        };
        match cur {
            Some(id) => {
                if c == 0 {
                    return id;
                }
                let others: Vec<usize> = run.iter().cloned().filter(|x| *x != id).collect();
                others[(c - 1) % others.len()]
            }
            None => run[c % run.len()],
        }
    }
    pub fn note(&mut self, id: usize, op: &str, what: &str, res: i64) {
        self.seq += 1;
        let mut h = fnv(self.hash, op.as_bytes());
        h = fnv(h, what.as_bytes());
        h = fnv(h, &[id as u8]);
        h = fnv(h, &res.to_le_bytes());
        self.hash = h;
        if let Some(l) = self.log.as_mut() {
            if l.len() < 20000 {
                l.push(format!("{} c{} {} {} = {}", self.seq, id, op, what, res));
            }
        }
    }
    pub fn rand(&mut self, id: usize) -> u64 {
        self.ent_ctr[id] += 1;
        mix(self.ent ^ mix(self.ent_ctr[id] ^ ((id as u64) << 48)))
    }
    pub fn fire(&mut self, id: usize, name: &'static str, at: &str) {
        *self.fired.entry(name).or_insert(0) += 1;
        self.fired_list.push(format!("c{} {} at {}", id, name, at));
        self.note(id, "FAULT", &format!("{} at {}", name, at), 0);
    }
    fn fault(&mut self, id: usize, sys: Sys, what: &str, len: usize) -> Act {
        if !self.faults_on {
            return Act::Go;
        }
        let n = self.clients[id].nsys - 1;
        let in_op = self.clients[id].in_op;
        for k in 0..self.faults.len() {
            let (f, used) = self.faults[k].clone();
            if used || f.client as usize != id || f.at > n {
                continue;
            }
            if let Some(op) = &f.op {
                if op != in_op {
                    continue;
                }
            }
            let here = format!("{:?} {}", sys, what);
            let act = match f.kind {
                FaultKind::Eio if sys.faultable() => Some((Act::Err(libc::EIO), "eio")),
                FaultKind::Enospc if matches!(sys, Sys::Write | Sys::Open | Sys::Mkdir | Sys::Rename | Sys::Fsync) => Some((Act::Err(libc::ENOSPC), "enospc")),
                FaultKind::Eacces if matches!(sys, Sys::Open | Sys::Unlink | Sys::Rename | Sys::Stat) => Some((Act::Err(libc::EACCES), "eacces")),
                FaultKind::Emfile if matches!(sys, Sys::Open) => Some((Act::Err(libc::EMFILE), "emfile")),
                FaultKind::Eintr if matches!(sys, Sys::Open | Sys::Read | Sys::Write | Sys::Fsync) => Some((Act::Err(libc::EINTR), "eintr")),
                FaultKind::Short(q) if matches!(sys, Sys::Read | Sys::Write) && len > 1 => Some((Act::Short(1 + (q as usize) % (len - 1)), if sys == Sys::Read { "short_read" } else { "short_write" })),
                FaultKind::Kill => {
                    self.faults[k].1 = true;
                    self.fire(id, "kill", &here);
                    self.clients[id].dead = true;
                    *self.cwd.lock().unwrap() = CWD.into();
                    return Act::Err(libc::EIO);
                }
                FaultKind::Power(seed) => {
                    self.faults[k].1 = true;
                    self.fire(id, "power_loss", &here);
                    let before: Vec<(String, Option<Arc<Vec<u8>>>)> = self.versions.keys().map(|p| (p.clone(), self.disk.get(p))).collect();
                    *self.cwd.lock().unwrap() = CWD.into();
                    let t = self.disk.power_loss(seed);
                    self.note(id, "power", &t, 0);
                    for c in self.clients.iter_mut() {
                        c.dead = true;
                    }
                    for (p, old) in before {
                        let new = self.disk.get(&p);
                        if new != old {
                            self.push_version(&p, usize::MAX);
                        }
                    }
                    return Act::Err(libc::EIO);
                }
                FaultKind::Jump(s) => {
                    self.faults[k].1 = true;
                    self.fire(id, if s >= 0 { "clock_forward" } else { "clock_back" }, &here);
                    self.now_ns = clamp_clock(self.now_ns + s * 1_000_000_000);
                    continue;
                }
                FaultKind::Stall(ms) => {
                    self.faults[k].1 = true;
                    self.fire(id, "stall", &here);
                    self.mono_ns += ms as i64 * 1_000_000;
                    self.now_ns = clamp_clock(self.now_ns + ms as i64 * 1_000_000);
                    continue;
                }
                _ => None,
            };
            if let Some((a, name)) = act {
                self.faults[k].1 = true;
                self.fire(id, name, &here);
                return a;
            }
        }
        Act::Go
    }
    pub fn track(&mut self, path: &str) {
        if !self.versions.contains_key(path) {
            let d = self.disk.get(path);
            let s = self.seq;
            self.versions.insert(path.into(), vec![Version { seq: s, data: d, client: usize::MAX }]);
        }
    }
    pub fn push_version(&mut self, path: &str, client: usize) {
        let d = self.disk.get(path);
        let s = self.seq;
        if let Some(v) = self.versions.get_mut(path) {
            if v.last().map(|x| &x.data) != Some(&d) {
                v.push(Version { seq: s, data: d, client });
            }
        }
    }
    /// Process restart of client `id`: descriptors are gone.
    pub fn restart(&mut self, id: usize) {
        let c = &mut self.clients[id];
        c.dead = false;
        c.fds.clear();
        self.ent_ctr[id] += 1000;
        self.note(id, "restart", "", 0);
    }
}
pub fn clamp_clock(ns: i64) -> i64 {
    // keep the clock in 1971 ..= 2200
    ns.clamp(40_000_000_000_000_000, 7_258_118_400_000_000_000)
}
