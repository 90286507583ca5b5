#![allow(invalid_runtime_symbol_definitions)]
#![allow(unknown_lints)]
mod check;
mod exec;
#[cfg(feature = "ffi")]
mod ffi;
mod foreign;
mod gen;
mod model;
mod own;
mod pkg;
mod plan;
mod rng;
mod seam;
mod shrink;
mod sim;
mod xml;
use plan::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Default)]
struct Tot {
    runs: u64,
    executions: u64,
    sys: u64,
    sim_ns: i64,
    fired: BTreeMap<String, u64>,
    switches: u64,
    choice_points: u64,
    hashes: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    states: BTreeSet<u64>,
    opens_ok: u64,
    saves_ok: u64,
    saves_err: u64,
    restarts: u64,
    steps: u64,
    op_errs: u64,
    ops: BTreeMap<String, u64>,
    max_sys: BTreeMap<String, u64>,
    compared: u64,
    preemptions: u64,
    lock_waits: u64,
    fail: Vec<(u64, Plan, Vec<exec::Viol>)>,
    features: BTreeMap<String, u64>,
    other: BTreeMap<String, u64>,
}
#[global_allocator]
static HEAP: sim::Heap = sim::Heap;
fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned())
}
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    // (runs, seconds)
    let quick = match prop {
        "S05" => 2500,
        "D14" | "D15" | "D16" => 2500,
        _ => 4000,
    };
    if tier == "thorough" { (quick * 40, 1500) } else { (quick, 75) }
}
/// The runs happen in a child process: code under test that aborts, overflows its stack or eats all memory ends only that.
mod guard {
    use super::*;
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    const SLOTS: &str = "DST_SLOTS";
    pub fn inside() -> bool {
        std::env::var_os(SLOTS).is_some()
    }
    fn limit(gib: u64) {
        let l = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        unsafe { libc::setrlimit(libc::RLIMIT_CORE, &z) };
    }
    /// the child notes which run a worker is at
    pub fn at(worker: usize, run: Option<u64>) {
        thread_local! { static FD: i32 = std::env::var(SLOTS).ok().and_then(|s| s.parse().ok()).unwrap_or(-1); }
        let fd = FD.with(|f| *f);
        if fd >= 0 {
            let b = run.map_or(0, |r| r + 1).to_le_bytes();
            unsafe { libc::syscall(libc::SYS_pwrite64, fd, b.as_ptr(), 8usize, (worker * 8) as i64) };
        }
    }
    fn child(a: &[String], fd: i32, gib: u64, quiet: bool) -> std::process::ExitStatus {
        use std::os::unix::process::CommandExt;
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(a).env(SLOTS, fd.to_string());
        if quiet {
            c.stdout(Stdio::null()).stderr(Stdio::null());
        }
        unsafe {
            c.pre_exec(move || {
                limit(gib);
                Ok(())
            })
        };
        c.status().unwrap()
    }
    /// does this plan end the process?
    pub fn dies(p: &Plan) -> Option<i32> {
        let f = format!("{}/dst-plan-{}.json", std::env::temp_dir().display(), std::process::id());
        std::fs::write(&f, serde_json::to_vec(p).unwrap()).unwrap();
        let s = child(&["plan".into(), f.clone()], -1, 6, true);
        let _ = std::fs::remove_file(&f);
        s.signal()
    }
    pub fn run(a: &[String]) -> i32 {
        let t0 = Instant::now();
        let fd = unsafe { libc::memfd_create(c"slots".as_ptr(), 0) };
        let st = child(&a[1..], fd, 24, false);
        let Some(sig) = st.signal() else { return st.code().unwrap_or(2) };
        let mut b = vec![0u8; 64 * 8];
        unsafe { libc::pread(fd, b.as_mut_ptr() as *mut libc::c_void, b.len(), 0) };
        let prop = a[2].clone();
        let seed: u64 = arg(a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = arg(a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
        let mut at: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).filter(|x| *x > 0).map(|x| x - 1).collect();
        at.sort();
        let early = at.is_empty();
        if early {
            at = (0..warm_plans().count() as u64).collect();
        }
        for i in at {
            if early {
                // it ended in the plans every check begins with
                let mut p = warm_plans().nth(i as usize).unwrap();
                p.prop = prop.clone();
                if let Some(x) = report(&prop, seed, i, &tier, t0, vec![p]) {
                    return x;
                }
                continue;
            }
            // the plan with its faults; making it runs the code under test once, which may be what ends the process
            let f = format!("{}/dst-made-{}.json", std::env::temp_dir().display(), std::process::id());
            let _ = std::fs::remove_file(&f);
            child(&["make".into(), prop.clone(), seed.to_string(), i.to_string(), f.clone()], -1, 6, true);
            let made = std::fs::read(&f).ok().and_then(|d| serde_json::from_slice::<Plan>(&d).ok());
            let _ = std::fs::remove_file(&f);
            if let Some(x) = report(&prop, seed, i, &tier, t0, [made, Some(check::base(&prop, seed, i))].into_iter().flatten().collect()) {
                return x;
            }
        }
        eprintln!("error: the simulator ended with signal {} and no run repeats that", sig);
        2
    }
    fn report(prop: &str, seed: u64, i: u64, tier: &str, t0: Instant, plans: Vec<Plan>) -> Option<i32> {
            for p in plans {
                let Some(sig) = dies(&p) else { continue };
                let (small, tries) = shrink::shrink_while(&p, Duration::from_secs(30), |p| dies(p).is_some());
                let dir = std::env::var("DST_REPLAYS").unwrap_or("/verif/replays".into());
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
                let what = format!("the code under test ends the process with signal {}", sig);
                let out = json!({ "property": prop, "category": "abort", "violation": what, "seed": seed, "run": i, "shrink_tries": tries, "profile": profile(), "plan": small });
                let _ = std::fs::write(&path, serde_json::to_vec_pretty(&out).unwrap());
                let evd = std::env::var("DST_EVIDENCE").unwrap_or("/verif/evidence".into());
                let _ = std::fs::create_dir_all(&evd);
                let ev = json!({ "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": 1, "coverage": { "evaluations": i + 1, "distinct_nontrivial": 1, "rule": "stopped at a run that ends the process", "samples": [] }, "assumptions": [] });
                let _ = std::fs::write(format!("{}/{}.json", evd, prop), serde_json::to_vec_pretty(&ev).unwrap());
                println!("run {} of seed {}: abort: {}", i, seed, what);
                println!("minimised to {} steps, {} faults, {} files", small.clients.iter().map(|c| c.len()).sum::<usize>(), small.faults.len(), small.files.len());
                println!("VIOLATION property={} replay={}", prop, path);
                return Some(1);
            }
            None
    }
}
fn main() {
    // backtraces are captured under a lock of std and read files; the code under test does not need them
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    // a zone far from UTC, with a summer time and no full hours: recorded times are in UTC wherever the user is
    std::env::set_var("TZ", "SIM-12:45DST-13:45,M9.5.0/2:45,M4.1.0/3:45");
    exec::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "run") && !guard::inside() {
        std::process::exit(guard::run(&a));
    }
    if a.get(1).map_or(true, |x| x != "plan" && x != "make") {
        warm_up();
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => run_prop(&a),
        Some("replay") => replay(&a[2], a.iter().any(|x| x == "--log")),
        Some("make") => {
            let (p, _) = check::make(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
            std::fs::write(&a[5], serde_json::to_vec(&p).unwrap()).unwrap();
            0
        }
        Some("plan") => {
            let p: Plan = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let _ = check::evaluate(&p, false);
            0
        }
        Some("show") => {
            let (p, _) = check::make(&a[2], arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1), a[3].parse().unwrap());
            println!("{}", serde_json::to_string_pretty(&p).unwrap());
            let e = check::evaluate(&p, true);
            for l in &e.r.log {
                println!("{}", l);
            }
            for v in &e.all {
                println!("{} c{} s{}: {}", v.cat, v.client, v.step, v.msg);
            }
            0
        }
        Some("determinism") => determinism(&a),
        Some("dump") => {
            // the final files of a plan, for inspection
            let p: Value = serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            let p: Plan = serde_json::from_value(p.get("plan").cloned().unwrap_or(p)).unwrap();
            let r = exec::run(&p, false);
            for (k, d) in &r.final_files {
                let f = format!("{}/{}", a[3], k.replace('/', "_"));
                std::fs::write(&f, &**d).unwrap();
                println!("{}", f);
            }
            0
        }
        Some("foreign") => {
            let d = foreign::build(&plan::Doc::Excel, a[2].parse().unwrap(), &a[4..].iter().map(|s| s.to_string()).collect::<Vec<_>>());
            std::fs::write(&a[3], d).unwrap();
            0
        }
        _ => {
            eprintln!("usage: dst run PROP [--seed N] [--tier quick|thorough] | replay FILE | show PROP I");
            2
        }
    };
    std::process::exit(code);
}
/// What the process initialises once is initialised before the first run, so that all runs are alike.
fn warm_up() {
    let _ = std::io::Write::flush(&mut std::io::stdout().lock());
    for p in warm_plans() {
        let _ = exec::run(&p, false);
    }
}
fn warm_plans() -> impl Iterator<Item = Plan> {
    ["S05", "W18", "D11", "D08"].into_iter().flat_map(|prop| (0..6).map(move |i| check::base(prop, 1, i)))
}
fn sample(p: &Plan, e: &check::Eval) -> Value {
    json!({
        "plan_seed": p.seed,
        "files": p.files.iter().map(|f| f.path.clone()).collect::<Vec<_>>(),
        "clients": p.clients.len(),
        "steps": p.clients.iter().map(|c| c.len()).sum::<usize>(),
        "faults_planned": p.faults.len(),
        "faults_fired": e.r.fired_list.iter().take(6).collect::<Vec<_>>(),
        "context_switches": e.r.switches,
        "storage_operations": e.r.sys,
        "saves_ok": e.r.saves_ok,
        "saves_failed": e.r.saves_err,
        "restarts": e.r.restarts,
        "hash": format!("{:016x}", e.r.hash),
    })
}
fn known(prop: &str) -> Vec<(String, String, String)> {
    // finding: property=ID plan=FILE cat=CATEGORY what...
    let f = std::fs::read_to_string("/verif/KNOWN_FINDINGS").unwrap_or_default();
    let mut v = vec![];
    for l in f.lines() {
        if let Some(x) = l.strip_prefix("finding: ") {
            let g = |k: &str| x.split(' ').find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
            if g("property=") == prop {
                let what = x.split(" what=").nth(1).unwrap_or("").to_string();
                v.push((g("plan="), g("cat="), what));
            }
        }
    }
    v
}
fn load_plan(path: &str) -> Result<(Plan, Value), String> {
    let v: Value = serde_json::from_slice(&std::fs::read(path).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    let p: Plan = serde_json::from_value(v.get("plan").cloned().unwrap_or(v.clone())).map_err(|e| e.to_string())?;
    Ok((p, v))
}
/// seconds of real time after which one run (normally some milliseconds) counts as never ending
const STUCK: u64 = 100;
fn stuck(prop: &str, seed: u64, tier: &str, i: u64, t: &mut Tot, t0: Instant) {
    let dir = std::env::var("DST_REPLAYS").unwrap_or("/verif/replays".into());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
    let p = check::base(prop, seed, i);
    let out = json!({ "property": prop, "category": "hang", "violation": format!("run {} did not end within {} s", i, STUCK), "seed": seed, "run": i, "plan": p });
    let _ = std::fs::write(&path, serde_json::to_vec_pretty(&out).unwrap());
    let evd = std::env::var("DST_EVIDENCE").unwrap_or("/verif/evidence".into());
    let _ = std::fs::create_dir_all(&evd);
    let ev = json!({ "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": t0.elapsed().as_secs_f64(), "violations": 1, "coverage": { "evaluations": t.runs + 1, "distinct_nontrivial": t.nontrivial.len().max(1), "rule": "stopped at a run that does not end", "samples": [] }, "assumptions": [] });
    let _ = std::fs::write(format!("{}/{}.json", evd, prop), serde_json::to_vec_pretty(&ev).unwrap());
    println!("run {} of seed {}: hang: the code under test did not come back within {} s of real time and does not use storage meanwhile", i, seed, STUCK);
    println!("VIOLATION property={} replay={}", prop, path);
    std::process::exit(1);
}
/// the build of the library: with its debug assertions and overflow checks ("checked") or as users get it ("shipped")
fn profile() -> &'static str {
    let shipped = std::env::current_exe().map_or(false, |p| p.components().any(|c| c.as_os_str() == "shipped"));
    if shipped { "shipped" } else { "checked" }
}
fn run_prop(a: &[String]) -> i32 {
    let prop = a[2].clone();
    let seed: u64 = arg(a, "--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(a, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let (mut nruns, mut secs) = budget(&prop, &tier);
    if let Some(n) = arg(a, "--runs").and_then(|s| s.parse().ok()) {
        nruns = n;
    }
    if let Some(n) = arg(a, "--secs").and_then(|s| s.parse().ok()) {
        secs = n;
    }
    let threads: usize = arg(a, "--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let keep_going = a.iter().any(|x| x == "--all");
    let from: u64 = arg(a, "--from").and_then(|s| s.parse().ok()).unwrap_or(0);
    let t0 = Instant::now();
    // recorded findings first
    let mut kf = 0;
    for (plan, cat, what) in known(&prop) {
        match load_plan(&format!("/verif/{}", plan)) {
            Ok((p, _)) => {
                let e = check::evaluate(&p, false);
                if e.mine.iter().any(|v| v.cat == cat) {
                    println!("KNOWN-FINDING: property={} {}", prop, what);
                    kf += 1;
                } else {
                    println!("note: recorded finding no longer occurs: {}", what);
                }
            }
            Err(e) => println!("note: {}: {}", plan, e),
        }
    }
    let tot = Mutex::new(Tot::default());
    let samples = Mutex::new(BTreeMap::<u64, Value>::new());
    let next = AtomicU64::new(from);
    let stop = AtomicBool::new(false);
    let deadline = Duration::from_secs(secs);
    // a run that computes for ever without touching storage can only be seen from outside
    let slots: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let left = AtomicU64::new(threads as u64);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                for s in &slots {
                    let x = *s.lock().unwrap();
                    if let Some((i, at)) = x {
                        if at.elapsed() > Duration::from_secs(STUCK) {
                            stuck(&prop, seed, &tier, i, &mut tot.lock().unwrap(), t0);
                        }
                    }
                }
            }
        });
        for w in 0..threads {
            let slot = &slots[w];
            let (tot, samples, next, stop, prop) = (&tot, &samples, &next, &stop, &prop);
            let (done, left) = (&done, &left);
            sc.spawn(move || {
                let mut t = Tot::default();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= from + nruns || stop.load(Ordering::Relaxed) || t0.elapsed() > deadline {
                        break;
                    }
                    *slot.lock().unwrap() = Some((i, Instant::now()));
                    guard::at(w, Some(i));
                    let (p, dry) = check::make(&prop, seed, i);
                    let e = check::evaluate(&p, false);
                    *slot.lock().unwrap() = None;
                    guard::at(w, None);
                    if i < from + 3 {
                        samples.lock().unwrap().insert(i, sample(&p, &e));
                    }
                    t.runs += 1;
                    t.executions += e.runs + dry;
                    t.sys += e.r.sys;
                    t.sim_ns += e.r.sim_ns;
                    for (k, v) in &e.r.fired {
                        *t.fired.entry(k.clone()).or_insert(0) += v;
                    }
                    t.switches += e.r.switches;
                    t.choice_points += e.r.choice_points;
                    t.hashes.insert(e.r.hash);
                    if e.r.saves_ok + e.r.saves_err + e.r.restarts > 0 {
                        t.nontrivial.insert(e.r.hash);
                    }
                    t.states.extend(&e.r.states);
                    t.opens_ok += e.r.opens_ok;
                    t.saves_ok += e.r.saves_ok;
                    t.saves_err += e.r.saves_err;
                    t.restarts += e.r.restarts;
                    t.steps += e.r.steps;
                    t.op_errs += e.r.errs.len() as u64;
                    t.compared += e.r.compared;
                    t.preemptions += e.r.preemptions;
                    t.lock_waits += e.r.lock_waits;
                    for (k, v) in &e.r.ops {
                        *t.ops.entry(k.to_string()).or_insert(0) += v;
                    }
                    for (k, v) in &e.r.op_sys {
                        let m = t.max_sys.entry(k.to_string()).or_insert(0);
                        *m = (*m).max(*v);
                    }
                    for f in &p.files {
                        if let plan::Src::Foreign { features, .. } = &f.src {
                            for x in features {
                                *t.features.entry(x.clone()).or_insert(0) += 1;
                            }
                        }
                    }
                    for v in &e.all {
                        if !check::claims(&prop, &v.cat) {
                            *t.other.entry(v.cat.clone()).or_insert(0) += 1;
                        }
                    }
                    if !e.mine.is_empty() {
                        t.fail.push((i, p, e.mine));
                        if !keep_going {
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                }
                let mut g = tot.lock().unwrap();
                g.runs += t.runs;
                g.executions += t.executions;
                g.sys += t.sys;
                g.sim_ns += t.sim_ns;
                g.switches += t.switches;
                g.choice_points += t.choice_points;
                g.hashes.extend(t.hashes);
                g.nontrivial.extend(t.nontrivial);
                g.states.extend(t.states);
                g.opens_ok += t.opens_ok;
                g.saves_ok += t.saves_ok;
                g.saves_err += t.saves_err;
                g.restarts += t.restarts;
                g.steps += t.steps;
                g.op_errs += t.op_errs;
                g.compared += t.compared;
                g.preemptions += t.preemptions;
                g.lock_waits += t.lock_waits;
                for (m, n) in [(&mut g.fired, t.fired)] {
                    for (k, v) in n {
                        *m.entry(k).or_insert(0) += v;
                    }
                }
                for (k, v) in t.ops {
                    *g.ops.entry(k).or_insert(0) += v;
                }
                for (k, v) in t.features {
                    *g.features.entry(k).or_insert(0) += v;
                }
                for (k, v) in t.other {
                    *g.other.entry(k).or_insert(0) += v;
                }
                for (k, v) in t.max_sys {
                    let m = g.max_sys.entry(k).or_insert(0);
                    *m = (*m).max(v);
                }
                g.fail.extend(t.fail);
                if left.fetch_sub(1, Ordering::Relaxed) == 1 {
                    done.store(true, Ordering::Relaxed);
                }
            });
        }
    });
    let mut t = tot.into_inner().unwrap();
    t.fail.sort_by_key(|f| f.0);
    let wall = t0.elapsed().as_secs_f64();
    // the seams must really be in place
    let mask = seam::INTERPOSED.load(Ordering::Relaxed);
    let mut code = 0;
    if mask & 0b1100_0111 != 0b1100_0111 && t.runs > 20 {
        eprintln!("error: the simulator did not see every kind of system call (mask {:b})", mask);
        code = 2;
    }
    let nviol = t.fail.len();
    if keep_going {
        // per category: how often, the features the failing runs share, a few examples with the fewest features
        let feats = |p: &plan::Plan| -> std::collections::BTreeSet<String> {
            p.files.iter().flat_map(|f| if let plan::Src::Foreign { features, .. } = &f.src { features.clone() } else { vec![] }).collect()
        };
        let mut by: BTreeMap<String, Vec<(u64, std::collections::BTreeSet<String>, String)>> = BTreeMap::new();
        for (i, p, v) in &t.fail {
            let mut seen = std::collections::BTreeSet::new();
            for x in v {
                if seen.insert(x.cat.clone()) {
                    by.entry(x.cat.clone()).or_default().push((*i, feats(p), x.msg.clone()));
                }
            }
        }
        for (k, mut v) in by {
            let n = v.len() as f64;
            let mut cnt: BTreeMap<&String, f64> = BTreeMap::new();
            for (_, f, _) in &v {
                for x in f {
                    *cnt.entry(x).or_insert(0.0) += 1.0;
                }
            }
            let mut lift: Vec<(f64, String)> = cnt.iter().filter(|(_, c)| **c / n > 0.4).map(|(f, c)| (c / n / ((*t.features.get(*f).unwrap_or(&1)) as f64 / t.runs as f64), format!("{} {:.0}%", f, c / n * 100.0))).collect();
            lift.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
            println!("{:6} {}   features: {}", v.len(), k, lift.iter().take(4).map(|x| x.1.clone()).collect::<Vec<_>>().join(", "));
            v.sort_by_key(|x| x.1.len());
            for (i, f, m) in v.iter().take(3) {
                println!("         #{} ({} features{}) {}", i, f.len(), if f.len() <= 3 { format!(": {}", f.iter().cloned().collect::<Vec<_>>().join(",")) } else { String::new() }, m.chars().take(300).collect::<String>());
            }
        }
        println!("{} of {} runs fail", nviol, t.runs);
    } else if let Some((i, p, v)) = t.fail.first() {
        code = 1;
        let first = v.iter().find(|x| x.cat != "harness").unwrap_or(&v[0]).clone();
        let (small, tries) = shrink::shrink(p, &first.cat, Duration::from_secs(25));
        let e = check::evaluate(&small, true);
        let m = e.mine.iter().find(|v| v.cat == first.cat).cloned().unwrap_or(first.clone());
        let dir = std::env::var("DST_REPLAYS").unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, prop, seed, i);
        let out = json!({ "property": prop, "category": m.cat, "violation": m.msg, "client": m.client, "step": m.step, "seed": seed, "run": i, "hash": format!("{:016x}", e.r.hash), "shrink_tries": tries, "profile": profile(), "faults_fired": e.r.fired_list, "trace": e.r.log, "plan": small });
        std::fs::write(&path, serde_json::to_vec_pretty(&out).unwrap()).unwrap();
        println!("run {} of seed {}: {} (client {} step {}): {}", i, seed, m.cat, m.client, m.step, m.msg);
        println!("minimised to {} steps, {} faults, {} files", small.clients.iter().map(|c| c.len()).sum::<usize>(), small.faults.len(), small.files.len());
        println!("VIOLATION property={} replay={}", prop, path);
    }
    let per_h = |n: u64| (n as f64 / wall * 3600.0) as u64;
    let samples: Vec<Value> = samples.into_inner().unwrap().into_values().collect();
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nviol,
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": t.nontrivial.len(),
            "rule": "one evaluation is one seeded plan (files, client steps, faults, schedule, clock, entropy) executed against the real library inside the simulator and judged; distinct by the hash of its whole trace of storage operations, results, faults and switches; non-trivial when at least one save was attempted or a crash happened",
            "samples": samples,
            "executions_including_dry_and_second_runs": t.executions,
            "runs_per_hour": per_h(t.runs), "seeds_per_hour": per_h(t.runs),
            "simulated_seconds": t.sim_ns as f64 / 1e9,
            "storage_operations": t.sys,
            "steps": t.steps, "library_calls": t.ops, "calls_that_returned_an_error": t.op_errs,
            "sessions_opened": t.opens_ok, "saves_ok": t.saves_ok, "saves_failed": t.saves_err, "process_restarts": t.restarts,
            "saved_files_compared_with_the_model": t.compared,
            "faults_injected": t.fired,
            "context_switches": t.switches, "scheduling_choice_points": t.choice_points,
            "preemptions_between_system_calls": t.preemptions, "waits_for_a_lock_inside_the_library": t.lock_waits,
            "distinct_traces": t.hashes.len(),
            "distinct_states": t.states.len(),
            "state_measure": "operation kind, its outcome, open handles, sheets, cells (capped at 9 per sheet) and deletions of the session",
            "most_storage_operations_in_one_call": t.max_sys,
            "producer_features": t.features,
            "known_findings_reproduced": kf,
            "other_categories_seen": t.other,
            "real_code": [if prop == "F21" { "draviavemal-openxml_office (all of rs/src), the C interface (all of rs_ffi/src), flatbuffers, zip, flate2, quick-xml, chrono, std" } else { "draviavemal-openxml_office (all of rs/src), zip, flate2, quick-xml, chrono, std" }],
            "stubbed": [if prop == "F21" { "code generated by flatc from fbs (written by hand for the fields the interface reads)" } else { "nothing of the library" }, "file system (in-memory disk with page-cache/durable split)", "clock", "entropy", "process ids", "thread scheduling (baton)"],
        },
        "assumptions": ["the C library functions replaced by the simulator are the only way the library reaches storage, clock and entropy (checked: every kind of call was seen)"]
    });
    if !keep_going {
        let evd = std::env::var("DST_EVIDENCE").unwrap_or("/verif/evidence".into());
        let _ = std::fs::create_dir_all(&evd);
        let mut ev = ev;
        ev["coverage"]["library_build"] = json!(profile());
        if profile() == "shipped" {
            // added to what the checked build covered just before
            let old = std::fs::read(format!("{}/{}.json", evd, prop)).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            if let Some(mut old) = old {
                old["coverage"]["shipped_build"] = json!({ "seed": seed, "evaluations": t.runs, "distinct_nontrivial": t.nontrivial.len(), "violations": nviol, "wall_s": wall, "faults_injected": t.fired });
                old["violations"] = json!(old["violations"].as_u64().unwrap_or(0) + nviol as u64);
                ev = old;
            }
        }
        let _ = std::fs::write(format!("{}/{}.json", evd, prop), serde_json::to_vec_pretty(&ev).unwrap());
    }
    println!("{} {}: {} runs, {} distinct traces, {} states, {} saves ok, {} failed, {} restarts, faults {:?}, {:.1}s", prop, tier, t.runs, t.hashes.len(), t.states.len(), t.saves_ok, t.saves_err, t.restarts, t.fired, wall);
    if !t.other.is_empty() {
        println!("outside this property: {:?}", t.other);
    }
    code
}
fn replay(path: &str, log: bool) -> i32 {
    let (p, v) = match load_plan(path) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let (name, path2) = (p.prop.clone(), path.to_string());
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(STUCK));
        println!("hang: the run does not end within {} s", STUCK);
        println!("VIOLATION property={} replay={}", name, path2);
        std::process::exit(1);
    });
    if v.get("category").and_then(|x| x.as_str()) == Some("abort") {
        // in a child, so that its end can be reported
        return match guard::dies(&p) {
            Some(sig) => {
                println!("abort: the code under test ends the process with signal {}", sig);
                println!("VIOLATION property={} replay={}", p.prop, path);
                1
            }
            None => {
                println!("no violation");
                0
            }
        };
    }
    let e = check::evaluate(&p, log);
    for l in &e.r.log {
        println!("{}", l);
    }
    for x in &e.all {
        println!("{}{} (client {} step {}): {}", if check::claims(&p.prop, &x.cat) { "" } else { "[other] " }, x.cat, x.client, x.step, x.msg);
    }
    let h = format!("{:016x}", e.r.hash);
    match v.get("hash").and_then(|x| x.as_str()) {
        Some(w) if w == h => println!("trace hash {} as recorded", h),
        Some(w) => println!("trace hash {} but {} was recorded (the code under test has changed)", h, w),
        None => println!("trace hash {}", h),
    }
    if e.mine.is_empty() {
        println!("no violation");
        0
    } else {
        println!("VIOLATION property={} replay={}", p.prop, path);
        1
    }
}
fn determinism(a: &[String]) -> i32 {
    let n: u64 = arg(a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
    let mut bad = 0;
    // the order of the runs must not matter either
    let rev = a.iter().any(|x| x == "--reverse");
    let mut all = 0u64;
    let only = arg(a, "--prop");
    for prop in ["S01", "S02", "S03", "S04", "S05", "D06", "D07", "D08", "D09", "D10", "D11", "D12", "D13", "D14", "D15", "D16", "T17", "W18"] {
        if only.as_ref().map_or(false, |o| o != prop) {
            continue;
        }
        for i in 0..n {
            let i = if rev { n - 1 - i } else { i };
            let (p, _) = check::make(prop, 7, i);
            let (p2, _) = check::make(prop, 7, i);
            let (x, y) = (check::evaluate(&p, true), check::evaluate(&p2, true));
            all ^= x.r.hash.rotate_left((i % 61) as u32);
            if x.r.hash != y.r.hash || p != p2 || x.r.final_files != y.r.final_files {
                bad += 1;
                let k = x.r.log.iter().zip(&y.r.log).position(|(a, b)| a != b);
                println!("{} {}: two executions differ at {:?}: {:?} / {:?}", prop, i, k, k.map(|k| &x.r.log[k]), k.map(|k| &y.r.log[k]));
            }
        }
    }
    println!("determinism: {} plans per property executed twice, {} differ, all traces {:016x}", n, bad, all);
    (bad > 0) as i32
}
