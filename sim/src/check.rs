//! From runs to verdicts: which violation belongs to which property, and the properties decided by several executions.
use crate::exec::{run, RunResult, Viol};
use crate::gen;
use crate::model::{canon_diff, canon_file};
use crate::plan::*;
use std::collections::{BTreeMap, BTreeSet};

pub const CONTENT: &[&str] = &["package", "part", "rel", "ct", "sheets", "active", "state", "cell", "cell.other", "cell.style", "cell.style.other", "row", "row.other", "col", "col.other", "sheetview", "sheet.other", "wb.other", "style.other", "style", "style.existing", "view", "core", "truth", "atomic"];
pub fn claims(prop: &str, cat: &str) -> bool {
    if cat == "panic" || cat == "harness" || cat == "hang" || cat == "abort" {
        return true;
    }
    if let Ok(x) = std::env::var("DST_CLAIM") {
        return x == cat; // to look at one category in the runs of any property
    }
    let is = |l: &[&str]| l.contains(&cat);
    match prop {
        "S01" => is(&["atomic", "package"]),
        "S02" => is(CONTENT) || is(&["save.fails", "open.fails", "open.accepts"]),
        "S03" => is(&["footprint", "fdleak"]),
        "S04" => is(CONTENT) || is(&["open.accepts", "open.fails"]),
        "S05" => is(CONTENT) || is(&["save.fails", "open.fails", "open.accepts", "op.fails", "handle.fails", "cell.fails", "footprint"]),
        "D06" => is(&["cell", "cell.other", "cell.fails", "package", "arg.accepted"]),
        "D07" => is(&["handle.fails", "handle.second", "cell", "cell.other", "cell.fails", "row", "col", "package"]),
        "D08" => is(&["sheets", "active", "state", "sheetid", "op.fails", "op.rename", "handle.fails", "cell", "cell.other", "package", "part"]),
        "D09" => is(&["part", "rel", "ct", "package", "cell.other", "row.other", "col.other", "cell.style.other", "sheet.other", "wb.other", "style.other", "style.existing", "sheetview", "state", "sheets", "active", "core", "view", "open.fails", "save.fails", "sheetid", "handle.fails"]),
        "D10" => is(&["lint", "package"]),
        "D11" => is(&["style", "style.existing", "cell.style", "cell.style.other", "style.other", "package", "op.fails"]),
        "D12" => is(&["row", "row.other", "col", "col.other", "cell.other", "cell", "op.fails", "package", "arg.accepted"]),
        "D13" => is(&["view", "active", "package", "op.fails"]),
        "D14" => is(&["noeffect", "arg.accepted"]),
        "D15" => is(&["determinism"]),
        "D16" => is(&["fixpoint"]),
        "T17" => is(&["created", "modified", "save.fails", "open.fails"]),
        "W18" => is(&["part", "rel", "ct", "core", "package", "lint", "open.fails", "save.fails"]),
        "F21" => is(CONTENT) || is(&["ffi", "open.fails", "open.accepts", "save.fails", "op.fails", "op.rename", "handle.fails", "handle.second", "arg.accepted", "footprint", "fdleak"]),
        _ => false,
    }
}
pub struct Eval {
    pub mine: Vec<Viol>,
    pub all: Vec<Viol>,
    pub r: RunResult,
    pub runs: u64,
}
fn extra(cat: &str, msg: String) -> Viol {
    Viol { cat: cat.into(), msg, client: 0, step: 0 }
}
fn beside(p: &str) -> String {
    let tail: Vec<char> = p.replace('/', "_").chars().rev().take(100).collect();
    format!("/tmp/n_{}", tail.into_iter().rev().collect::<String>())
}
pub const OPEN_BOUND: u64 = 2000;
pub const SAVE_BOUND: u64 = 2000;
pub fn evaluate(plan: &Plan, keep_log: bool) -> Eval {
    let mut r = run(plan, keep_log);
    let mut runs = 1;
    let mut add = vec![];
    // reading and writing a part of megabytes takes more
    let big = plan.files.iter().any(|f| matches!(&f.src, Src::Foreign { features, .. } if features.iter().any(|x| x == "big_part")));
    let more = if big { 10_000 } else { 0 };
    for (op, b) in [("open", OPEN_BOUND + more), ("save", SAVE_BOUND + more)] {
        if let Some(n) = r.op_sys.get(op) {
            if *n > b {
                add.push(extra("hang", format!("one {} took {} storage operations", op, n)));
            }
        }
    }
    match plan.prop.as_str() {
        "D14" => {
            // without the steps that failed
            let mut p2 = plan.clone();
            let mut dropped = 0;
            for (c, steps) in p2.clients.iter_mut().enumerate() {
                let old = std::mem::take(steps);
                for (i, s) in old.into_iter().enumerate() {
                    if r.errs.contains(&(c, i)) && !matches!(s, Step::Open { .. } | Step::Save { .. }) {
                        dropped += 1;
                        // the client lets go of the handle it kept in that place, whether the call succeeds or not
                        if let Step::Get { h, .. } | Step::Add { h, .. } = s {
                            steps.push(Step::Close { h });
                        }
                        continue;
                    }
                    steps.push(s);
                }
            }
            if dropped > 0 {
                let r2 = run(&p2, false);
                runs += 1;
                if let Some(d) = compare_saves(&r, &r2) {
                    add.push(extra("noeffect", format!("with {} failed calls left out the result differs: {}", dropped, d)));
                }
            }
        }
        "D15" => {
            let mut p2 = plan.clone();
            let a = plan.aux.clone();
            let x = |i: usize| a.get(i).cloned().unwrap_or(1);
            p2.entropy = x(0);
            p2.clock0 = 86_400 * 365 * 3 + (x(1) % (86_400 * 365 * 100)) as i64;
            let mut rr = crate::rng::Rng::new(x(2));
            for _ in 0..rr.usize(8) {
                let kind = match rr.usize(4) {
                    0 => FaultKind::Eintr,
                    1 => FaultKind::Short(rr.below(100_000) as u32),
                    2 => FaultKind::Jump(rr.below(1 << 26) as i64 - (1 << 25)),
                    _ => FaultKind::Stall(rr.below(1 << 20) as u32),
                };
                p2.faults.push(Fault { client: 0, at: rr.below(r.nsys[0].max(1) as u64) as u32, op: None, kind });
            }
            if rr.pct(30) {
                let at = rr.below(r.nsys[0].max(1) as u64) as u32;
                for _ in 0..3 + rr.usize(30) {
                    let kind = if rr.pct(50) { FaultKind::Eintr } else { FaultKind::Short(rr.below(300) as u32) };
                    p2.faults.push(Fault { client: 0, at, op: None, kind });
                }
            }
            if rr.pct(60) {
                // a neighbour on other files
                let (mut n, _) = gen::plan("D15n", rr.next());
                for s in n.clients[0].iter_mut() {
                    match s {
                        Step::Open { path: Some(p), .. } | Step::Save { path: p } => *p = beside(p),
                        Step::PowerCycle { .. } => *s = Step::List,
                        _ => {}
                    }
                }
                for f in n.files.iter_mut() {
                    f.path = beside(&f.path);
                }
                p2.files.extend(n.files);
                p2.clients.push(n.clients.remove(0));
                p2.sched = (0..300).map(|_| rr.below(3) as u16).collect();
                for c in 0..2 {
                    let n = r.nalloc[0].max(1) as u64;
                    for _ in 0..rr.below(200) {
                        p2.preempt.push((c, rr.below(n) as u32));
                    }
                }
            }
            let r2 = run(&p2, false);
            runs += 1;
            if let Some(d) = compare_saves(&r, &r2) {
                add.push(extra("determinism", format!("the same operations gave another result: {}", d)));
            }
        }
        "D16" => {
            if let Some(d) = fixpoint(plan, &r) {
                add.push(extra("fixpoint", d));
            }
        }
        _ => {}
    }
    r.viols.extend(add);
    let mine: Vec<Viol> = r.viols.iter().filter(|v| claims(&plan.prop, &v.cat)).cloned().collect();
    Eval { mine, all: r.viols.clone(), r, runs }
}
/// client 0's saves, in order
fn compare_saves(a: &RunResult, b: &RunResult) -> Option<String> {
    let f = |r: &RunResult| r.saves.iter().filter(|s| s.client == 0).cloned().collect::<Vec<_>>();
    let (x, y) = (f(a), f(b));
    if x.len() != y.len() {
        return Some(format!("{} saves and {} saves", x.len(), y.len()));
    }
    for (p, q) in x.iter().zip(&y) {
        if p.ok != q.ok {
            return Some(format!("save to {} succeeded {} and {}", p.path, p.ok, q.ok));
        }
        if !p.ok {
            continue;
        }
        match (&p.data, &q.data) {
            (Some(m), Some(n)) => match (canon_file(m), canon_file(n)) {
                (Ok(m), Ok(n)) => {
                    if let Some(d) = canon_diff(&m, &n) {
                        return Some(format!("save to {}: {}", p.path, d));
                    }
                }
                (Err(_), Err(_)) => {}
                (Err(e), _) | (_, Err(e)) => return Some(format!("save to {}: {}", p.path, e)),
            },
            (None, None) => {}
            _ => return Some(format!("save to {}: one is missing", p.path)),
        }
    }
    None
}
/// Sessions that only open and save must not change what the library itself saved; the same edits again must not either.
fn fixpoint(plan: &Plan, r: &RunResult) -> Option<String> {
    let steps = &plan.clients[0];
    // sessions: (open path, edits, save path, save step)
    let mut last: BTreeMap<String, (BTreeMap<String, Vec<u8>>, Vec<Step>, u32, BTreeSet<String>)> = BTreeMap::new();
    let mut i = 0;
    while i < steps.len() {
        let Step::Open { path, .. } = &steps[i] else {
            i += 1;
            continue;
        };
        let mut j = i + 1;
        let mut edits = vec![];
        while j < steps.len() && !matches!(steps[j], Step::Open { .. } | Step::Save { .. } | Step::Drop) {
            edits.push(steps[j].clone());
            j += 1;
        }
        if let Some(Step::Save { path: to }) = steps.get(j) {
            let s = r.saves.iter().find(|s| s.step == j);
            let key = crate::exec::abs(to);
            match s.and_then(|s| if s.ok { s.data.clone() } else { None }) {
                Some(d) => {
                    let Ok(c) = canon_file(&d) else { return None };
                    // asking for a sheet the first time brings it into the library's own form, like an edit
                    let mut seen = path.as_ref().and_then(|p| last.get(&crate::exec::abs(p))).map(|l| l.3.clone()).unwrap_or_default();
                    let asked: BTreeSet<String> = edits.iter().filter_map(|e| if let Step::Get { name, .. } = e { Some(name.clone()) } else { None }).collect();
                    let first = !asked.is_subset(&seen);
                    if edits.iter().any(|e| matches!(e, Step::Rename { .. } | Step::Delete { .. })) {
                        seen.clear();
                    } else {
                        seen.extend(asked);
                    }
                    let idle = !first && edits.iter().all(|e| matches!(e, Step::Get { .. } | Step::Close { .. } | Step::List | Step::Jump { .. } | Step::Freeze { .. }));
                    if let Some(p) = path {
                        if let Some((old, e2, n, _)) = last.get(&crate::exec::abs(p)) {
                            if idle || (*e2 == edits && *n >= 1) {
                                if let Some(x) = canon_diff(old, &c) {
                                    return Some(format!("step {}: {} changed the file again: {}", j, if idle { "opening and saving without an edit" } else { "repeating the same edits" }, x));
                                }
                            }
                        }
                    }
                    let n = match path.as_ref().and_then(|p| last.get(&crate::exec::abs(p))) {
                        Some((_, e2, n, _)) if *e2 == edits && path.as_ref().map(|p| crate::exec::abs(p)) == Some(key.clone()) => n + 1,
                        _ => 0,
                    };
                    last.insert(key, (c, edits, n, seen));
                }
                None => {
                    last.remove(&key);
                }
            }
        }
        i = j;
    }
    None
}
/// Builds the plan number `i` of a property.
pub fn make(prop: &str, seed: u64, i: u64) -> (Plan, u64) {
    let (mut p, mut g) = gen::plan(prop, gen::run_seed(prop, seed, i));
    spare_shared(&mut p);
    let mut dry_runs = 0;
    if g_faults(prop) || prop == "S03" {
        let dry = run(&p, false);
        dry_runs = 1;
        if prop == "S03" {
            let saved: BTreeSet<String> = p.clients.iter().flatten().filter_map(|s| if let Step::Save { path } = s { Some(crate::exec::abs(path)) } else { None }).collect();
            let temps: Vec<String> = dry.all_touched.iter().filter(|t| !saved.contains(*t)).cloned().collect();
            if i % 3 == 0 {
                gen::add_squatters(&mut p, &temps);
            }
        }
        gen::add_faults(&mut p, &mut g, &dry.nsys);
        if p.clients.len() > 1 {
            gen::add_preemptions(&mut p, &mut g, &dry.nalloc);
        }
    }
    (p, dry_runs)
}
/// The plan number `i` before the faults, for a run that never ends.
pub fn base(prop: &str, seed: u64, i: u64) -> Plan {
    let mut p = gen::plan(prop, gen::run_seed(prop, seed, i)).0;
    spare_shared(&mut p);
    p
}
/// Overwriting the cell that defines a shared formula is a recorded finding (known/shared-formula.json); the plans leave
/// that one cell of the generated packages alone
fn spare_shared(p: &mut Plan) {
    if !p.files.iter().any(|f| matches!(&f.src, Src::Foreign { features, .. } if features.iter().any(|x| x == "shared_formula"))) {
        return;
    }
    let hits = |row: u32, col: u32, n: usize| row == 3 && col <= 10 && 10 < col + n as u32;
    for s in p.clients.iter_mut().flatten() {
        match s {
            Step::Cells { row, col, cells, .. } if hits(*row, *col as u32, cells.len()) => *row = 8,
            Step::RefCells { cell_ref, cells, .. } => {
                if let Some((r, c)) = crate::pkg::parse_ref(cell_ref) {
                    if hits(r, c, cells.len()) {
                        *cell_ref = format!("{}8", crate::pkg::col_name(c));
                    }
                }
            }
            _ => {}
        }
    }
}
fn g_faults(prop: &str) -> bool {
    gen::profile(prop).faults.1 > 0
}
