//! Minimises a failing plan while the same kind of violation remains.
use crate::check::evaluate;
use crate::plan::*;
use std::time::{Duration, Instant};

pub fn shrink(plan: &Plan, cat: &str, budget: Duration) -> (Plan, u64) {
    shrink_while(plan, budget, |p| evaluate(p, false).mine.iter().any(|v| v.cat == cat))
}
/// the smallest plan found that still satisfies `bad`
pub fn shrink_while(plan: &Plan, budget: Duration, mut bad: impl FnMut(&Plan) -> bool) -> (Plan, u64) {
    let t0 = Instant::now();
    let mut best = plan.clone();
    let mut tries = 0u64;
    let mut ok = |p: &Plan| -> bool {
        if t0.elapsed() > budget {
            return false;
        }
        tries += 1;
        bad(p)
    };
    loop {
        let before = serde_json::to_string(&best).unwrap().len();
        // clients
        let mut c = 0;
        while best.clients.len() > 1 && c < best.clients.len() {
            let mut p = best.clone();
            p.clients.remove(c);
            p.faults.retain(|f| f.client as usize != c);
            for f in p.faults.iter_mut() {
                if f.client as usize > c {
                    f.client -= 1;
                }
            }
            p.preempt.retain(|f| f.0 as usize != c);
            for f in p.preempt.iter_mut() {
                if f.0 as usize > c {
                    f.0 -= 1;
                }
            }
            if ok(&p) {
                best = p;
            } else {
                c += 1;
            }
        }
        // faults
        let mut i = 0;
        while i < best.faults.len() {
            let mut p = best.clone();
            p.faults.remove(i);
            if ok(&p) {
                best = p;
            } else {
                i += 1;
            }
        }
        // steps, in shrinking chunks
        for c in 0..best.clients.len() {
            let mut n = best.clients[c].len().max(1);
            while n >= 1 {
                let mut i = 0;
                while i < best.clients[c].len() {
                    let mut p = best.clone();
                    let e = (i + n).min(p.clients[c].len());
                    p.clients[c].drain(i..e);
                    if ok(&p) {
                        best = p;
                    } else {
                        i += n;
                    }
                }
                n /= 2;
            }
        }
        let mut i = 0;
        while i < best.files.len() {
            let mut p = best.clone();
            p.files.remove(i);
            if ok(&p) {
                best = p;
                continue;
            }
            if let Src::Foreign { features, .. } = &best.files[i].src {
                let mut k = 0;
                let mut n = features.len();
                while k < n {
                    let mut p = best.clone();
                    if let Src::Foreign { features, .. } = &mut p.files[i].src {
                        features.remove(k);
                    }
                    if ok(&p) {
                        best = p;
                        n -= 1;
                    } else {
                        k += 1;
                    }
                }
            }
            i += 1;
        }
        // single cells
        for c in 0..best.clients.len() {
            for s in 0..best.clients[c].len() {
                let n = match &best.clients[c][s] {
                    Step::Cells { cells, .. } | Step::RefCells { cells, .. } => cells.len(),
                    _ => 0,
                };
                let mut k = 0;
                let mut n = n;
                while n > 1 && k < n {
                    let mut p = best.clone();
                    match &mut p.clients[c][s] {
                        Step::Cells { cells, .. } | Step::RefCells { cells, .. } => {
                            cells.remove(k);
                        }
                        _ => {}
                    }
                    if ok(&p) {
                        best = p;
                        n -= 1;
                    } else {
                        k += 1;
                    }
                }
            }
        }
        if !best.sched.is_empty() {
            let mut p = best.clone();
            p.sched.clear();
            if ok(&p) {
                best = p;
            } else {
                let mut n = best.sched.len() / 2;
                while n >= 1 {
                    let mut p = best.clone();
                    let l = p.sched.len().saturating_sub(n);
                    p.sched.truncate(l);
                    if ok(&p) {
                        best = p;
                    } else {
                        n /= 2;
                    }
                }
                for i in 0..best.sched.len() {
                    if best.sched[i] != 0 {
                        let mut p = best.clone();
                        p.sched[i] = 0;
                        if ok(&p) {
                            best = p;
                        }
                    }
                }
            }
        }
        let mut n = best.preempt.len();
        while n >= 1 {
            let mut i = 0;
            while i < best.preempt.len() {
                let mut p = best.clone();
                let e = (i + n).min(p.preempt.len());
                p.preempt.drain(i..e);
                if ok(&p) {
                    best = p;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        if best.capacity.is_some() {
            let mut p = best.clone();
            p.capacity = None;
            if ok(&p) {
                best = p;
            }
        }
        if serde_json::to_string(&best).unwrap().len() >= before || t0.elapsed() > budget {
            break;
        }
    }
    (best, tries)
}
