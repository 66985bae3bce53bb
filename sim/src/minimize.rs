//! Shorten a failing plan while it keeps failing in the same way.
use crate::exec::{run_plan, Outcome, Viol};
use crate::plan::*;
use std::time::{Duration, Instant};

fn same(o: &Outcome, v: &Viol, id: &str) -> Option<Viol> { o.viols.iter().find(|x| x.class == v.class && x.props.iter().any(|p| p == id)).cloned() }

pub fn minimize(plan: &Plan, v: &Viol, id: &str, secs: u64) -> (Plan, Viol) {
    let end = Instant::now() + Duration::from_secs(secs);
    let mut best = plan.clone();
    let mut bv = v.clone();
    // Everything after the failing step is irrelevant.
    let mut try_ = |p: Plan, best: &mut Plan, bv: &mut Viol| -> bool {
        let o = run_plan(&p, false);
        if let Some(x) = same(&o, v, id) { *best = p; *bv = x; true } else { false }
    };
    if let Some(k) = best.steps.iter().position(|s| s.uid == v.uid) {
        let mut p = best.clone();
        p.steps.truncate(k + 1);
        try_(p, &mut best, &mut bv);
    }
    if !best.nested.is_empty() { let mut p = best.clone(); p.nested.clear(); try_(p, &mut best, &mut bv); }
    loop {
        let before = best.steps.len();
        let mut size = (best.steps.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.steps.len() {
                if Instant::now() > end { return (best, bv); }
                let mut p = best.clone();
                let e = (i + size).min(p.steps.len());
                p.steps.drain(i..e);
                if !try_(p, &mut best, &mut bv) { i += size; }
            }
            if size == 1 { break; }
            size /= 2;
        }
        if best.steps.len() == before { break; }
    }
    // Smaller arguments.
    for i in 0..best.steps.len() {
        let mut go = true;
        while go {
            go = false;
            let n = match &best.steps[i].op {
                Op::BulkAdd { items, .. } => items.len(),
                Op::Change { sel, .. } | Op::Remove { sel, .. } | Op::Tuplize { sel } | Op::Paste { sel, .. } | Op::Corrupt { sel, .. } => sel.picks.len(),
                Op::Undo { n } | Op::Redo { n } => *n as usize,
                Op::Query { vals } => vals.len(),
                _ => 0,
            };
            for k in (0..n).rev() {
                if Instant::now() > end { return (best, bv); }
                let mut p = best.clone();
                match &mut p.steps[i].op {
                    Op::BulkAdd { items, .. } => {
                        let mut k = k;
                        macro_rules! cut { ($f:ident) => { if k < items.$f.len() { items.$f.remove(k); k = usize::MAX; } else if k != usize::MAX { k -= items.$f.len(); } }; }
                        cut!(notes); cut!(bars); cut!(tempos); cut!(dumpers); cut!(softs);
                        let _ = k;
                    }
                    Op::Change { sel, .. } | Op::Remove { sel, .. } | Op::Tuplize { sel } | Op::Paste { sel, .. } | Op::Corrupt { sel, .. } => { if sel.picks.len() > 1 { sel.picks.remove(k); } else { continue; } }
                    Op::Undo { n } | Op::Redo { n } => { if *n > 1 { *n -= 1; } else { continue; } }
                    Op::Query { vals } => { vals.remove(k); }
                    _ => {}
                }
                if try_(p, &mut best, &mut bv) { go = true; break; }
            }
        }
    }
    (best, bv)
}
