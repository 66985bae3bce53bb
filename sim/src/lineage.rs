//! Tells apart a plain failure of one project from one project reaching into another: the history of a single project
//! is taken out of a run with several and run alone.
use crate::plan::*;

/// Failures that follow from the history of the project alone, whatever the schedule.
const CLASSES: [&str; 12] = ["edit result", "appended bars", "bars end early", "undo result", "redo result", "derived", "filed", "lookup", "position", "marks",
    "announced too much", "mirror"];

/// The operations that made the project in which the step `uid` failed what it is, as a plan for a single project.
/// None: this cannot be told (crashes reach every project; or the failure is of another kind).
pub fn alone(plan: &Plan, class: &str, uid: u64) -> Option<Plan> {
    if plan.insts < 2 || !CLASSES.contains(&class) { return None; }
    let end = plan.steps.iter().position(|s| s.uid == uid)?;
    let mut inst = plan.steps[end].inst;
    if plan.steps[..=end].iter().any(|s| matches!(s.op, Op::Crash { .. } | Op::ArmKill { .. } | Op::Fault { .. } | Op::Paste { .. } | Op::Corrupt { .. })) { return None; }
    let mut steps = vec![];
    for s in plan.steps[..=end].iter().rev() {
        match &s.op {
            Op::SaveAs { to } if *to == inst && s.inst != inst => {
                steps.push(Step { uid: s.uid, inst: 0, op: Op::Reopen { limit: None, walk: false } });
                inst = s.inst;
            }
            Op::SaveAs { .. } => {}
            _ if s.inst == inst => steps.push(Step { uid: s.uid, inst: 0, op: s.op.clone() }),
            _ => {}
        }
    }
    steps.reverse();
    Some(Plan { insts: 1, lazy: false, steps, ..plan.clone() })
}
