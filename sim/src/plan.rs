//! Workload plans: what one simulated run does. A plan and its seed determine the run completely.
use crate::model::Items;
use crate::raw::*;
use serde::{Deserialize, Serialize};

/// Selection and drag marks of an edit.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Meta { pub select: Option<bool>, pub dragged: bool }

/// Chooses existing items when the operation is executed, so that a shortened plan still makes sense.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sel {
    /// 1 notes, 2 bars, 4 tempos, 8 dumpers, 16 softs
    pub kinds: u8,
    pub picks: Vec<u32>,
    #[serde(default)]
    pub all: bool,
    /// Restrict to neighbours: picks index into a window of this many items.
    #[serde(default)]
    pub window: u32,
    /// Everything that stands on the ticks of the chosen ones is chosen too.
    #[serde(default)]
    pub same: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Mut {
    /// As dragging does (library helper).
    Drag { dt: i32, ds: i32 },
    /// As typing a tick offset does (library helper).
    AddTick { dt: i32, trim: bool },
    /// Exchange positions among the chosen items (rotation).
    Rotate { by: u32 },
    /// Everything on one tick.
    Gather,
    /// Each to a tick where the project has something already.
    Land { v: u32 },
    /// One attribute changed.
    Attr { which: u8, v: u32 },
    Replace { n: RNote, fl: Option<[u32; 4]>, b: RBar, t: RTempo, c: RCtl },
    Nothing,
    /// A different alteration for each item (taken in turn).
    Each(Vec<Mut>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Mode { Kill, LoseAll, Prefix, Subset }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    AddNote { n: RNote, fl: Option<[u32; 4]>, sel: bool },
    AddBar { b: RBar, sel: bool },
    AddTempo { t: RTempo, sel: bool },
    AddDumper { c: RCtl, sel: bool },
    AddSoft { c: RCtl, sel: bool },
    BulkAdd { items: Items, meta: Meta },
    /// Place an item equal to one that is there, through the operation for single items or the bulk one.
    AddAgain { sel: Sel, bulk: bool, select: bool },
    Remove { sel: Sel, meta: Meta },
    Change { sel: Sel, how: Mut, meta: Meta },
    Tuplize { sel: Sel },
    SetRhythm { r: (u8, u8) },
    SetKey { k: i8 },
    SetGrid { g: u32 },
    Undo { n: u32 },
    Redo { n: u32 },
    /// The observer reads the notifications and clears them.
    Clear,
    Poll,
    WaitSaved,
    Settle,
    Sleep { us: u64 },
    Reopen { limit: Option<u32>, walk: bool },
    SaveAs { to: u8 },
    Crash { mode: Mode, tear: bool },
    ArmKill { after: u32, disk_only: bool, mode: Mode, tear: bool },
    Paste { from: u8, sel: Sel, tick: u32, meta: Meta, text: u8 },
    Corrupt { sel: Sel, kind: u8, a: u32, b: u32, text: u8 },
    Fault { class: u8, code: u8, after: u32, span: u32 },
    Stall { us: u64 },
    Lat { permille: u32, max_us: u64 },
    Sched { client: u32, saver: u32 },
    /// Extra position queries.
    Query { vals: Vec<u64> },
    /// Put a file written by the released version in the instance's place and open it.
    Fixture { idx: u32 },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step { pub uid: u64, #[serde(default)] pub inst: u8, pub op: Op }

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Plan {
    pub seed: u64,
    pub profile: String,
    pub insts: u8,
    pub limit: u32,
    /// Kill after the disk operation numbers of the reopening that follows a crash (nested crashes).
    #[serde(default)]
    pub nested: Vec<(u32, Mode)>,
    /// Do not keep crashes out of the windows in which the third-party undo store is known to be unsafe.
    #[serde(default)]
    pub open_windows: bool,
    /// Do not make allowance for the known weaknesses of the third-party undo store in this matter
    /// ("redo", "saved", "errors"); used by the known-finding probes only.
    #[serde(default)]
    pub strict: Vec<String>,
    /// Under disk errors several edits are made before saved() is called.
    #[serde(default)]
    pub lazy: bool,
    pub steps: Vec<Step>,
}
