use crate::disk::Disk;
use crate::rng::{mix, Rng};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

/// Payload of the panics by which the simulator stops the editing (client) thread.
#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// The simulated process was killed (crash injection).
    Killed,
    /// No progress is possible or the step budget of an operation is exhausted.
    Hang(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class { Read, Write, Sync, Trunc, Delete, Open, Lock, Fs }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FaultCode { IoErr, Short, Full, Busy }

#[derive(Clone, Debug)]
pub struct Fault {
    pub class: Option<Class>,
    pub code: FaultCode,
    /// Number of matching disk operations still to be left alone.
    pub after: u32,
    /// Number of matching operations to fail from then on.
    pub span: u32,
    pub fired: u32,
}

#[derive(Clone, Debug)]
pub struct KillArm {
    /// Scheduling points of the chosen kind still to pass.
    pub after: u32,
    pub disk_only: bool,
    /// Whether a write in progress at that instant is cut at a sector boundary.
    pub tear: bool,
}

/// Where in the saver's multi-statement update sequence a task is; used to keep kills and faults out of the windows
/// in which the third-party undo store is known not to be crash safe (see DESIGN.md, known findings).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase { Normal, Creating, BranchDelete, TrimWindow }

#[derive(Clone, Debug, Default)]
pub struct SaverInfo {
    pub limit: i64,
    pub min_id: i64,
    pub max_id: i64,
    pub count: i64,
    pub snap: Option<i64>,
    pub stmt: &'static str,
    pub ended: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum St { Run, Blocked { chan: u64, deadline: Option<u64> }, IdleWait, Sleep(u64), Done }

struct Task { st: St, cv: Arc<Condvar>, phase: Phase, info: SaverInfo, join: Option<std::thread::JoinHandle<()>> }

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub disk_ops: u64,
    pub faults: BTreeMap<String, u64>,
    pub kills: BTreeMap<String, u64>,
    pub stalls: u64,
    pub sim_ns: u64,
    pub kill_stmts: BTreeMap<String, u64>,
}

pub struct Core {
    pub now: u64,
    cur: usize,
    tasks: Vec<Task>,
    pub srng: Rng,
    pub frng: Rng,
    pub leave_client: u64,
    pub leave_saver: u64,
    pub killed: bool,
    pub kill: Option<KillArm>,
    pub kill_torn: bool,
    pub faults: Vec<Fault>,
    pub lat_permille: u64,
    pub lat_max: u64,
    pub stall_next: u64,
    pub disk: Disk,
    pub stats: Stats,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    op_steps: u64,
    pub cmds_sent: u64,
    pub cmds_done: u64,
    pub cmds_written: u64,
    op_limit: u64,
    hang: Option<String>,
    pub client_blocks: u64,
    pub saver_panics: Vec<String>,
    pub failed_cmds: u64,
    pub unsafe_windows: bool,
    pub seed: u64,
    pub disc_recv: u32,
    next_chan: u64,
    pub vfs_rand: Rng,
}

static CORE: Mutex<Option<Core>> = Mutex::new(None);
thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }

pub fn tid() -> usize { TID.with(|t| t.get()) }

pub struct Guard(MutexGuard<'static, Option<Core>>);
impl std::ops::Deref for Guard { type Target = Core; fn deref(&self) -> &Core { self.0.as_ref().expect("no simulation") } }
impl std::ops::DerefMut for Guard { fn deref_mut(&mut self) -> &mut Core { self.0.as_mut().expect("no simulation") } }

pub fn core() -> Guard { Guard(CORE.lock().unwrap_or_else(|e| e.into_inner())) }

impl Core {
    fn new(seed: u64, log: bool) -> Self {
        Core {
            now: 0, cur: 0,
            tasks: vec![Task { st: St::Run, cv: Arc::new(Condvar::new()), phase: Phase::Normal, info: SaverInfo::default(), join: None }],
            srng: Rng::new(mix(seed, 1)), frng: Rng::new(mix(seed, 2)),
            leave_client: 200, leave_saver: 100,
            killed: false, kill: None, kill_torn: false, faults: vec![],
            lat_permille: 0, lat_max: 0, stall_next: 0,
            disk: Disk::new(), stats: Stats::default(), trace: 0xcbf2_9ce4_8422_2325, log: if log { Some(vec![]) } else { None },
            op_steps: 0, cmds_sent: 0, cmds_done: 0, cmds_written: 0, op_limit: u64::MAX, hang: None, client_blocks: 0, saver_panics: vec![], failed_cmds: 0,
            unsafe_windows: false, seed, disc_recv: 0, next_chan: 0, vfs_rand: Rng::new(mix(seed, 3)),
        }
    }

    pub fn note(&mut self, what: &str, detail: u64) {
        let t = tid() as u64;
        let mut h = self.trace;
        for b in what.bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
        h = (h ^ t).wrapping_mul(0x100_0000_01b3);
        h = (h ^ detail).wrapping_mul(0x100_0000_01b3);
        self.trace = h;
        let now = self.now;
        if let Some(l) = self.log.as_mut() {
            if l.len() < 200_000 { l.push(format!("t={}us task{} {} {}", now / 1000, t, what, detail)); }
        }
    }

    fn runnable(&self, me: usize) -> Vec<usize> {
        (0..self.tasks.len()).filter(|&i| i != me && (self.tasks[i].st == St::Run || matches!(self.tasks[i].st, St::Sleep(w) if w <= self.now))).collect()
    }

    /// Pick the next task when `me` cannot continue. Advances the clock if everybody sleeps.
    fn pick_blocked(&mut self, me: usize) -> usize {
        loop {
            let r = self.runnable(me);
            if !r.is_empty() {
                let i = if r.len() == 1 { r[0] } else { r[self.srng.below(r.len() as u64) as usize] };
                self.tasks[i].st = St::Run;
                return i;
            }
            if self.tasks[me].st == St::Run { return me; }
            // Nobody can run: jump to the next timer.
            let mut best: Option<u64> = None;
            for t in self.tasks.iter() {
                let w = match t.st { St::Sleep(w) => Some(w), St::Blocked { deadline, .. } => deadline, _ => None };
                if let Some(w) = w { best = Some(best.map_or(w, |b: u64| b.min(w))); }
            }
            match best {
                Some(w) => {
                    if self.now < w { self.now = w; }
                    for t in self.tasks.iter_mut() {
                        match t.st {
                            St::Sleep(x) if x <= w => t.st = St::Run,
                            St::Blocked { deadline: Some(x), .. } if x <= w => t.st = St::Run,
                            _ => {}
                        }
                    }
                    if self.tasks[me].st == St::Run { return me; }
                }
                None => {
                    if self.tasks[0].st == St::IdleWait { self.tasks[0].st = St::Run; return 0; }
                    // Deadlock: only possible if the client waits for something nobody will send.
                    if self.hang.is_none() { self.hang = Some("deadlock: nobody can make progress".into()); }
                    self.tasks[0].st = St::Run;
                    return 0;
                }
            }
        }
    }
}

fn check_client(g: Guard) {
    if tid() != 0 || std::thread::panicking() { return; }
    if g.killed { drop(g); std::panic::panic_any(Stop::Killed); }
    if let Some(h) = g.hang.clone() { drop(g); std::panic::panic_any(Stop::Hang(h)); }
}

/// Hand the token to `next` and wait until it comes back.
fn switch(mut g: Guard, next: usize) -> Guard {
    let me = tid();
    if next == me { g.cur = me; return g; }
    g.stats.switches += 1;
    g.cur = next;
    g.tasks[next].cv.notify_one();
    wait_turn(g, me)
}

fn wait_turn(g: Guard, me: usize) -> Guard {
    let cv = g.tasks[me].cv.clone();
    let mut inner = g.0;
    while inner.as_ref().map_or(false, |c| c.cur != me) {
        inner = cv.wait(inner).unwrap_or_else(|e| e.into_inner());
    }
    Guard(inner)
}

/// A scheduling point. `disk` tells whether it is a disk operation.
pub fn yield_point(what: &str, detail: u64, disk: bool) {
    let me = tid();
    let mut g = core();
    if g.killed && me != 0 { return; }
    g.note(what, detail);
    g.now += 1_000;
    g.stats.steps += 1;
    g.op_steps += 1;
    if g.op_steps > g.op_limit && g.hang.is_none() {
        g.hang = Some("step budget of the operation exhausted".into());
        if me != 0 {
            g.tasks[0].st = St::Run;
            let g = switch(g, 0);
            drop(g);
            return;
        }
    }
    if let Some(k) = g.kill.as_mut() {
        if !k.disk_only || disk {
            if k.after > 0 { k.after -= 1; }
            else {
                let tear = k.tear;
                let safe = g.unsafe_windows || g.tasks.iter().all(|t| t.phase == Phase::Normal || t.st == St::Done);
                if safe {
                    g.kill = None;
                    g.killed = true;
                    g.kill_torn = tear;
                    let stmt = g.tasks.iter().skip(1).rev().find(|t| t.st != St::Done).map(|t| t.info.stmt).unwrap_or("none");
                    let key = format!("{}:{}", if me == 0 { "editor" } else { "saver" }, stmt);
                    *g.stats.kill_stmts.entry(key).or_default() += 1;
                    g.note("KILL", 0);
                    if me != 0 {
                        g.tasks[0].st = St::Run;
                        let g = switch(g, 0);
                        drop(g);
                        return;
                    }
                }
            }
        }
    }
    if me == 0 && (g.killed || g.hang.is_some()) { check_client(g); return; }
    let leave = if me == 0 { g.leave_client } else { g.leave_saver };
    let r = g.runnable(me);
    if !r.is_empty() && g.srng.chance(leave, 1000) {
        let i = if r.len() == 1 { r[0] } else { r[g.srng.below(r.len() as u64) as usize] };
        g.tasks[i].st = St::Run;
        let g = switch(g, i);
        check_client(g);
    }
}

/// Block the current task on a channel. Returns when woken (or the deadline passed, or the process was killed).
pub(crate) fn block_on(chan: u64, deadline: Option<u64>) {
    let me = tid();
    let mut g = core();
    if g.killed { check_client(g); return; }
    if me == 0 { g.client_blocks += 1; }
    g.note("block", 0);
    g.tasks[me].st = St::Blocked { chan, deadline };
    let n = g.pick_blocked(me);
    let mut g = switch(g, n);
    g.tasks[me].st = St::Run;
    check_client(g);
}

pub(crate) fn wake_chan(chan: u64) {
    let mut g = core();
    for t in g.tasks.iter_mut() {
        if let St::Blocked { chan: c, .. } = t.st { if c == chan { t.st = St::Run; } }
    }
}

pub(crate) fn new_chan() -> u64 { let mut g = core(); g.next_chan += 1; g.next_chan }

pub fn sleep_ns(ns: u64) {
    let me = tid();
    let mut g = core();
    if g.killed { check_client(g); return; }
    if me == 0 { g.client_blocks += 1; }
    g.note("sleep", ns);
    let until = g.now + ns;
    g.tasks[me].st = St::Sleep(until);
    let n = g.pick_blocked(me);
    let mut g = switch(g, n);
    g.tasks[me].st = St::Run;
    check_client(g);
}

/// Ground truth: every saver has processed everything sent to it.
pub fn idle() -> bool {
    let g = core();
    g.tasks.iter().skip(1).all(|t| matches!(t.st, St::Done | St::Blocked { .. }))
}

/// Let everybody else run until they are idle.
pub fn settle() {
    assert_eq!(tid(), 0);
    let mut g = core();
    if g.killed { check_client(g); return; }
    g.note("settle", 0);
    g.tasks[0].st = St::IdleWait;
    let n = g.pick_blocked(0);
    let mut g = switch(g, n);
    g.tasks[0].st = St::Run;
    check_client(g);
}

pub(crate) fn spawn_task(f: Box<dyn FnOnce() + Send>) {
    let mut g = core();
    let id = g.tasks.len();
    g.tasks.push(Task { st: St::Run, cv: Arc::new(Condvar::new()), phase: Phase::Normal, info: SaverInfo { stmt: "new", ..SaverInfo::default() }, join: None });
    drop(g);
    let h = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        TID.with(|t| t.set(id));
        let g = core();
        let g = wait_turn(g, id);
        drop(g);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let mut g = core();
        if let Err(e) = r {
            if !g.killed { let m = panic_text(&e); g.saver_panics.push(m); }
        }
        g.note("exit", 0);
        g.tasks[id].st = St::Done;
        g.tasks[id].phase = Phase::Normal;
        let n = g.pick_blocked(id);
        g.cur = n;
        g.tasks[n].cv.notify_one();
    }).expect("spawn");
    core().tasks[id].join = Some(h);
    yield_point("spawn", id as u64, false);
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
    else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
    else if let Some(s) = e.downcast_ref::<Stop>() { format!("{:?}", s) }
    else { "?".into() }
}

// ---- harness interface (client thread only) ----

/// Start a fresh simulation.
pub fn start(seed: u64, log: bool) {
    crate::vfs::register();
    TID.with(|t| t.set(0));
    let mut c = CORE.lock().unwrap_or_else(|e| e.into_inner());
    *c = Some(Core::new(seed, log));
    drop(c);
    crate::vfs::reset_randomness();
}

/// Begin a workload operation: reseed every decision stream so that an operation's decisions depend only on the
/// operation itself (this keeps minimised schedules stable).
pub fn op_begin(uid: u64, limit: u64) {
    let mut g = core();
    let s = mix(g.seed, uid.wrapping_add(0x51));
    g.srng = Rng::new(mix(s, 1));
    g.frng = Rng::new(mix(s, 2));
    g.op_steps = 0;
    g.op_limit = limit;
    g.disc_recv = 0;
    g.note("op", uid);
}

/// Kill the process right now (between two operations of the client).
pub fn kill_now(tear: bool) { let mut g = core(); g.kill = None; g.killed = true; g.kill_torn = tear; g.note("KILL", 1); }

/// Run all remaining threads of a killed (or finished) process to their end; none of their disk effects survive.
/// Returns false if some thread could not be ended.
pub fn reap() -> bool {
    let mut g = core();
    g.killed = true;
    for i in 1..g.tasks.len() {
        if g.tasks[i].st == St::Done { continue; }
        g.tasks[i].st = St::Run;
        g.tasks[0].st = St::Blocked { chan: 0, deadline: None };
        g.hang = None;
        // the ending task hands back to the client through the deadlock branch
        g.hang = Some("reap".into());
        g = switch(g, i);
        g.tasks[0].st = St::Run;
    }
    g.hang = None;
    let joins: Vec<_> = g.tasks.iter_mut().filter_map(|t| t.join.take()).collect();
    let all = g.tasks.iter().skip(1).all(|t| t.st == St::Done);
    drop(g);
    if all { for j in joins { let _ = j.join(); } }
    all
}

/// A new process starts on the surviving disk.
pub fn restart() {
    let mut g = core();
    g.killed = false;
    g.kill = None;
    g.hang = None;
    g.disc_recv = 0;
    g.cmds_sent = 0;
    g.cmds_done = 0;
    g.cmds_written = 0;
    g.tasks.truncate(1);
    g.tasks[0].st = St::Run;
    g.cur = 0;
    g.disk.new_process();
    g.note("RESTART", 0);
    drop(g);
    crate::vfs::reset_randomness();
}

pub fn finish() -> Core {
    let mut c = CORE.lock().unwrap_or_else(|e| e.into_inner());
    let mut core = c.take().expect("no simulation");
    core.stats.sim_ns = core.now;
    core
}

pub fn is_killed() -> bool { core().killed }

/// Called when the client sees the saver's channel closed inside a loop that would retry forever.
pub fn client_retry() {
    if tid() != 0 { return; }
    let mut g = core();
    g.disc_recv += 1;
    if g.disc_recv > 20 && !std::thread::panicking() {
        drop(g);
        std::panic::panic_any(Stop::Hang("the editor retries forever: the saver is gone".into()));
    }
}

// ---- saver phase reporting (called from the instrumented undo store) ----
pub fn phase(p: Phase) { let me = tid(); let mut g = core(); g.tasks[me].phase = p; }
pub fn cur_phase() -> Phase { let g = core(); g.tasks[tid()].phase }
pub fn stmt(s: &'static str) { let me = tid(); let mut g = core(); g.tasks[me].info.stmt = s; }
pub fn saver_info<R>(f: impl FnOnce(&mut SaverInfo) -> R) -> R { let me = tid(); let mut g = core(); f(&mut g.tasks[me].info) }
/// An edit was handed to the saver / the saver answered for it.
pub fn cmd_sent() { core().cmds_sent += 1; }
/// The saver has written (or failed to write) a command, but not yet answered.
pub fn cmd_written() { core().cmds_written += 1; }
pub fn all_written() -> bool { let g = core(); g.cmds_sent == g.cmds_written }
pub fn cmd_done() { core().cmds_done += 1; }
/// Ground truth: the savers have answered for every edit handed to them.
pub fn all_done() -> bool { let g = core(); g.cmds_sent == g.cmds_done }
pub fn op_steps() -> u64 { core().op_steps }
pub fn cmd_failed() { core().failed_cmds += 1; }
pub fn log_line(_s: String) {}

impl Core {
    /// True while the calling saver is inside a statement sequence whose interruption by an error is a known defect of
    /// the undo store.
    pub(crate) fn fault_shielded(&self) -> bool { self.tasks[tid()].phase == Phase::BranchDelete }
}
