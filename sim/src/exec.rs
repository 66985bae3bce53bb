//! Executes a plan against the real project store under the simulator and checks every property while it runs.
use crate::fixture;
use crate::mirror::{pending, Mirror};
use crate::model::*;
use crate::plan::*;
use crate::raw::*;
use klavier_core::location::Location;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::Note;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use serde::{Deserialize, Serialize};
use serdo::undo_store::{Options, UndoStore};
use simrt::disk::CrashMode;
use simrt::rng::Rng;
use simrt::{core, Class, Fault, FaultCode, KillArm, Stop};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol { pub props: Vec<String>, pub class: String, pub uid: u64, pub text: String }

#[derive(Default)]
pub struct Outcome {
    pub viols: Vec<Viol>,
    pub trace: u64,
    pub stats: simrt::Stats,
    pub cnt: BTreeMap<String, u64>,
    pub states: HashSet<u64>,
    pub log: Vec<String>,
    pub max_steps: u64,
}

type Line = Rc<Vec<Rc<Proj>>>;

/// One moment of a project's history: everything that could be undone to and redone to, and where it stood.
#[derive(Clone)]
struct Moment { line: Line, pos: usize, base: usize }
impl Moment { fn state(&self) -> &Rc<Proj> { &self.line[self.pos] } }

#[derive(Clone)]
enum Flight { None, Edit(Option<Meta>), Undo, Redo }

struct Inst {
    dir: String,
    store: Option<ProjectStore>,
    limit: usize,
    line: Line,
    metas: Vec<Option<Meta>>,
    /// The name of the edit behind each step, as far as known.
    names: Vec<&'static str>,
    pos: usize,
    base: usize,
    tl: Vec<Moment>,
    acked: usize,
    max_exact: bool,
    walked: bool,       // undo or redo happened since the project was opened
    tail_edit: bool,    // the last step since it was opened is an edit
    failed: bool,
    dead: bool,
    reopened: bool,
    trimmed: bool,
    copied: bool,
    fixture: bool,
    crashed: bool,
    /// Edited further after a reported error: a step may be missing in the file.
    gap: bool,
    /// It is being opened, or closed to be opened again.
    opening: bool,
    flight: Flight,
    mirror: Mirror,
}

impl Inst {
    fn new(dir: String, limit: usize) -> Self {
        let p = Rc::new(Proj::empty());
        let line: Line = Rc::new(vec![p]);
        Inst {
            dir, store: None, limit, tl: vec![Moment { line: line.clone(), pos: 0, base: 0 }], line, metas: vec![], names: vec![], pos: 0, base: 0, acked: 0,
            max_exact: true, walked: false, tail_edit: false, failed: false, dead: false, reopened: false, trimmed: false, copied: false,
            fixture: false, crashed: false, gap: false, opening: false, flight: Flight::None, mirror: Mirror::default(),
        }
    }
    fn cur(&self) -> Rc<Proj> { self.line[self.pos].clone() }
    fn mark(&mut self) { self.tl.push(Moment { line: self.line.clone(), pos: self.pos, base: self.base }); }
    fn path(&self) -> PathBuf { PathBuf::from(&self.dir) }
    fn set_history(&mut self, line: Vec<Rc<Proj>>, metas: Vec<Option<Meta>>, pos: usize, base: usize) {
        self.line = Rc::new(line);
        self.names = vec![""; metas.len()];
        self.metas = metas;
        self.pos = pos;
        self.base = base;
        self.tl.clear();
        self.mark();
        self.acked = 0;
    }
}

pub struct World {
    plan: Plan,
    insts: Vec<Inst>,
    out: Outcome,
    uid: u64,
    opname: &'static str,
    next_dir: u32,
    arm_mode: Mode,
    faults_seen: bool,
    /// Edits made under disk errors since the last saved().
    unasked: u32,
    qr: Rng,
    /// How often a project has been read.
    reads: u64,
}

pub fn rmeta(m: &ModelChangeMetadata) -> Meta { Meta { select: m.need_select, dragged: m.dragged } }
fn lmeta(m: Meta) -> ModelChangeMetadata {
    let mut x = ModelChangeMetadata::new();
    x.need_select = m.select;
    x.dragged = m.dragged;
    x
}
fn add_meta(sel: bool) -> Meta { Meta { select: if sel { Some(true) } else { None }, dragged: false } }

pub fn models_of(it: &Items) -> Models {
    Models {
        notes: it.notes.iter().map(|n| make_note(n, None)).collect(), bars: it.bars.iter().map(make_bar).collect(),
        tempos: it.tempos.iter().map(make_tempo).collect(), dumpers: it.dumpers.iter().map(make_ctl).collect(),
        softs: it.softs.iter().map(make_ctl).collect(),
    }
}
pub fn items_of(m: &Models) -> Items {
    Items {
        notes: m.notes.iter().map(note_of).collect(), bars: m.bars.iter().map(bar_of).collect(), tempos: m.tempos.iter().map(tempo_of).collect(),
        dumpers: m.dumpers.iter().map(ctl_of).collect(), softs: m.softs.iter().map(ctl_of).collect(),
    }
}

/// Whether a project stays within the representable range and a size worth simulating.
fn sane(p: &Proj) -> bool {
    let end = p.notes.iter().map(|n| n.0 as u64 + note_len(&n.1) as u64).max().unwrap_or(0);
    if end > u32::MAX as u64 - 400_000 && p.bars.last().map_or(true, |b| (b.0 as u64) < end) { return false; }
    if p.notes.iter().any(|n| n.1.base as i64 + tsum(&n.1.st) > u32::MAX as i64 || n.0 as u64 + note_len(&n.1) as u64 > u32::MAX as u64) { return false; }
    let last = p.bars.last().map_or(0, |b| b.0);
    let end = p.music_end();
    if end <= last { return true; }
    let step = measure_len(p.rhythm_at(last)) as u64;
    if step == 0 { return false; }
    let n = ((end - last) as u64 + step - 1) / step;
    n <= 4000 && last as u64 + n * step <= u32::MAX as u64
}

/// Whether two projects differ in nothing but bars as they are appended.
fn only_plain_bars(a: &Proj, b: &Proj) -> bool {
    let plain = |x: &&(u32, RBar)| x.1.rhythm.is_none() && x.1.key.is_none() && x.1.reps == 0;
    a.bars != b.bars && a.notes == b.notes && a.tempos == b.tempos && a.dumpers == b.dumpers && a.softs == b.softs
        && a.rhythm == b.rhythm && a.key == b.key && a.grid == b.grid
        && a.bars.iter().filter(|x| !b.bars.contains(x)).all(|x| plain(&x)) && b.bars.iter().filter(|x| !a.bars.contains(x)).all(|x| plain(&x))
}

fn overwritten_tick(it: &Items) -> bool {
    let dup = |v: Vec<u32>| { let mut s = v.clone(); s.sort(); s.dedup(); s.len() != v.len() };
    dup(it.bars.iter().map(|b| b.tick).collect()) || dup(it.tempos.iter().map(|b| b.tick).collect())
        || dup(it.dumpers.iter().map(|b| b.tick).collect()) || dup(it.softs.iter().map(|b| b.tick).collect())
}

fn crash_mode(m: Mode) -> CrashMode {
    match m { Mode::Kill => CrashMode::Kill, Mode::LoseAll => CrashMode::LoseAll, Mode::Prefix => CrashMode::Prefix, Mode::Subset => CrashMode::Subset }
}

thread_local! { static PANIC_AT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        PANIC_AT.with(|p| *p.borrow_mut() = l.clone());
        if std::env::var("KSIM_PANICS").is_ok() { eprintln!("panic at {l}: {m}"); }
    }));
}

/// Where a panic came from, without line numbers so that it can be compared between builds.
fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    let at = PANIC_AT.with(|p| p.borrow().clone());
    format!("{} (at {})", simrt::panic_text(e), at)
}

impl World {
    pub fn new(plan: &Plan) -> Self {
        let mut w = World {
            plan: plan.clone(), insts: vec![], out: Outcome::default(), uid: 0, opname: "start", next_dir: 0, arm_mode: Mode::Kill,
            faults_seen: false, unasked: 0, reads: 0, qr: Rng::new(simrt::rng::mix(plan.seed, 99)),
        };
        for _ in 0..plan.insts { let d = w.new_dir(); w.insts.push(Inst::new(d, plan.limit as usize)); }
        w
    }
    fn new_dir(&mut self) -> String { self.next_dir += 1; format!("/sim/p{}", self.next_dir) }

    fn count(&mut self, k: &str) { *self.out.cnt.entry(k.to_string()).or_default() += 1; }

    fn viol(&mut self, props: &[&str], class: &str, text: String) {
        if self.out.viols.len() >= 30 { return; }
        if self.out.viols.iter().any(|v| v.class == class && v.props.iter().map(|s| s.as_str()).eq(props.iter().copied())) { return; }
        self.out.viols.push(Viol { props: props.iter().map(|s| s.to_string()).collect(), class: class.into(), uid: self.uid, text });
    }

    fn strict(&self, what: &str) -> bool { self.plan.strict.iter().any(|s| s == what) }

    fn budget(&self) -> u64 { 60_000 }

    // ---- opening ----

    fn open(&mut self, i: usize) -> Result<(), String> {
        let (path, limit) = (self.insts[i].path(), self.insts[i].limit);
        self.insts[i].opening = true;
        let r = ProjectStore::open(path, Options::<ProjectImpl>::new().with_undo_limit(limit));
        self.insts[i].opening = false;
        match r {
            Ok(s) => {
                let n = &mut self.insts[i];
                n.store = Some(s);
                n.max_exact = true;
                n.walked = false;
                n.tail_edit = false;
                n.failed = false;
                n.flight = Flight::None;
                n.mirror = Mirror::default();
                Ok(())
            }
            Err(e) => Err(format!("{e:?}").lines().next().unwrap_or("").to_string()),
        }
    }

    fn store(&mut self, i: usize) -> &mut ProjectStore { self.insts[i].store.as_mut().expect("open project") }

    fn project(&mut self, i: usize) -> Proj {
        let s = self.insts[i].store.as_ref().expect("open project");
        self.reads += 1;
        let p = if self.reads % 2 == 0 { project(s.model()) } else { shown(s) };
        self.out.states.insert(p.hash());
        p
    }

    /// Compare what is derived from every note with what its attributes say.
    fn check_derived(&mut self, p: &Proj, props: &[&str], when: &str) {
        for (n, d) in p.notes.iter().zip(p.derived.iter()) {
            if derive(&n.1) != *d {
                self.viol(props, "derived", format!("{when}: note {:?} has [start, length, loudness, pitch, score position, sums] {:?}, expected {:?}", n.1, d, derive(&n.1)));
                return;
            }
            if n.0 != start_of(&n.1) {
                self.viol(props, "filed", format!("{when}: note {:?} is filed under tick {}, but starts at {}", n.1, n.0, start_of(&n.1)));
                return;
            }
        }
        let bad = p.bars.iter().any(|b| b.0 != b.1.tick) || p.tempos.iter().any(|b| b.0 != b.1.tick) || p.dumpers.iter().any(|b| b.0 != b.1.tick)
            || p.softs.iter().any(|b| b.0 != b.1.tick);
        if bad { self.viol(props, "filed", format!("{when}: an item is filed under another tick than its own")); }
    }

    fn check_avail(&mut self, i: usize) {
        let n = &self.insts[i];
        let Some(s) = n.store.as_ref() else { return };
        if n.failed { return; }
        let (cu, cr) = (s.can_undo(), s.can_redo());
        let (eu, er, exact) = (n.pos > n.base, n.pos + 1 < n.line.len(), n.max_exact || self.strict("redo"));
        let hist = n.reopened || n.trimmed;
        let (re, cp, fx) = (n.reopened, n.copied, n.fixture);
        if cu != eu {
            let mut p = vec!["C02"];
            if hist { p.push("C07"); }
            if cp { p.push("C14"); }
            if fx { p.push("C15"); }
            let t = format!("undo is {}offered although {} step(s) remain (limit {}, reopened: {re})", if cu { "" } else { "not " }, self.insts[i].pos - self.insts[i].base, self.insts[i].limit);
            self.viol(&p, "undo offered", t);
        }
        if exact && cr != er {
            let mut p = vec!["C03"];
            if hist { p.push("C07"); }
            if cp { p.push("C14"); }
            if fx { p.push("C15"); }
            let t = format!("redo is {}offered although {} undone step(s) remain (reopened: {re})", if cr { "" } else { "not " }, self.insts[i].line.len() - 1 - self.insts[i].pos);
            self.viol(&p, "redo offered", t);
        }
    }

    /// Read the notifications that arrived since the last reading.
    fn observe(&mut self, i: usize, what: &str, placed: Option<(&Items, Meta, &[RBar])>, back: Option<(Meta, &Proj)>) {
        let n = &mut self.insts[i];
        let Some(s) = n.store.as_ref() else { return };
        let ann = match catch_unwind(AssertUnwindSafe(|| n.mirror.read(s))) {
            Ok(a) => a,
            Err(e) => {
                if e.downcast_ref::<Stop>().is_some() { std::panic::resume_unwind(e); }
                self.viol(&["C08"], "reading", format!("after {what}: reading the notifications crashes: {}", panic_text(&e)));
                return;
            }
        };
        let bad = n.mirror.compare(&project(s.model()));
        self.count("observations");
        if let Some(t) = bad { self.viol(&["C08"], "mirror", format!("after {what}: an observer of the notifications would be wrong: {t}")); }
        if let Some((items, meta, fill)) = placed {
            if let Some(t) = ann.check_placed(items, meta, fill) { self.viol(&["C08"], "marks", format!("{what}: {t}")); }
            else if let Some(t) = ann.check_only(items, fill) { self.viol(&["C08"], "announced too much", format!("{what}: {t}")); }
        }
        if let Some((meta, before)) = back {
            if let Some(t) = ann.check_back(before, meta) { self.viol(&["C08"], "marks back", format!("{what}: {t}")); }
        }
    }

    // ---- edits ----

    /// Run one edit on instance `i` and check its outcome. `removed`/`added` describe it; `fill` tells whether bars are
    /// appended after it.
    fn edit(&mut self, i: usize, name: &'static str, expected: Proj, placed: Option<(Items, Meta)>, fill: Vec<RBar>, props: &[&'static str],
            f: impl FnOnce(&mut ProjectStore)) {
        let before = self.insts[i].cur();
        let meta = placed.as_ref().map(|p| p.1);
        self.insts[i].flight = Flight::Edit(meta);
        let blocks = core().client_blocks;
        {
            let s = self.store(i);
            f(s);
        }
        let blocked = core().client_blocks - blocks;
        self.insts[i].flight = Flight::None;
        self.count(name);
        self.count("edits");
        if !fill.is_empty() { self.count("edits with appended bars"); }
        if blocked > 0 { self.viol(&["C16"], "edit waits", format!("{name} waited {blocked} time(s) for the saver before returning")); }
        let got = self.project(i);
        if !expected.same_content(&got) {
            let only_bars = expected.notes == got.notes && expected.tempos == got.tempos && expected.dumpers == got.dumpers && expected.softs == got.softs
                && expected.rhythm == got.rhythm && expected.key == got.key && expected.grid == got.grid;
            let plain = |b: &(u32, RBar)| b.1.rhythm.is_none() && b.1.key.is_none() && b.1.reps == 0;
            let last_named = expected.bars.iter().filter(|b| !fill.iter().any(|x| x.tick == b.0)).map(|b| b.0).max();
            let beyond = |b: &(u32, RBar)| last_named.map_or(true, |l| b.0 > l);
            let is_fill = only_bars
                && got.bars.iter().filter(|b| !expected.bars.contains(b)).all(|b| beyond(b))
                && expected.bars.iter().filter(|b| !got.bars.contains(b)).all(|b| plain(b) && beyond(b));
            let t = format!("{name} on {} item(s): {}", before.items(), diff(&expected, &got));
            if is_fill { self.viol(&["C09"], "appended bars", t); } else {
                let p = self.edit_props(i, props);
                self.viol(&p, "edit result", t);
            }
        }
        if name != "bulk_remove" && name != "add_bar" && !name.starts_with("set_") && got.music_end() > got.bars.last().map_or(0, |b| b.0) {
            self.viol(&["C09"], "bars end early", format!("after {name} the music ends at {} but the last bar is at {:?}", got.music_end(), got.bars.last().map(|b| b.0)));
        }
        let p = self.edit_props(i, props);
        self.check_derived(&got, &p, name);
        // history
        let n = &mut self.insts[i];
        n.gap |= n.failed;
        let mut line: Vec<Rc<Proj>> = n.line[..=n.pos].to_vec();
        n.metas.truncate(n.pos);
        n.names.truncate(n.pos);
        n.names.push(name);
        let branch = n.line.len() > n.pos + 1;
        line.push(Rc::new(got));
        n.metas.push(meta);
        n.line = Rc::new(line);
        n.pos += 1;
        let nb = n.base.max(n.pos.saturating_sub(n.limit));
        if nb != n.base { n.trimmed = true; }
        n.base = nb;
        n.max_exact = false;
        n.tail_edit = true;
        n.mark();
        if branch { self.count("edits after undo"); }
        let pl = placed.as_ref().map(|(it, m)| (it, *m, fill.as_slice()));
        self.observe(i, name, pl, None);
        self.check_avail(i);
        self.after_history(i);
    }

    /// Under injected disk errors: find out at once what became of the step.
    fn after_history(&mut self, i: usize) {
        if !self.faults_seen { return; }
        // In some runs several edits are made before anybody asks whether they were saved.
        if self.lazy() { self.unasked += 1; return; }
        simrt::settle();
        self.poll(i);
    }

    fn lazy(&self) -> bool { self.plan.lazy }

    fn catch_up(&mut self, i: usize) {
        if self.unasked == 0 { return; }
        simrt::settle();
        self.poll(i);
    }

    fn plan_edit(&mut self, i: usize, removed: &Items, added: &Items, fill: bool) -> Option<(Proj, Vec<RBar>)> {
        let mut e = (*self.insts[i].cur()).clone();
        e.apply(removed, added);
        if !sane(&e) { self.count("skipped (out of range)"); return None; }
        let bars = if fill { e.missing_bars() } else { vec![] };
        for b in &bars { e.bars.push((b.tick, *b)); }
        Some((e, bars))
    }

    /// Choose items of the current project.
    fn choose(&mut self, i: usize, sel: &Sel) -> Items {
        let p = self.insts[i].cur();
        let all = p.all_items();
        let (nn, nb, nt, nd, ns) = (all.notes.len(), all.bars.len(), all.tempos.len(), all.dumpers.len(), all.softs.len());
        let mut pool: Vec<(u8, usize, u32)> = vec![];
        if sel.kinds & 1 != 0 { pool.extend((0..nn).map(|x| (0, x, p.notes[x].0))); }
        if sel.kinds & 2 != 0 { pool.extend((0..nb).map(|x| (1, x, p.bars[x].0))); }
        if sel.kinds & 4 != 0 { pool.extend((0..nt).map(|x| (2, x, p.tempos[x].0))); }
        if sel.kinds & 8 != 0 { pool.extend((0..nd).map(|x| (3, x, p.dumpers[x].0))); }
        if sel.kinds & 16 != 0 { pool.extend((0..ns).map(|x| (4, x, p.softs[x].0))); }
        let mut it = Items::default();
        if pool.is_empty() { return it; }
        let mut chosen: Vec<usize> = vec![];
        if sel.all { chosen = (0..pool.len()).collect(); }
        else {
            let (mut lo, mut n) = (0, pool.len());
            if sel.window > 0 && (sel.window as usize) < pool.len() {
                pool.sort_by_key(|x| (x.2, x.0, x.1));
                n = sel.window as usize;
                lo = sel.picks[0] as usize % (pool.len() - n + 1);
            }
            for k in &sel.picks {
                let x = lo + (*k >> 3) as usize % n;
                if !chosen.contains(&x) { chosen.push(x); }
            }
        }
        if sel.same {
            let ticks: std::collections::BTreeSet<u32> = chosen.iter().map(|c| pool[*c].2).collect();
            for x in 0..pool.len() { if ticks.contains(&pool[x].2) && !chosen.contains(&x) { chosen.push(x); } }
        }
        for c in chosen {
            let (k, x, _) = pool[c];
            match k { 0 => it.notes.push(all.notes[x]), 1 => it.bars.push(all.bars[x]), 2 => it.tempos.push(all.tempos[x]), 3 => it.dumpers.push(all.dumpers[x]), _ => it.softs.push(all.softs[x]) }
        }
        it
    }

    /// The library's own items that `it` describes, taken from the project (as an editor does).
    fn real_notes(&self, i: usize, notes: &[RNote]) -> Vec<Rc<Note>> {
        let repo = self.insts[i].store.as_ref().expect("open").model().note_repo();
        let mut used: Vec<*const Note> = vec![];
        notes.iter().map(|r| {
            let found = repo.iter().find(|(_, n)| note_of(n) == *r && !used.contains(&Rc::as_ptr(n))).map(|(_, n)| n.clone());
            match found { Some(n) => { used.push(Rc::as_ptr(&n)); n } None => Rc::new(make_note(r, None)) }
        }).collect()
    }

    fn add_one(&mut self, i: usize, name: &'static str, added: Items, meta: Meta, fill: bool, f: impl FnOnce(&mut ProjectStore)) {
        let Some((e, bars)) = self.plan_edit(i, &Items::default(), &added, fill) else { return };
        self.edit(i, name, e, Some((added, meta)), bars, &["C01"], f);
    }

    fn bulk_add(&mut self, i: usize, name: &'static str, models: Models, meta: Meta, props: &[&'static str]) {
        let added = items_of(&models);
        let Some((e, bars)) = self.plan_edit(i, &Items::default(), &added, true) else { return };
        if overwritten_tick(&added) { self.count("edits placing two items on one tick"); }
        self.edit(i, name, e, Some((added, meta)), bars, props, |s| s.bulk_add(models, lmeta(meta)));
    }

    fn change(&mut self, i: usize, sel: &Sel, how: &Mut, meta: Meta) {
        let from = self.choose(i, sel);
        if from.len() == 0 { return; }
        let real = self.real_notes(i, &from.notes);
        let mut ch = ModelChanges::empty();
        let ok = |t: i64| (0..=u32::MAX as i64).contains(&t);
        let ticks = |v: Vec<u32>, by: u32| -> Vec<u32> { let n = v.len(); (0..n).map(|x| v[(x + by as usize) % n]).collect() };
        let mut wrong: Option<String> = None;
        // Which alteration an item gets: `which` is its kind, `x` its place among those of its kind.
        let how_of = |which: usize, x: usize| -> &Mut { match how { Mut::Each(v) if !v.is_empty() => &v[(which + x) % v.len()], o => o } };
        let spots: Vec<u32> = if let Mut::Land { .. } = how {
            let p = self.insts[i].cur();
            p.notes.iter().map(|x| x.1.base).chain(p.bars.iter().map(|x| x.0)).chain(p.tempos.iter().map(|x| x.0))
                .chain(p.dumpers.iter().map(|x| x.0)).chain(p.softs.iter().map(|x| x.0)).collect::<std::collections::BTreeSet<u32>>().into_iter().collect()
        } else { vec![] };
        let mut seq = 0u64;
        let mut rot = |v: Vec<u32>, own: Vec<u32>| -> Vec<u32> {
            match how {
                Mut::Rotate { by } if !v.is_empty() => ticks(v, *by),
                Mut::Gather if !v.is_empty() => vec![v[0]; v.len()],
                Mut::Land { v: x } if !v.is_empty() => v.iter().map(|t| {
                    // Often on another item of the same kind; some stay where they are.
                    seq += 1;
                    let k = simrt::rng::mix(*x as u64, seq);
                    let spots = if k >> 32 & 1 == 0 && !own.is_empty() { &own } else { &spots };
                    if k >> 33 & 7 == 0 { *t } else { spots[(k as u32 as usize) % spots.len()] }
                }).collect(),
                _ => v,
            }
        };
        let now = self.insts[i].cur();
        let nb = rot(from.notes.iter().map(|n| n.base).collect(), vec![]);
        for (x, n) in real.iter().enumerate() {
            let r = note_of(n);
            let mut exp: Option<RNote> = None;
            let how = how_of(0, x);
            let to: Option<Note> = match how {
                Mut::Drag { dt, ds } => {
                    let so = score_of(&r) + *ds as i64;
                    let (so7, oc) = (so.rem_euclid(7) as u8, (so.div_euclid(7) - 2) as i8);
                    if !ok(r.base as i64 + *dt as i64) || !(0..=74).contains(&so) || !pitch_ok(so7, oc, r.sf) { None } else {
                        exp = Some(RNote { base: (r.base as i64 + *dt as i64) as u32, solfa: so7, octave: oc, ..r });
                        Some(n.drag(*dt, *ds))
                    }
                }
                Mut::AddTick { dt, trim } => {
                    let t = r.base as i64 + *dt as i64;
                    if t > u32::MAX as i64 { None } else {
                        match n.with_tick_added(*dt, *trim) {
                            Err(_) => { if t >= 0 { wrong = Some(format!("moving {r:?} by {dt} is refused")); } None }
                            Ok(v) => {
                                if t < 0 { wrong = Some(format!("moving {r:?} by {dt} is not refused")); None } else {
                                    if !*trim { exp = Some(RNote { base: t as u32, ..r }); }
                                    else {
                                        // Spread over the four parts, the first taking as much as it can.
                                        let (mut st, mut left) = (r.st, *dt as i64);
                                        for v in st.iter_mut() {
                                            let x = (*v as i64 + left).clamp(i16::MIN as i64, i16::MAX as i64);
                                            left -= x - *v as i64;
                                            *v = x as i16;
                                        }
                                        if left == 0 { exp = Some(RNote { st, ..r }); }
                                    }
                                    Some(v)
                                }
                            }
                        }
                    }
                }
                Mut::Rotate { .. } | Mut::Gather | Mut::Land { .. } => { let mut v = (**n).clone(); v.base_start_tick = nb[x]; Some(v) }
                Mut::Attr { which, v } => {
                        let t = attr_note(n, *which, *v);
                        if let Some(t) = &t { if let Some(w) = attr_wrong(&r, &note_of(t), *which, *v) { wrong = Some(w); } }
                        if (t.is_none() && *which == 1) != (*which == 1 && r.dots >= 7) || (t.is_none() && *which == 2) != (*which == 2 && r.dots == 0) {
                            wrong = Some(format!("adding or removing a dot is {} at {r:?}", if t.is_none() { "refused" } else { "not refused" }));
                        }
                        t
                    }
                Mut::Replace { n: spec, fl, .. } => Some(make_note(spec, *fl)),
                Mut::Nothing | Mut::Each(_) => Some((**n).clone()),
            };
            if let Some(t) = to {
                if let Some(e) = exp { if e != note_of(&t) { wrong = Some(format!("{how:?} turns {r:?} into {:?}", note_of(&t))); } }
                ch.notes.push(((**n).clone(), t));
            }
        }
        let bt = rot(from.bars.iter().map(|n| n.tick).collect(), now.bars.iter().map(|x| x.0).collect());
        for (x, r) in from.bars.iter().enumerate() {
            let b = make_bar(r);
            let how = how_of(1, x);
            let to = match how {
                Mut::Drag { dt, .. } => if ok(r.tick as i64 + *dt as i64) { Some((b.drag(*dt), Some(RBar { tick: (r.tick as i64 + *dt as i64) as u32, ..*r }))) } else { None },
                Mut::AddTick { dt, .. } => if r.tick as i64 + *dt as i64 > u32::MAX as i64 { None } else {
                    let t = r.tick as i64 + *dt as i64;
                    match b.with_tick_added(*dt) {
                        Ok(v) if t >= 0 => Some((v, Some(RBar { tick: t as u32, ..*r }))),
                        Err(_) if t < 0 => None,
                        _ => { wrong = Some(format!("moving {r:?} by {dt}")); None }
                    }
                },
                Mut::Rotate { .. } | Mut::Gather | Mut::Land { .. } => { let mut v = b; v.start_tick = bt[x]; Some((v, None)) }
                Mut::Attr { which, v } => {
                    let mut q = *r;
                    match which % 3 {
                        0 => q.rhythm = if v % 4 == 0 { None } else { Some(([3, 4, 6, 7][(v / 4) as usize % 4], [4, 8, 2, 16][(v / 16) as usize % 4])) },
                        1 => q.key = if v % 4 == 0 { None } else { Some((v % 15) as i8 - 7) },
                        _ => q.reps = [0, 1, 2, 4, 8, 16, 32, 64, 128][(v % 9) as usize],
                    }
                    Some((make_bar(&q), None))
                }
                Mut::Replace { b, .. } => Some((make_bar(b), None)),
                Mut::Nothing | Mut::Each(_) => Some((b, None)),
            };
            if let Some((t, e)) = to {
                if let Some(e) = e { if e != bar_of(&t) { wrong = Some(format!("{how:?} turns {r:?} into {:?}", bar_of(&t))); } }
                ch.bars.push((b, t));
            }
        }
        let tt = rot(from.tempos.iter().map(|n| n.tick).collect(), now.tempos.iter().map(|x| x.0).collect());
        for (x, r) in from.tempos.iter().enumerate() {
            let b = make_tempo(r);
            let how = how_of(2, x);
            let to = match how {
                Mut::Drag { dt, ds } => {
                    // Beyond either end the tempo stays at that end.
                    let ds = if *ds % 3 == 0 { *ds * 60 } else { *ds };
                    let v = (r.v as i32 + ds).clamp(1, 999);
                    if ok(r.tick as i64 + *dt as i64) { Some((b.drag(*dt, ds), Some(RTempo { tick: (r.tick as i64 + *dt as i64) as u32, v: v as u16 }))) } else { None }
                }
                Mut::AddTick { dt, .. } => if r.tick as i64 + *dt as i64 > u32::MAX as i64 { None } else {
                    let t = r.tick as i64 + *dt as i64;
                    match b.with_tick_added(*dt) {
                        Ok(v) if t >= 0 => Some((v, Some(RTempo { tick: t as u32, ..*r }))),
                        Err(_) if t < 0 => None,
                        _ => { wrong = Some(format!("moving {r:?} by {dt}")); None }
                    }
                },
                Mut::Rotate { .. } | Mut::Gather | Mut::Land { .. } => { let mut v = b; v.start_tick = tt[x]; Some((v, None)) }
                Mut::Attr { which, v } => match which % 3 {
                    0 | 1 => {
                        let (t, at_end, v) = if which % 3 == 0 { (b.up().ok(), r.v >= 999, r.v + 1) } else { (b.down().ok(), r.v <= 1, r.v.saturating_sub(1)) };
                        if t.is_some() == at_end { wrong = Some(format!("one step {} is {} at {r:?}", if which % 3 == 0 { "up" } else { "down" },
                            if at_end { "not refused" } else { "refused" })); }
                        t.map(|t| (t, Some(RTempo { v, ..*r })))
                    }
                    _ => Some((make_tempo(&RTempo { v: (*v % 1000) as u16, ..*r }), None)),
                },
                Mut::Replace { t, .. } => Some((make_tempo(t), None)),
                Mut::Nothing | Mut::Each(_) => Some((b, None)),
            };
            if let Some((t, e)) = to {
                if let Some(e) = e { if e != tempo_of(&t) { wrong = Some(format!("{how:?} turns {r:?} into {:?}", tempo_of(&t))); } }
                ch.tempos.push((b, t));
            }
        }
        for which in 0..2 {
            let list = if which == 0 { &from.dumpers } else { &from.softs };
            let ct = rot(list.iter().map(|n| n.tick).collect(), if which == 0 { &now.dumpers } else { &now.softs }.iter().map(|x| x.0).collect());
            let mut outv = vec![];
            for (x, r) in list.iter().enumerate() {
                let b = make_ctl(r);
                let how = how_of(3 + which, x);
                let to = match how {
                    Mut::Drag { dt, .. } => if ok(r.tick as i64 + *dt as i64) { Some((b.drag(*dt), Some(RCtl { tick: (r.tick as i64 + *dt as i64) as u32, ..*r }))) } else { None },
                    Mut::AddTick { dt, .. } => if r.tick as i64 + *dt as i64 > u32::MAX as i64 { None } else {
                        let t = r.tick as i64 + *dt as i64;
                        match b.with_tick_added(*dt) {
                            Ok(v) if t >= 0 => Some((v, Some(RCtl { tick: t as u32, ..*r }))),
                            Err(_) if t < 0 => None,
                            _ => { wrong = Some(format!("moving {r:?} by {dt}")); None }
                        }
                    },
                    Mut::Rotate { .. } | Mut::Gather | Mut::Land { .. } => { let mut v = b; v.start_tick = ct[x]; Some((v, None)) }
                    Mut::Attr { which, v } => Some((make_ctl(&if which % 2 == 0 { RCtl { vel: (*v % 128) as u8, ..*r } } else { RCtl { ch: (*v % 16) as u8, ..*r } }), None)),
                    Mut::Replace { c, .. } => Some((make_ctl(c), None)),
                    Mut::Nothing | Mut::Each(_) => Some((b, None)),
                };
                if let Some((t, e)) = to {
                    if let Some(e) = e { if e != ctl_of(&t) { wrong = Some(format!("{how:?} turns {r:?} into {:?}", ctl_of(&t))); } }
                    outv.push((b, t));
                }
            }
            if which == 0 { ch.dumpers = outv; } else { ch.softs = outv; }
        }
        if let Some(w) = wrong { self.viol(&["C01"], "moved item", w); }
        let rem = Items {
            notes: ch.notes.iter().map(|x| note_of(&x.0)).collect(), bars: ch.bars.iter().map(|x| bar_of(&x.0)).collect(),
            tempos: ch.tempos.iter().map(|x| tempo_of(&x.0)).collect(), dumpers: ch.dumpers.iter().map(|x| ctl_of(&x.0)).collect(),
            softs: ch.softs.iter().map(|x| ctl_of(&x.0)).collect(),
        };
        let add = Items {
            notes: ch.notes.iter().map(|x| note_of(&x.1)).collect(), bars: ch.bars.iter().map(|x| bar_of(&x.1)).collect(),
            tempos: ch.tempos.iter().map(|x| tempo_of(&x.1)).collect(), dumpers: ch.dumpers.iter().map(|x| ctl_of(&x.1)).collect(),
            softs: ch.softs.iter().map(|x| ctl_of(&x.1)).collect(),
        };
        if rem.len() == 0 { return; }
        if overwritten_tick(&add) { self.count("edits placing two items on one tick"); }
        let Some((e, bars)) = self.plan_edit(i, &rem, &add, true) else { return };
        if from.len() % 2 == 0 {
            // The other way to put the changes together.
            ch = ModelChanges::with_capacity(ch.notes.len(), 1, 2, 3, 4)
                .with_softs(ch.softs).with_dumpers(ch.dumpers).with_tempos(ch.tempos).with_bars(ch.bars).with_notes(ch.notes);
        }
        self.edit(i, "change", e, Some((add, meta)), bars, &["C01"], |s| s.change(ch, lmeta(meta)));
    }

    fn tuplize(&mut self, i: usize, sel: &Sel) {
        let from = self.choose(i, sel);
        if from.notes.is_empty() { return; }
        let real = self.real_notes(i, &from.notes);
        if from.notes.len() < 2 {
            let before = self.insts[i].cur();
            let (u, r) = { let s = self.store(i); let x = (s.can_undo(), s.can_redo()); s.tuplize(real); x };
            self.count("tuplize of one note");
            let got = self.project(i);
            if got != *before { self.viol(&["C13", "C02"], "single tuplet", format!("grouping one note changed the project: {}", diff(&before, &got))); }
            let s = self.store(i);
            if (s.can_undo(), s.can_redo()) != (u, r) { self.viol(&["C13", "C02"], "single tuplet step", "grouping one note became an undo step".into()); }
            self.observe(i, "grouping one note", None, None);
            return;
        }
        let to = tuplet(&from.notes).unwrap_or_else(|| from.notes.clone());
        let rem = Items { notes: from.notes.clone(), ..Items::default() };
        let add = Items { notes: to, ..Items::default() };
        let Some((e, bars)) = self.plan_edit(i, &rem, &add, true) else { return };
        if tuplet(&from.notes).is_none() { self.count("tuplize without effect"); }
        self.edit(i, "tuplize", e, Some((add, Meta { select: Some(true), dragged: false })), bars, &["C13"], |s| s.tuplize(real));
    }

    // ---- undo, redo ----

    fn hist_props(&self, i: usize, first: &'static str) -> Vec<&'static str> {
        let n = &self.insts[i];
        let mut p = vec![first];
        if n.reopened || n.trimmed { p.push("C07"); }
        if n.copied { p.push("C14"); }
        if n.fixture { p.push("C15"); }
        if n.crashed { p.push("C05"); }
        if self.faults_seen || n.failed { p.push("C06"); }
        p
    }

    /// The properties an edit with a wrong outcome breaks.
    fn edit_props(&self, i: usize, props: &[&'static str]) -> Vec<&'static str> {
        let n = &self.insts[i];
        let mut p = props.to_vec();
        if n.fixture && !p.contains(&"C15") { p.push("C15"); }
        if self.faults_seen || n.failed { p.push("C06"); }
        p
    }

    /// Those a wrong step back or forth breaks in addition: the ones about the edit it takes back or repeats.
    fn step_props(&self, step: usize, i: usize, exp: &Proj, got: &Proj, p: &mut Vec<&'static str>) {
        match self.insts[i].names.get(step) { Some(&"tuplize") => p.push("C13"), Some(&"paste") => p.push("C12"), _ => {} }
        if only_plain_bars(exp, got) { p.push("C09"); }
    }

    fn undo(&mut self, i: usize) -> bool {
        let n = &self.insts[i];
        if n.failed { return false; }
        let before = n.cur();
        if n.pos == n.base {
            if self.store(i).can_undo() { return false; }
            self.store(i).undo();
            let got = self.project(i);
            if got != *before { let p = self.hist_props(i, "C02"); self.viol(&p, "undo of nothing", format!("undo with nothing to undo: {}", diff(&before, &got))); }
            return false;
        }
        if !self.store(i).can_undo() { return false; }
        self.insts[i].flight = Flight::Undo;
        self.store(i).undo();
        self.insts[i].flight = Flight::None;
        self.count("undo");
        let got = self.project(i);
        let n = &mut self.insts[i];
        n.pos -= 1;
        n.walked = true;
        n.tail_edit = false;
        n.mark();
        n.acked = n.tl.len() - 1;
        let exp = n.cur();
        let meta = n.metas.get(n.pos).copied().flatten();
        if got != *exp {
            let mut p = self.hist_props(i, "C02");
            self.step_props(self.insts[i].pos, i, &exp, &got, &mut p);
            self.viol(&p, "undo result", format!("undo does not restore the project: {}", diff(&exp, &got)));
            self.adopt(i, got);
        }
        self.observe(i, "undo", None, meta.map(|m| (m, &*before)));
        self.check_avail(i);
        true
    }

    fn redo(&mut self, i: usize) -> bool {
        let n = &self.insts[i];
        if n.failed { return false; }
        let before = n.cur();
        if n.pos + 1 >= n.line.len() {
            if self.store(i).can_redo() && !self.strict("redo") { return false; }
            self.store(i).redo();
            let got = self.project(i);
            if got != *before { let p = self.hist_props(i, "C03"); self.viol(&p, "redo of nothing", format!("redo with nothing to redo: {}", diff(&before, &got))); }
            return false;
        }
        if !self.store(i).can_redo() { return false; }
        self.insts[i].flight = Flight::Redo;
        self.store(i).redo();
        self.insts[i].flight = Flight::None;
        self.count("redo");
        let got = self.project(i);
        let n = &mut self.insts[i];
        n.pos += 1;
        n.walked = true;
        n.tail_edit = false;
        n.mark();
        n.acked = n.tl.len() - 1;
        let exp = n.cur();
        let meta = n.metas.get(n.pos - 1).copied().flatten();
        if got != *exp {
            let mut p = self.hist_props(i, "C03");
            self.step_props(self.insts[i].pos - 1, i, &exp, &got, &mut p);
            self.viol(&p, "redo result", format!("redo does not reproduce the project: {}", diff(&exp, &got)));
            self.adopt(i, got);
        }
        self.observe(i, "redo", None, meta.map(|m| (m, &*before)));
        self.check_avail(i);
        true
    }

    /// After a reported difference go on from what is really there.
    fn adopt(&mut self, i: usize, got: Proj) {
        let n = &mut self.insts[i];
        let mut l = (*n.line).clone();
        l[n.pos] = Rc::new(got);
        n.line = Rc::new(l);
        n.mark();
        if n.acked == n.tl.len() - 2 { n.acked += 1; }
    }

    fn poll(&mut self, i: usize) {
        let truth = simrt::all_done();
        let failures = core().failed_cmds;
        let n = &mut self.insts[i];
        let Some(s) = n.store.as_mut() else { return };
        let r = s.saved();
        let unasked = self.unasked;
        if truth || r.is_err() { self.unasked = 0; }
        let written = simrt::all_written();
        self.count("saved() polls");
        let single = self.insts.len() == 1;
        let strict = self.strict("saved");
        match r {
            Ok(true) => {
                let n = &mut self.insts[i];
                if single && failures > 0 && !n.failed {
                    self.viol(&["C06"], "confirmed after error", "an edit was confirmed as saved although writing it failed and no error was reported".into());
                } else if single && !written && (!n.walked || strict) {
                    self.viol(&["C05", "C06", "C16"], "confirmed early", "edits were confirmed as saved before they were written".into());
                } else if written && !n.failed && failures == 0 {
                    n.acked = n.tl.len() - 1;
                    if !n.walked || n.tail_edit { n.max_exact = true; }
                    self.count("confirmations");
                }
            }
            Ok(false) => {
                // Every answer has been read.
                let n = &self.insts[i];
                if single && truth && failures > 0 && !n.failed {
                    self.viol(&["C06"], "error not reported", "writing an edit failed and saved() never reports it".into());
                } else if truth && (n.tail_edit || strict) && !n.failed && failures == 0 {
                    self.viol(&["C16"], "never confirmed", "all edits are written but are not confirmed as saved".into());
                }
            }
            Err(_) => {
                let n = &mut self.insts[i];
                n.failed = true;
                n.max_exact = false;
                n.gap |= unasked > 1;
                self.count("reported save errors");
                if unasked > 1 { self.count("save errors reported after further edits"); }
            }
        }
        self.check_avail(i);
    }

    // ---- closing and opening ----

    fn close(&mut self, i: usize) {
        if let Some(s) = self.insts[i].store.take() { drop(s); }
    }

    /// Give a project up for good.
    fn discard(&mut self, i: usize) {
        let d = self.new_dir();
        let old = std::mem::replace(&mut self.insts[i], Inst::new(d, self.plan.limit as usize));
        drop(old.store);
    }

    fn remove_lock(&mut self, i: usize) {
        let d = self.insts[i].dir.clone();
        let mut g = core();
        let k: Vec<String> = g.disk.files.keys().filter(|f| f.starts_with(&format!("{d}/")) && !f.contains("db.sqlite")).cloned().collect();
        for f in k { g.disk.files.remove(&f); }
    }

    fn reopen(&mut self, i: usize, limit: Option<u32>, walk: bool) {
        if self.insts[i].store.is_none() { return; }
        self.catch_up(i);
        let faulty = self.faults_seen;
        let failed = self.insts[i].failed;
        let behind = !simrt::all_done();
        self.insts[i].opening = true;
        self.close(i);
        if let Some(l) = limit { self.insts[i].limit = l as usize; }
        self.count("reopen");
        if behind { self.count("reopen while the saver lagged"); }
        if faulty {
            // Opening with the faults still there may fail, but only with an error.
            let r = self.open(i);
            if r.is_err() { self.count("opening refused under faults"); }
            else {
                // The saver may fail right after; look at what was opened.
                self.compare_opened(i, true, failed);
                self.insts[i].opening = true;
                self.close(i);
            }
            core().faults.clear();
            self.faults_seen = false;
            core().failed_cmds = 0;
            self.remove_lock(i);
            match self.open(i) {
                Ok(()) => self.compare_opened(i, true, failed),
                Err(_) => { self.count("projects refused after errors"); self.insts[i].dead = true; }
            }
            if !self.insts[i].dead { self.recover_walk(i, "C06"); }
            self.insts[i].reopened = true;
            return;
        }
        match self.open(i) {
            Ok(()) => {
                self.compare_opened(i, false, failed);
                self.insts[i].reopened = true;
                if failed { self.recover_walk(i, "C06"); return; }
                self.observe(i, "reopening", None, None);
                self.check_avail(i);
                let n = &mut self.insts[i];
                n.acked = n.tl.len() - 1;
                if walk { self.walk(i); }
            }
            Err(e) => {
                let mut p = vec!["C04", "C07"];
                if self.insts[i].copied { p.push("C14"); }
                if self.insts[i].fixture { p.push("C15"); }
                self.viol(&p, "refused to open", format!("a closed project does not open again: {e}"));
                self.insts[i].dead = true;
            }
        }
    }

    /// Compare a project just opened with what it should be.
    fn compare_opened(&mut self, i: usize, errors: bool, failed: bool) {
        let got = self.project(i);
        if errors || failed {
            let n = &self.insts[i];
            let hit = n.tl[n.acked..].iter().any(|m| **m.state() == got);
            if !hit {
                let older = n.tl[..n.acked].iter().any(|m| **m.state() == got);
                let t = if older { "is older than what was confirmed as saved".to_string() } else { format!("never existed; against the last one: {}", diff(&n.cur(), &got)) };
                self.viol(&["C06"], if older { "confirmed edit lost" } else { "damaged by errors" }, format!("the project opened after disk errors {t}"));
            }
            return;
        }
        let exp = self.insts[i].cur();
        if got != *exp {
            let n = &self.insts[i];
            let mut p = vec!["C04"];
            if n.trimmed || n.pos + 1 < n.line.len() { p.push("C07"); }
            if n.copied { p.push("C14"); }
            if n.fixture { p.push("C15"); }
            if n.names.contains(&"tuplize") { p.push("C13"); }
            if only_plain_bars(&exp, &got) { p.push("C09"); }
            let t = format!("reopened project differs (undo limit {}, {} step(s) behind, {} ahead): {}", n.limit, n.pos - n.base, n.line.len() - 1 - n.pos, diff(&exp, &got));
            self.viol(&p, "reopened", t);
            self.adopt(i, got);
        } else { self.check_derived(&got, &["C04"], "reopening"); }
        let p = self.insts[i].cur();
        self.queries(i, &p, &[], 6);
    }

    /// Every undo step and every redo step, there and back.
    fn walk(&mut self, i: usize) {
        self.count("full walks through the history");
        let back = { let n = &self.insts[i]; n.line.len() - 1 - n.pos };
        let mut guard = 0;
        while self.undo(i) { guard += 1; if guard > 5000 { break; } }
        while self.redo(i) { guard += 1; if guard > 9000 { break; } }
        for _ in 0..back { if !self.undo(i) { break; } }
    }

    /// After a crash or disk errors: walk all undo and redo steps and compare with every point of the history the
    /// project may have returned to.
    fn recover_walk(&mut self, i: usize, prop: &'static str) {
        if self.insts[i].gap && !self.strict("errors") {
            // With a step missing the store's undo stops with an explicit failure (known finding); go on with another project.
            self.count("projects edited after an error");
            self.close(i);
            self.insts[i].dead = true;
            return;
        }
        self.count("recovery walks");
        let got = Rc::new(self.project(i));
        let mut back: Vec<Rc<Proj>> = vec![];
        while self.store(i).can_undo() && back.len() < 3000 { self.store(i).undo(); back.push(Rc::new(self.project(i))); }
        let mut fwd: Vec<Rc<Proj>> = vec![];
        while self.store(i).can_redo() && fwd.len() < 6000 { self.store(i).redo(); fwd.push(Rc::new(self.project(i))); }
        let n = &self.insts[i];
        let floor = n.tl.last().map_or(0, |m| m.base);
        let mut fits = false;
        let mut known = false;
        let mut best = String::new();
        'search: for m in n.tl[n.acked..].iter() {
            for p in 0..m.line.len() {
                if *m.line[p] != *got { continue; }
                known = true;
                if back.len() > p { best = format!("{} undo steps where at most {p} were", back.len()); continue; }
                if back.len() < p.saturating_sub(floor.max(m.base)) { best = format!("only {} undo steps of {}", back.len(), p - floor.max(m.base)); continue; }
                let lo = p - back.len();
                if back.iter().enumerate().any(|(k, s)| **s != *m.line[p - 1 - k]) { best = "an undo step leads to a project that was not there before".into(); continue; }
                let n_fwd = fwd.len();
                if lo + n_fwd >= m.line.len() || n_fwd < back.len() { best = format!("{n_fwd} redo steps from the beginning do not fit the {} recorded", m.line.len() - 1 - lo); continue; }
                if fwd.iter().enumerate().any(|(k, s)| **s != *m.line[lo + 1 + k]) { best = "a redo step leads to a project that was not there before".into(); continue; }
                fits = true;
                break 'search;
            }
        }
        if std::env::var_os("KSIM_DEBUG").is_some() {
            let h = |p: &Proj| format!("{:04x}", p.hash() & 0xffff);
            eprintln!("recover: got {} back {:?} fwd {:?} acked {}", h(&got), back.iter().map(|p| h(p)).collect::<Vec<_>>(), fwd.iter().map(|p| h(p)).collect::<Vec<_>>(), n.acked);
            for m in &n.tl { eprintln!("  pos {} base {} line {:?}", m.pos, m.base, m.line.iter().map(|p| h(p)).collect::<Vec<_>>()); }
        }
        let mut props = vec![prop];
        if n.copied { props.push("C14"); }
        if n.fixture { props.push("C15"); }
        if known && !fits { self.viol(&props, "history after recovery", format!("undo and redo after recovery: {best}")); }
        // Go on from what is really there.
        let mut line: Vec<Rc<Proj>> = back.iter().rev().cloned().collect();
        line.push(got.clone());
        let pos_end = fwd.len();
        line.truncate(1);
        line.extend(fwd.iter().cloned());
        if line.is_empty() { line.push(got); }
        let metas = vec![None; line.len() - 1];
        let n = &mut self.insts[i];
        n.set_history(line, metas, pos_end, 0);
        n.walked = true;
        n.tail_edit = false;
        n.mirror = Mirror::default();
        self.observe(i, "recovery", None, None);
        self.check_avail(i);
    }

    // ---- crashes ----

    /// The process is gone: let the disk lose what it may lose, start again, open everything and check.
    fn crash(&mut self, mode: Mode, hard: &'static str) {
        // What an operation in flight may have become.
        for n in self.insts.iter_mut() {
            let Some(s) = n.store.as_ref() else { continue };
            let fl = std::mem::replace(&mut n.flight, Flight::None);
            match fl {
                Flight::None => {}
                Flight::Edit(_) => {
                    let got = project(s.model());
                    let mut line: Vec<Rc<Proj>> = n.line[..=n.pos].to_vec();
                    line.push(Rc::new(got));
                    let pos = n.pos + 1;
                    n.tl.push(Moment { base: n.base.max(pos.saturating_sub(n.limit)), line: Rc::new(line), pos });
                }
                Flight::Undo => n.tl.push(Moment { line: n.line.clone(), pos: n.pos - 1, base: n.base }),
                Flight::Redo => n.tl.push(Moment { line: n.line.clone(), pos: n.pos + 1, base: n.base }),
            }
        }
        if !simrt::is_killed() { simrt::kill_now(false); }
        let open: Vec<bool> = self.insts.iter().map(|n| n.store.is_some() || n.opening).collect();
        let fallible = self.insts.iter().any(|n| n.failed) || self.faults_seen;
        // Nobody knows which of the edits made since the last saved() are in the file.
        let unasked = std::mem::take(&mut self.unasked);
        if fallible && unasked > 0 { for n in self.insts.iter_mut() { n.gap = true; } }
        let mut nested: Vec<(u32, Mode)> = if fallible { vec![] } else { self.plan.nested.clone() };
        nested.reverse();
        self.down(mode);
        for i in 0..self.insts.len() {
            if !open[i] || self.insts[i].dead { continue; }
            if fallible && hard == "C05" { self.insts[i].failed = true; }
            let prop = if self.insts[i].failed { "C06" } else { hard };
            loop {
                if let Some((after, _)) = nested.last() { core().kill = Some(KillArm { after: *after, disk_only: true, tear: *after % 2 == 1 }); }
                let r = catch_unwind(AssertUnwindSafe(|| self.open(i)));
                core().kill = None;
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        if e.downcast_ref::<Stop>() == Some(&Stop::Killed) {
                            let (_, m) = nested.pop().expect("nested");
                            self.count("crashes during recovery");
                            // Other instances opened before it go down with it.
                            self.down(m);
                            for j in 0..i { if open[j] && !self.insts[j].dead { let _ = catch_unwind(AssertUnwindSafe(|| self.open(j))); } }
                            continue;
                        }
                        Err(panic_text(&e))
                    }
                };
                let cleared = nested.pop();
                if cleared.is_some() { nested.clear(); }
                match r {
                    Ok(()) => {
                        let got = self.project(i);
                        let n = &self.insts[i];
                        let hit = n.tl[n.acked..].iter().any(|m| **m.state() == got);
                        if !hit {
                            let older = n.tl[..n.acked].iter().any(|m| **m.state() == got);
                            let last = n.tl.last().expect("history").state().clone();
                            let mut p = vec![prop];
                            if n.copied { p.push("C14"); }
                            if n.fixture { p.push("C15"); }
                            if older { self.viol(&p, "confirmed step lost", "after the crash the project is older than the last confirmed step".into()); }
                            else { self.viol(&p, "not a point of history", format!("after the crash the project never existed; against the last one: {}", diff(&last, &got))); }
                        }
                        self.check_derived(&got, &["C04"], "opening after a crash");
                        self.queries(i, &got, &[], 6);
                        self.observe(i, "opening after a crash", None, None);
                        self.insts[i].reopened = true;
                        self.insts[i].crashed = true;
                        self.recover_walk(i, prop);
                    }
                    Err(e) => {
                        if prop == "C06" { self.count("projects refused after errors"); }
                        else {
                            let mut p = vec![prop];
                            if self.insts[i].copied { p.push("C14"); }
                            if self.insts[i].fixture { p.push("C15"); }
                            self.viol(&p, "refused after crash", format!("the project does not open after the crash: {e}"));
                        }
                        self.insts[i].dead = true;
                    }
                }
                break;
            }
        }
    }

    /// Bring the process down and start a new one on the surviving disk.
    fn down(&mut self, mode: Mode) {
        for i in 0..self.insts.len() {
            if let Some(s) = self.insts[i].store.take() { let _ = catch_unwind(AssertUnwindSafe(|| drop(s))); }
        }
        if !simrt::reap() { self.viol(&["C16"], "saver stuck", "a saver thread does not end".into()); }
        let mut g = core();
        let mut r = g.frng.clone();
        let (lost, kept, torn) = g.disk.crash(crash_mode(mode), &mut r);
        g.frng = r;
        g.faults.clear();
        g.failed_cmds = 0;
        g.saver_panics.clear();
        *g.stats.kills.entry(format!("crash:{mode:?}")).or_default() += 1;
        *g.stats.kills.entry("writes lost".into()).or_default() += lost;
        *g.stats.kills.entry("unsynchronised writes kept".into()).or_default() += kept;
        *g.stats.kills.entry("writes torn".into()).or_default() += torn;
        drop(g);
        self.faults_seen = false;
        for i in 0..self.insts.len() { self.remove_lock(i); }
        simrt::restart();
    }

    // ---- queries ----

    fn queries(&mut self, i: usize, p: &Proj, extra: &[u64], n: usize) {
        let mut ticks: Vec<u32> = vec![0, u32::MAX];
        let all: Vec<u32> = p.bars.iter().map(|b| b.0).chain(p.tempos.iter().map(|b| b.0)).chain(p.dumpers.iter().map(|b| b.0)).chain(p.softs.iter().map(|b| b.0)).collect();
        if !all.is_empty() {
            for _ in 0..n {
                let t = *self.qr.pick(&all);
                ticks.push(match self.qr.below(3) { 0 => t.saturating_sub(1), 1 => t, _ => t.saturating_add(1) });
            }
        }
        for e in extra { ticks.push(*e as u32); }
        let nbars = p.bars.len() as u64;
        let mut locs: Vec<(usize, usize)> = vec![];
        for k in 0..extra.len() {
            let a = extra[k];
            let b = extra[(k + 1) % extra.len()];
            locs.push((a as usize, b as usize));
            locs.push(((a % (nbars + 4)) as usize, b as usize));
            locs.push((b as usize, (a % 2000) as usize));
            if nbars > 0 {
                let x = (a % nbars) as usize;
                let room = u32::MAX - p.bars[x].0;
                locs.push((x + 1, room as usize));
                locs.push((x + 1, room as usize + 1));
            }
            // Around the end of the representable range beyond the last bar.
            let (last, n0) = p.bars.last().map_or((0, 0), |b| (b.0, p.bars.len()));
            let len = if n0 == 0 { measure_len(p.rhythm) } else { measure_len(p.rhythm_at(last)) } as u64;
            if len > 0 {
                let m = (u32::MAX as u64 - last as u64) / len;
                let rest = (u32::MAX as u64 - last as u64) % len;
                locs.push((n0 + m as usize, rest as usize));
                locs.push((n0 + m as usize, rest as usize + 1));
                locs.push((n0 + m as usize + 1, 0));
                locs.push((n0 + 1 + (a % 5) as usize, (b % 3000) as usize));
            }
        }
        let mut bad: Vec<(&'static str, String)> = vec![];
        let Some(s) = self.insts[i].store.as_ref() else { return };
        let mut done = 0u64;
        for t in ticks {
            done += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut v: Vec<(&'static str, String)> = vec![];
                let mut c = |what: &str, got: String, exp: String| if got != exp { v.push(("C10", format!("{what} at tick {t} is {got}, expected {exp}"))) };
                c("tempo", s.tempo_at(t).as_u16().to_string(), p.tempo_at(t).to_string());
                c("damper", s.dumper_at(t).as_u8().to_string(), p.dumper_at(t).to_string());
                c("soft pedal", s.soft_at(t).as_u8().to_string(), p.soft_at(t).to_string());
                c("rhythm", format!("{:?}", rhythm_of(s.rhythm_at(t))), format!("{:?}", p.rhythm_at(t)));
                c("key", key_of(s.key_at(t)).to_string(), p.key_at(t).to_string());
                v
            }));
            match r { Ok(v) => bad.extend(v), Err(e) => bad.push(("C10", format!("query at tick {t} crashes: {}", panic_text(&e)))) }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut v: Vec<(&'static str, String)> = vec![];
                let l = s.tick_to_location(t);
                if (l.bar_no(), l.offset()) != p.locate(t) { v.push(("C11", format!("tick {t} is at {l}, expected {:?}", p.locate(t)))); }
                match s.location_to_tick(l) {
                    Ok(x) if x == t => {}
                    x => v.push(("C11", format!("tick {t} converts to {l} and back to {x:?}"))),
                }
                v
            }));
            match r { Ok(v) => bad.extend(v), Err(e) => bad.push(("C11", format!("position of tick {t} crashes: {}", panic_text(&e)))) }
        }
        for (b, o) in locs {
            done += 1;
            let r = catch_unwind(AssertUnwindSafe(|| s.location_to_tick(Location::new(b, o)).ok()));
            match r {
                Ok(x) => if x != p.tick_of(b, o) { bad.push(("C11", format!("position {b}:{o} is tick {x:?}, expected {:?} ({} bars)", p.tick_of(b, o), p.bars.len()))) },
                Err(e) => bad.push(("C11", format!("position {b}:{o} crashes: {}", panic_text(&e)))),
            }
        }
        if !p.bars.is_empty() {
            let k = self.qr.below(p.bars.len() as u64) as usize;
            let got = s.bar_no(&make_bar(&p.bars[k].1));
            if got != Some(k) { bad.push(("C11", format!("bar number of the bar at {} is {got:?}, expected {k}", p.bars[k].0))); }
        }
        *self.out.cnt.entry("position and lookup queries".into()).or_default() += done;
        if p.bars.len() <= 300 || self.qr.chance(1, 16) { self.player(i, p); }
        for (p, t) in bad { self.viol(&[p], if p == "C10" { "lookup" } else { "position" }, t); }
    }

    // ---- the player's view ----

    fn player(&mut self, i: usize, p: &Proj) {
        let bars: Vec<RBar> = p.bars.iter().map(|b| b.1).collect();
        let op = self.opname;
        if let Ok(mut n) = NOW.lock() { *n = "rendering the playing order"; }
        let f = {
            let Some(s) = self.insts[i].store.as_ref() else { return };
            crate::player::check(&bars, p.rhythm, s.bar_repo().iter().map(|b| &b.1), s.rhythm(), &mut self.qr, |e| panic_text(e))
        };
        if let Ok(mut n) = NOW.lock() { *n = op; }
        if !f.class.is_empty() { *self.out.cnt.entry(f.class.into()).or_default() += 1; }
        *self.out.cnt.entry("positions in the performance".into()).or_default() += f.positions;
        for (prop, class, text) in f.bad { self.viol(&[prop], class, text); }
    }

    // ---- clipboard ----

    fn paste(&mut self, i: usize, from: usize, sel: &Sel, tick: u32, meta: Meta, text: u8) {
        if self.insts[from].store.is_none() { return; }
        let items = self.choose(from, sel);
        if items.len() == 0 { return; }
        let mut models = models_of(&items);
        models.notes = self.real_notes(from, &items.notes).iter().map(|n| (**n).clone()).collect();
        let (key, rhythm) = { let p = self.insts[from].cur(); (p.key, p.rhythm) };
        let txt = clip_text(&models, text, key, rhythm);
        let back = match catch_unwind(AssertUnwindSafe(|| read_text(&txt, text))) {
            Ok(Ok((m, k, r))) => {
                if text > 0 && (k, r) != settings_in(text, key, rhythm) { self.viol(&["C12"], "import settings", format!("import: key {k:?} rhythm {r:?}, exported {key} {rhythm:?}")); }
                m
            }
            Ok(Err(e)) => { self.viol(&["C12"], "copy rejected", format!("copied text is rejected: {e}")); return; }
            Err(e) => { self.viol(&["C12"], "copy crashes", format!("reading copied text crashes: {}", panic_text(&e))); return; }
        };
        let got = items_of(&back);
        if got != items {
            self.viol(&["C12"], "copied items", format!("copied {:?} arrive as {:?}", first_diff(&items, &got).0, first_diff(&items, &got).1));
        } else {
            let d: Vec<Derived> = back.notes.iter().map(derived_of).collect();
            let e: Vec<Derived> = items.notes.iter().map(derive).collect();
            if d != e { self.viol(&["C12"], "copied items", "what is derived from a copied note changed".into()); }
        }
        let min = items.min_tick().expect("items") as i64;
        let max = items.bars.iter().map(|b| b.tick).chain(items.notes.iter().map(|n| n.base)).chain(items.tempos.iter().map(|n| n.tick))
            .chain(items.dumpers.iter().map(|n| n.tick)).chain(items.softs.iter().map(|n| n.tick)).max().expect("items") as i64;
        if max - min + tick as i64 > u32::MAX as i64 { return; }
        // By way of places far away, now and then.
        let mut back = back;
        while self.qr.chance(1, 3) {
            let room = u32::MAX as i64 - (max - min);
            let there = match self.qr.below(4) { 0 => room, 1 => 0, 2 => (1 << 31).min(room), _ => self.qr.below(room as u64 + 1) as i64 } as u32;
            back = back.move_to_tick(there);
            let exp = got.moved_to(there);
            let gm = items_of(&back);
            if gm != exp { self.viol(&["C12"], "moved copy", format!("moved to {there}: {:?} instead of {:?}", first_diff(&exp, &gm).1, first_diff(&exp, &gm).0)); return; }
        }
        let moved = back.move_to_tick(tick);
        let exp = got.moved_to(tick);
        let gm = items_of(&moved);
        if gm != exp { self.viol(&["C12"], "moved copy", format!("pasted at {tick}: {:?} instead of {:?}", first_diff(&exp, &gm).1, first_diff(&exp, &gm).0)); }
        self.count("pastes");
        self.bulk_add(i, "paste", moved, meta, &["C01", "C12"]);
    }

    fn corrupt(&mut self, i: usize, sel: &Sel, kind: u8, a: u32, b: u32, text: u8) {
        let items = self.choose(i, sel);
        if items.len() == 0 { return; }
        let p = self.insts[i].cur();
        let txt = clip_text(&models_of(&items), text, p.key, p.rhythm);
        let (bad, must_fail) = crate::corrupt::alter(&txt, kind, a, b);
        self.count("altered texts");
        // Now and then it is read as the other kind of text.
        let text = if b % 16 == 5 { if text == 0 { 1 } else { 0 } } else { text };
        match catch_unwind(AssertUnwindSafe(|| read_text(&bad, text).map(|(m, k, r)| {
            let its = items_of(&m);
            let d: Vec<Derived> = m.notes.iter().map(derived_of).collect();
            (m, its, d, k, r)
        }))) {
            Err(e) => self.viol(&["C12"], "altered text crashes", format!("reading an altered text crashes: {}; text: {}", panic_text(&e), clip(&bad))),
            Ok(Err(_)) => self.count("altered texts rejected"),
            Ok(Ok((m, its, d, k, r))) => {
                if must_fail { self.viol(&["C12"], "must reject", format!("a cut or foreign-version text is accepted: {}", clip(&bad))); return; }
                let ok = its.notes.iter().all(valid_note) && its.notes.iter().zip(d.iter()).all(|(n, d)| derive(n) == *d)
                    && its.bars.iter().all(|x| x.rhythm.map_or(true, valid_rhythm) && x.key.map_or(true, valid_key))
                    && its.tempos.iter().all(|t| (1..=999).contains(&t.v))
                    && its.dumpers.iter().chain(its.softs.iter()).all(|c| c.vel <= 127 && c.ch < 16)
                    && k.map_or(true, valid_key) && r.map_or(true, valid_rhythm);
                if !ok { self.viol(&["C12"], "invalid music", format!("an altered text is accepted and yields invalid music: {}", clip(&bad))); return; }
                self.count("altered texts read as valid music");
                if its.len() > 0 && a % 2 == 0 { self.bulk_add(i, "paste", m, Meta { select: None, dragged: false }, &["C01", "C12"]); }
            }
        }
    }

    fn save_as(&mut self, i: usize, to: usize) {
        if i == to || self.insts[i].failed { return; }
        simrt::settle();
        if !simrt::all_done() || self.faults_seen { return; }
        self.poll(i);
        self.discard(to);
        let d = self.new_dir();
        core().disk.dirs.insert(d.clone());
        let r = self.store(i).save_as(PathBuf::from(&d));
        if let Err(e) = r { self.viol(&["C14"], "copy fails", format!("{e:?}")); return; }
        self.count("copies");
        let src = &self.insts[i];
        let mut n = Inst::new(d, src.limit);
        n.set_history((*src.line).clone(), src.metas.clone(), src.pos, src.base);
        n.copied = true;
        n.reopened = true;
        n.trimmed = src.trimmed;
        n.fixture = src.fixture;
        self.insts[i].copied = true;
        self.insts[to] = n;
        match self.open(to) {
            Ok(()) => {
                let got = self.project(to);
                let exp = self.insts[to].cur();
                if got != *exp { self.viol(&["C14"], "copy", format!("the copy differs: {}", diff(&exp, &got))); self.adopt(to, got); }
                self.observe(to, "opening a copy", None, None);
                self.check_avail(to);
                if self.uid % 2 == 0 { self.walk(to); }
            }
            Err(e) => { self.viol(&["C14"], "copy refused", format!("the copy does not open: {e}")); self.insts[to].dead = true; }
        }
    }

    fn fixture(&mut self, i: usize, idx: u32) {
        let Some(f) = fixture::get(idx) else { return };
        self.discard(i);
        let d = self.new_dir();
        {
            let mut g = core();
            g.disk.dirs.insert(d.clone());
            g.disk.files.insert(format!("{d}/db.sqlite"), simrt::disk::SimFile { cur: f.db.clone(), dur: f.db.clone(), pend: vec![] });
        }
        let mut n = Inst::new(d, f.limit as usize);
        n.set_history(f.line.iter().cloned().map(Rc::new).collect(), f.metas.clone(), f.pos, f.base);
        n.reopened = true;
        n.fixture = true;
        self.insts[i] = n;
        self.count("released-version files opened");
        match catch_unwind(AssertUnwindSafe(|| self.open(i))) {
            Ok(Ok(())) => {
                let got = self.project(i);
                let exp = self.insts[i].cur();
                if got != *exp { self.viol(&["C15"], "fixture content", format!("{}: {}", f.name, diff(&exp, &got))); self.adopt(i, got); }
                self.observe(i, "opening", None, None);
                self.check_avail(i);
                self.walk(i);
                for (txt, items, key, rhythm) in f.texts.iter() {
                    let kind = txt.starts_with("1{\"key\"") as u8;
                    match catch_unwind(AssertUnwindSafe(|| read_text(txt, kind))) {
                        Ok(Ok((m, kk, rr))) => {
                            let its = items_of(&m);
                            if its != *items || (kind == 1 && (kk != Some(*key) || rr != Some(*rhythm))) {
                                self.viol(&["C15", "C12"], "fixture text", format!("{}: a text of the released version reads {:?} instead of {:?}", f.name, first_diff(items, &its).1, first_diff(items, &its).0));
                            }
                        }
                        Ok(Err(e)) => self.viol(&["C15", "C12"], "fixture text", format!("{}: a text of the released version is rejected: {e}", f.name)),
                        Err(e) => self.viol(&["C15", "C12"], "fixture text", format!("{}: a text of the released version crashes: {}", f.name, panic_text(&e))),
                    }
                }
            }
            Ok(Err(e)) => { self.viol(&["C15"], "fixture refused", format!("{}: {e}", f.name)); self.insts[i].dead = true; }
            Err(e) => {
                if e.downcast_ref::<Stop>().is_some() { std::panic::resume_unwind(e); }
                self.viol(&["C15"], "fixture refused", format!("{}: {}", f.name, panic_text(&e)));
                self.insts[i].dead = true;
            }
        }
    }

    // ---- driver ----

    fn step(&mut self, st: &Step) {
        let mut i = st.inst as usize % self.insts.len();
        if self.insts[i].dead {
            let d = self.new_dir();
            self.insts[i] = Inst::new(d, self.plan.limit as usize);
            i = st.inst as usize % self.insts.len();
        }
        if self.insts[i].store.is_none() && !matches!(st.op, Op::Fixture { .. }) {
            match self.open(i) {
                Ok(()) => { let got = self.project(i); let e = self.insts[i].cur(); if got != *e { self.viol(&["C04"], "new project", diff(&e, &got)); self.adopt(i, got); } }
                Err(e) => {
                    if !self.faults_seen { self.viol(&["C04"], "refused to open", format!("a new project does not open: {e}")); }
                    self.insts[i].dead = true;
                    return;
                }
            }
        }
        // After a reported save error the user may go on editing.
        if matches!(st.op, Op::Undo { .. } | Op::Redo { .. } | Op::Settle | Op::WaitSaved | Op::Reopen { .. } | Op::SaveAs { .. } | Op::Crash { .. } | Op::ArmKill { .. } | Op::Fixture { .. }) { self.catch_up(i); }
        let frozen = self.insts[i].failed && self.plan.seed % 4 == 0;
        match &st.op {
            Op::AddNote { n, fl, sel } if !frozen => {
                let note = make_note(n, *fl);
                let r = note_of(&note);
                let added = Items { notes: vec![r], ..Items::default() };
                let s = *sel;
                self.add_one(i, "add_note", added, add_meta(s), true, |st| st.add_note(note, s));
            }
            Op::AddBar { b, sel } if !frozen => {
                let (x, s) = (make_bar(b), *sel);
                self.add_one(i, "add_bar", Items { bars: vec![bar_of(&x)], ..Items::default() }, add_meta(s), false, |st| st.add_bar(x, s));
            }
            Op::AddTempo { t, sel } if !frozen => {
                let (x, s) = (make_tempo(t), *sel);
                self.add_one(i, "add_tempo", Items { tempos: vec![tempo_of(&x)], ..Items::default() }, add_meta(s), true, |st| st.add_tempo(x, s));
            }
            Op::AddDumper { c, sel } if !frozen => {
                let (x, s) = (make_ctl(c), *sel);
                self.add_one(i, "add_dumper", Items { dumpers: vec![*c], ..Items::default() }, add_meta(s), true, |st| st.add_dumper(x, s));
            }
            Op::AddSoft { c, sel } if !frozen => {
                let (x, s) = (make_ctl(c), *sel);
                self.add_one(i, "add_soft", Items { softs: vec![*c], ..Items::default() }, add_meta(s), true, |st| st.add_soft(x, s));
            }
            Op::BulkAdd { items, meta } if !frozen => self.bulk_add(i, "bulk_add", models_of(items), *meta, &["C01"]),
            Op::AddAgain { sel, bulk, select } if !frozen => {
                let it = self.choose(i, sel);
                let s = *select;
                if it.len() > 0 && *bulk {
                    let mut m = models_of(&it);
                    m.notes = self.real_notes(i, &it.notes).iter().map(|n| (**n).clone()).collect();
                    self.bulk_add(i, "bulk_add", m, add_meta(s), &["C01"]);
                } else if it.len() > 0 {
                    self.count("items placed again");
                    let one = |f: &dyn Fn(&mut Items)| { let mut x = Items::default(); f(&mut x); x };
                    if let Some(n) = it.notes.first() {
                        let note = (*self.real_notes(i, &[*n])[0]).clone();
                        self.add_one(i, "add_note", one(&|x| x.notes.push(*n)), add_meta(s), true, |st| st.add_note(note, s));
                    } else if let Some(b) = it.bars.first() {
                        let v = make_bar(b);
                        self.add_one(i, "add_bar", one(&|x| x.bars.push(*b)), add_meta(s), false, |st| st.add_bar(v, s));
                    } else if let Some(b) = it.tempos.first() {
                        let v = make_tempo(b);
                        self.add_one(i, "add_tempo", one(&|x| x.tempos.push(*b)), add_meta(s), true, |st| st.add_tempo(v, s));
                    } else if let Some(b) = it.dumpers.first() {
                        let v = make_ctl(b);
                        self.add_one(i, "add_dumper", one(&|x| x.dumpers.push(*b)), add_meta(s), true, |st| st.add_dumper(v, s));
                    } else if let Some(b) = it.softs.first() {
                        let v = make_ctl(b);
                        self.add_one(i, "add_soft", one(&|x| x.softs.push(*b)), add_meta(s), true, |st| st.add_soft(v, s));
                    }
                }
            }
            Op::Remove { sel, meta } if !frozen => {
                let rem = self.choose(i, sel);
                if rem.len() > 0 {
                    if let Some((e, _)) = self.plan_edit(i, &rem, &Items::default(), false) {
                        let mut m = models_of(&rem);
                        m.notes = self.real_notes(i, &rem.notes).iter().map(|n| (**n).clone()).collect();
                        let mt = *meta;
                        self.edit(i, "bulk_remove", e, Some((Items::default(), mt)), vec![], &["C01"], |s| s.bulk_remove(m, lmeta(mt)));
                    }
                }
            }
            Op::Change { sel, how, meta } if !frozen => self.change(i, sel, how, *meta),
            Op::Tuplize { sel } if !frozen => self.tuplize(i, sel),
            Op::SetRhythm { r } if !frozen => {
                let mut e = (*self.insts[i].cur()).clone();
                e.rhythm = *r;
                let x = make_rhythm(*r);
                self.edit(i, "set_rhythm", e, None, vec![], &["C01"], |s| s.set_rhythm(x));
            }
            Op::SetKey { k } if !frozen => {
                let mut e = (*self.insts[i].cur()).clone();
                e.key = *k;
                let x = make_key(*k);
                self.edit(i, "set_key", e, None, vec![], &["C01"], |s| s.set_key(x));
            }
            Op::SetGrid { g } if !frozen => {
                let mut e = (*self.insts[i].cur()).clone();
                e.grid = *g;
                let x = make_grid(*g);
                self.edit(i, "set_grid", e, None, vec![], &["C01"], |s| s.set_grid(x));
            }
            Op::Undo { n } => for _ in 0..*n { if !self.undo(i) { break; } self.after_history(i); if self.insts[i].failed { break; } },
            Op::Redo { n } => for _ in 0..*n { if !self.redo(i) { break; } self.after_history(i); if self.insts[i].failed { break; } },
            Op::Clear => {
                let before = self.insts[i].cur();
                self.store(i).clear_model_events();
                self.insts[i].mirror.cleared();
                let left = catch_unwind(AssertUnwindSafe(|| pending(self.insts[i].store.as_ref().expect("open")))).unwrap_or([usize::MAX; 5]);
                if left != [0; 5] { self.viol(&["C08"], "not cleared", format!("notifications are left after clearing: {left:?} of notes, bars, tempos, dampers, soft pedals")); }
                let got = self.project(i);
                if got != *before && !frozen { self.viol(&["C08"], "clearing", format!("clearing the notifications changed the project: {}", diff(&before, &got))); }
                self.observe(i, "clearing", None, None);
            }
            Op::Poll => self.poll(i),
            Op::WaitSaved => if self.insts[i].tail_edit && !frozen && !self.faults_seen {
                self.store(i).wait_until_saved();
                self.count("waits until saved");
                if simrt::all_written() { self.poll(i); }
                else if self.insts.len() == 1 && !self.insts[i].walked { self.viol(&["C16", "C05"], "confirmed early", "waiting until saved ended before everything was written".into()); }
            },
            Op::Settle => {
                simrt::settle();
                if self.insts[i].tail_edit && !frozen && !self.faults_seen { self.poll(i); }
            }
            Op::Sleep { us } => simrt::sleep_ns(us * 1000),
            Op::Reopen { limit, walk } => self.reopen(i, *limit, *walk),
            Op::SaveAs { to } => self.save_as(i, *to as usize % self.insts.len()),
            Op::Crash { mode, tear } => {
                self.arm_mode = *mode;
                core().kill = Some(KillArm { after: (st.uid % 7) as u32, disk_only: false, tear: *tear });
                simrt::settle();
                core().kill = None;
                self.count("kills at rest");
                self.crash(*mode, "C05");
            }
            Op::ArmKill { after, disk_only, mode, tear } => {
                self.arm_mode = *mode;
                core().kill = Some(KillArm { after: *after, disk_only: *disk_only, tear: *tear });
            }
            Op::Paste { from, sel, tick, meta, text } if !frozen => self.paste(i, *from as usize % self.insts.len(), sel, *tick, *meta, *text),
            Op::Corrupt { sel, kind, a, b, text } if !frozen => self.corrupt(i, sel, *kind, *a, *b, *text),
            Op::Fault { class, code, after, span } => {
                simrt::settle();
                self.poll(i);
                self.faults_seen = true;
                let class = [None, Some(Class::Read), Some(Class::Write), Some(Class::Sync), Some(Class::Trunc), Some(Class::Delete), Some(Class::Open), Some(Class::Lock), Some(Class::Fs)][*class as usize % 9];
                let code = [FaultCode::IoErr, FaultCode::Short, FaultCode::Full, FaultCode::Busy][*code as usize % 4];
                core().faults.push(Fault { class, code, after: *after, span: *span, fired: 0 });
            }
            Op::Stall { us } => { let mut g = core(); g.stall_next = us * 1000; }
            Op::Lat { permille, max_us } => { let mut g = core(); g.lat_permille = *permille as u64; g.lat_max = max_us * 1000; }
            Op::Sched { client, saver } => { let mut g = core(); g.leave_client = *client as u64; g.leave_saver = *saver as u64; }
            Op::Query { vals } => { let p = self.insts[i].cur(); self.queries(i, &p, vals, 10); }
            Op::Fixture { idx } => self.fixture(i, *idx),
            _ => self.count("skipped (after a reported error)"),
        }
        // In between, other projects stay as they are; lookups stay right.
        if self.insts.len() > 1 {
            for j in 0..self.insts.len() {
                if j == i || self.insts[j].store.is_none() { continue; }
                let got = self.project(j);
                let e = self.insts[j].cur();
                if got != *e && !self.insts[j].failed { self.viol(&["C14"], "interference", format!("an operation on one project changed another: {}", diff(&e, &got))); self.adopt(j, got); }
            }
        }
        if self.insts[i].store.is_some() && !self.insts[i].failed { let p = self.insts[i].cur(); self.queries(i, &p, &[], 2); }
    }

    fn on_panic(&mut self, e: Box<dyn std::any::Any + Send>, i: usize, op: &Op) -> bool {
        let i = i % self.insts.len();
        match e.downcast_ref::<Stop>() {
            Some(Stop::Killed) => {
                self.count("kills in the middle of work");
                let m = self.arm_mode;
                // Interrupted recovery is a violation of its own kind; crash() reports by class.
                let r = catch_unwind(AssertUnwindSafe(|| self.crash(m, "C05")));
                if let Err(e) = r { return self.recovery_panic(e); }
                return true;
            }
            Some(Stop::Hang(h)) => {
                if self.faults_seen || self.insts.iter().any(|n| n.failed) {
                    // Errors of the third-party store under disk errors; documented.
                    self.count("hangs under disk errors");
                    if self.strict("errors") { let h = h.clone(); self.viol(&["C06"], "hang under errors", format!("{} does not end: {h}", op_name(op))); }
                    return false;
                }
                let h = h.clone();
                self.viol(&["C16"], "hang", format!("{} does not end: {h}", op_name(op)));
                return false;
            }
            None => {}
        }
        let text = panic_text(&e);
        if self.faults_seen || self.insts.iter().any(|n| n.failed) {
            let explicit = text.contains("persister server") || text.contains("access database") || !core().saver_panics.is_empty() || text.contains("SendError") || text.contains("RecvError");
            if explicit {
                self.count("program stopped with an explicit failure");
                for n in self.insts.iter_mut() { n.failed = true; }
                let r = catch_unwind(AssertUnwindSafe(|| self.crash(Mode::Kill, "C06")));
                if let Err(e) = r { return self.recovery_panic(e); }
                return true;
            }
            self.viol(&["C06"], "crash under errors", format!("{} crashes under disk errors: {text}", op_name(op)));
            return false;
        }
        let saver = core().saver_panics.first().cloned();
        let text = match saver { Some(s) => format!("the saver crashed: {s}; {text}"), None => text };
        let mut props: Vec<&str> = match op {
            Op::Undo { .. } => self.hist_props(i, "C02"),
            Op::Redo { .. } => self.hist_props(i, "C03"),
            Op::Reopen { .. } => { let mut p = self.hist_props(i, "C04"); if !p.contains(&"C07") { p.push("C07"); } p }
            Op::Tuplize { .. } => vec!["C13", "C09"],
            Op::Paste { .. } | Op::Corrupt { .. } => vec!["C12", "C01", "C09"],
            Op::SaveAs { .. } => vec!["C14"],
            Op::Fixture { .. } => vec!["C15"],
            Op::Query { .. } => vec!["C11"],
            Op::Poll | Op::WaitSaved | Op::Settle | Op::Sleep { .. } => vec!["C16"],
            Op::Clear => vec!["C08"],
            Op::Crash { .. } => vec!["C05"],
            _ => vec!["C01", "C09"],
        };
        if self.insts[i].fixture && !props.contains(&"C15") { props.push("C15"); }
        if self.insts[i].copied && !props.contains(&"C14") { props.push("C14"); }
        let props: Vec<&str> = if text.starts_with("the saver crashed") { let mut p = props; p.push("C04"); p.push("C16"); p } else { props };
        self.viol(&props, "crash", format!("{} crashes: {text}", op_name(op)));
        false
    }

    fn recovery_panic(&mut self, e: Box<dyn std::any::Any + Send>) -> bool {
        let t = match e.downcast_ref::<Stop>() { Some(Stop::Hang(h)) => format!("does not end: {h}"), _ => format!("crashes: {}", panic_text(&e)) };
        let c06 = self.insts.iter().any(|n| n.failed);
        if c06 { self.count("recovery stopped after errors"); return false; }
        self.viol(&["C05"], "recovery crash", format!("undo and redo after recovery {t}"));
        false
    }

    pub fn run(mut self) -> Outcome {
        let steps = self.plan.steps.clone();
        let mut alive = true;
        for st in &steps {
            self.uid = st.uid;
            self.opname = op_name(&st.op);
            if let Ok(mut n) = NOW.lock() { *n = self.opname; }
            let extra: u64 = self.insts.iter().map(|n| n.tl.len() as u64).sum::<u64>() * 2_000;
            simrt::op_begin(st.uid, self.budget() + extra);
            if core().log.is_some() { let l = format!("--- step {} inst {} {}", st.uid, st.inst, op_name(&st.op)); core().log.as_mut().expect("log").push(l); }
            let r = catch_unwind(AssertUnwindSafe(|| self.step(st)));
            if let Err(e) = r {
                if !self.on_panic(e, st.inst as usize, &st.op) { alive = false; break; }
            }
            let ss = simrt::op_steps();
            self.out.max_steps = self.out.max_steps.max(ss);
            if !core().saver_panics.is_empty() && !self.faults_seen && !self.insts.iter().any(|n| n.failed) {
                let s = core().saver_panics[0].clone();
                self.viol(&["C04", "C16"], "saver crash", format!("the saver crashed: {s}"));
                alive = false;
                break;
            }
        }
        // End of the session: faults stop, everything is closed and opened once more.
        if alive {
            self.uid = 1 << 40;
            core().kill = None;
            simrt::op_begin(self.uid, 1_000_000);
            let r = catch_unwind(AssertUnwindSafe(|| {
                for i in 0..self.insts.len() {
                    if self.insts[i].store.is_some() && !self.insts[i].dead { self.reopen(i, None, true); }
                    if !self.insts[i].dead { self.close(i); }
                }
            }));
            if let Err(e) = r { self.on_panic(e, 0, &Op::Reopen { limit: None, walk: true }); }
        }
        if !simrt::is_killed() { simrt::kill_now(false); }
        for i in 0..self.insts.len() { if let Some(s) = self.insts[i].store.take() { let _ = catch_unwind(AssertUnwindSafe(|| drop(s))); } }
        simrt::reap();
        let mut c = simrt::finish();
        self.out.trace = c.trace;
        self.out.log = c.log.take().unwrap_or_default();
        self.out.stats = c.stats.clone();
        self.out
    }

    /// For making fixtures: the files and histories at the end of a run (everything closed).
    pub fn run_for_fixture(mut self) -> Option<(Vec<u8>, Vec<Proj>, Vec<Option<Meta>>, usize, usize, usize)> {
        let r = catch_unwind(AssertUnwindSafe(|| self.for_fixture())).unwrap_or(None);
        if !simrt::is_killed() { simrt::kill_now(false); }
        for i in 0..self.insts.len() { if let Some(s) = self.insts[i].store.take() { let _ = catch_unwind(AssertUnwindSafe(|| drop(s))); } }
        simrt::reap();
        simrt::finish();
        r
    }

    pub fn for_fixture_or_say(&mut self) -> Option<(Vec<u8>, Vec<Proj>, Vec<Option<Meta>>, usize, usize, usize)> {
        let r = catch_unwind(AssertUnwindSafe(|| self.for_fixture()));
        if !simrt::is_killed() { simrt::kill_now(false); }
        for i in 0..self.insts.len() { if let Some(s) = self.insts[i].store.take() { let _ = catch_unwind(AssertUnwindSafe(|| drop(s))); } }
        simrt::reap();
        simrt::finish();
        let r = r.unwrap_or_else(|e| { println!("{}", panic_text(&e)); None });
        if r.is_none() { println!("no fixture from this: {:?}", self.out.viols); }
        r
    }

    fn for_fixture(&mut self) -> Option<(Vec<u8>, Vec<Proj>, Vec<Option<Meta>>, usize, usize, usize)> {
        let steps = self.plan.steps.clone();
        for st in &steps {
            self.uid = st.uid;
            simrt::op_begin(st.uid, 4_000_000);
            let r = catch_unwind(AssertUnwindSafe(|| self.step(st)));
            if r.is_err() { return None; }
        }
        simrt::op_begin(1 << 40, 40_000_000);
        if self.insts[0].store.is_none() || self.insts[0].dead || self.insts[0].failed { return None; }
        self.close(0);
        let db = core().disk.files.get(&format!("{}/db.sqlite", self.insts[0].dir))?.cur.clone();
        let journal = core().disk.files.keys().any(|k| k.contains("journal"));
        if journal { return None; }
        let (line, metas, pos, base, limit) = { let n = &self.insts[0]; ((*n.line).clone(), n.metas.clone(), n.pos, n.base, n.limit) };
        if self.open(0).is_err() { return None; }
        self.compare_opened(0, false, false);
        self.insts[0].reopened = true;
        self.walk(0);
        self.close(0);
        if !self.out.viols.is_empty() { return None; }
        Some((db, line.iter().map(|p| (**p).clone()).collect(), metas, pos, base, limit))
    }
}

pub fn op_name(op: &Op) -> &'static str {
    match op {
        Op::AddNote { .. } => "add_note", Op::AddBar { .. } => "add_bar", Op::AddTempo { .. } => "add_tempo", Op::AddDumper { .. } => "add_dumper",
        Op::AddSoft { .. } => "add_soft", Op::BulkAdd { .. } => "bulk_add", Op::AddAgain { .. } => "add again", Op::Remove { .. } => "bulk_remove", Op::Change { .. } => "change",
        Op::Tuplize { .. } => "tuplize", Op::SetRhythm { .. } => "set_rhythm", Op::SetKey { .. } => "set_key", Op::SetGrid { .. } => "set_grid",
        Op::Undo { .. } => "undo", Op::Redo { .. } => "redo", Op::Clear => "clear_model_events", Op::Poll => "saved", Op::WaitSaved => "wait_until_saved",
        Op::Settle => "settle", Op::Sleep { .. } => "sleep", Op::Reopen { .. } => "close and open", Op::SaveAs { .. } => "save_as",
        Op::Crash { .. } => "crash", Op::ArmKill { .. } => "arm kill", Op::Paste { .. } => "paste", Op::Corrupt { .. } => "read altered text",
        Op::Fault { .. } => "arm fault", Op::Stall { .. } => "stall", Op::Lat { .. } => "latency", Op::Sched { .. } => "scheduling", Op::Query { .. } => "query",
        Op::Fixture { .. } => "open released-version file",
    }
}

fn clip(s: &str) -> String { if s.len() > 400 { let mut e = 400; while !s.is_char_boundary(e) { e -= 1; } format!("{}..", &s[..e]) } else { s.into() } }

fn first_diff(a: &Items, b: &Items) -> (String, String) {
    fn f<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> Option<(String, String)> {
        for k in 0..a.len().max(b.len()) {
            if a.get(k) != b.get(k) { return Some((format!("{:?}", a.get(k)), format!("{:?}", b.get(k)))); }
        }
        None
    }
    f(&a.notes, &b.notes).or_else(|| f(&a.bars, &b.bars)).or_else(|| f(&a.tempos, &b.tempos)).or_else(|| f(&a.dumpers, &b.dumpers))
        .or_else(|| f(&a.softs, &b.softs)).unwrap_or_default()
}

/// The settings an exported text of this kind tells.
fn settings_in(kind: u8, key: i8, rhythm: (u8, u8)) -> (Option<i8>, Option<(u8, u8)>) {
    (if kind == 1 || kind == 3 { Some(key) } else { None }, if kind == 1 || kind == 4 { Some(rhythm) } else { None })
}

/// 0: clipboard text; 1 and above: exported text with or without settings.
pub fn clip_text(m: &Models, kind: u8, key: i8, rhythm: (u8, u8)) -> String {
    if kind == 0 { m.to_clipboard_text() } else {
        let e = klavier_core::exported_project::ExportedProject {
            key: settings_in(kind, key, rhythm).0.map(make_key), rhythm: settings_in(kind, key, rhythm).1.map(make_rhythm), notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(),
            dumpers: m.dumpers.clone(), softs: m.softs.clone(),
        };
        format!("1{}", serde_json::to_string(&e).expect("export"))
    }
}

pub fn read_text(t: &str, kind: u8) -> Result<(Models, Option<i8>, Option<(u8, u8)>), String> {
    if kind == 0 { Models::from_clipboard_text(t.to_string()).map(|m| (m, None, None)).map_err(|e| clip(&format!("{e:?}"))) }
    else {
        klavier_core::exported_project::ExportedProject::from_clipboard_text(t.to_string()).map_err(|e| clip(&format!("{e:?}"))).map(|e| {
            let (k, r) = (e.key.map(key_of), e.rhythm.map(rhythm_of));
            (e.to_models(), k, r)
        })
    }
}

fn attr_note(n: &Note, which: u8, v: u32) -> Option<Note> {
    use klavier_core::velocity::Velocity;
    let r = note_of(n);
    match which {
        0 => Some(n.toggle_tie()),
        1 => n.add_dots(1).ok(),
        2 => n.add_dots(-1).ok(),
        3 => Some(n.with_duration_numerator(NUMS[v as usize % 8])),
        4 => n.toggle_sharp().ok(),
        5 => n.toggle_flat().ok(),
        6 => n.toggle_natural().ok(),
        7 => n.up_score_offset().ok(),
        8 => n.down_score_offset().ok(),
        9 => { let mut x = n.clone(); x.base_velocity = Velocity::new((v % 128) as u8); Some(x) }
        10 => Some(make_note(&RNote { ch: (v % 16) as u8, ..r }, None)),
        11 => Some(make_note(&RNote { st: [(v % 400) as i16 - 200, 0, (v / 400 % 30) as i16, 0], ..r }, None)),
        12 => Some(make_note(&RNote { ve: [(v % 260) as i16 - 130, (v / 260 % 20) as i16, 0, 0], ..r }, None)),
        13 => Some(make_note(&RNote { du: [(v % 2001) as u16, 1000, ((v / 2001) % 2001) as u16, 1000], ..r }, None)),
        14 => Some(make_note(&RNote { den: 2 + (v % 10) as u8, ..r }, None)),
        15 => Some(make_note(&RNote { tie: v & 1 != 0, tied: v & 2 != 0, ..r }, None)),
        16 => Some(n.with_duration(klavier_core::duration::Duration::new(NUMS[v as usize % 8], klavier_core::duration::Denominator::from_value(2).expect("2"),
            klavier_core::duration::Dots::from_value((v / 8 % 8) as u8).expect("dots")))),
        17 => Some(make_note(&RNote { dots: (v % 8) as u8, ..r }, None)),
        18 => { let mut x = n.clone(); x.base_start_tick = r.base.saturating_add(v % 480); Some(x) }
        _ => Some(make_note(&RNote { vel: (v % 128) as u8, num: (v / 128 % 8) as u8, ..r }, None)),
    }
}

/// An alteration offered by the library changes what it says and nothing else.
fn attr_wrong(r: &RNote, t: &RNote, which: u8, v: u32) -> Option<String> {
    let (what, e) = match which {
        0 => ("changing the tie", { let k = (r.tie, r.tied); let (a, b) = match k { (false, false) => (true, false), (true, false) => (false, true), (false, true) => (true, true), _ => (false, false) };
            RNote { tie: a, tied: b, ..*r } }),
        1 => ("adding a dot", RNote { dots: r.dots + 1, ..*r }),
        2 => ("removing a dot", RNote { dots: r.dots.wrapping_sub(1), ..*r }),
        3 => ("setting the note value", RNote { num: (v % 8) as u8, ..*r }),
        4 | 5 | 6 => ("changing the accidental", RNote { sf: t.sf, ..*r }),
        7 | 8 => ("moving up or down", RNote { solfa: t.solfa, octave: t.octave, ..*r }),
        16 => ("setting the duration", RNote { num: (v % 8) as u8, den: 2, dots: (v / 8 % 8) as u8, ..*r }),
        _ => return None,
    };
    if e == *t { None } else { Some(format!("{what} turns {r:?} into {t:?}")) }
}

/// Name of the operation now being simulated, for the watchdog.
pub static NOW: std::sync::Mutex<&'static str> = std::sync::Mutex::new("start");

/// Every run has a thread of its own, so that nothing a thread keeps for itself goes from one run to the next.
pub fn run_plan(plan: &Plan, log: bool) -> Outcome {
    let plan = plan.clone();
    std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        simrt::start(plan.seed, log);
        core().unsafe_windows = plan.open_windows;
        World::new(&plan).run()
    }).expect("thread").join().expect("run")
}

/// Which properties an operation that never ends (or brings the process down) breaks.
pub fn props_of(op: &str) -> Vec<&'static str> {
    match op {
        "undo" => vec!["C02", "C07", "C16"], "redo" => vec!["C03", "C07", "C16"], "close and open" => vec!["C04", "C07", "C16"], "tuplize" => vec!["C13", "C16"],
        "paste" | "read altered text" => vec!["C12", "C16"], "save_as" => vec!["C14", "C16"], "open released-version file" => vec!["C15", "C16"],
        "query" => vec!["C10", "C11", "C16"], "rendering the playing order" => vec!["C21"], "crash" | "arm kill" => vec!["C05", "C16"], "clear_model_events" => vec!["C08", "C16"],
        "saved" | "wait_until_saved" | "settle" | "sleep" | "stall" => vec!["C16"],
        _ => vec!["C01", "C09", "C16"],
    }
}
