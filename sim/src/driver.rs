//! Running many simulations in parallel, reporting, minimising and replaying.
use crate::exec::*;
use crate::gen;
use crate::lineage::alone;
use crate::minimize::minimize;
use crate::plan::*;
use serde::{Deserialize, Serialize};
use simrt::rng::mix;
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;
/// Real time after which a single run counts as endless.
const RUN_SECS: u64 = 40;

/// Mostly the runs that concentrate on the property, and some of every other kind: a wrong outcome counts wherever it shows.
pub fn profiles(id: &str) -> Vec<(&'static str, u32)> {
    let mut v = main_profiles(id);
    if id == "ANY" || v.is_empty() { return v; }
    let total: u32 = v.iter().map(|x| x.1).sum();
    for x in v.iter_mut() { x.1 = x.1 * 48 / total; }
    for p in crate::gen::PROFILES { if !v.iter().any(|x| x.0 == p) { v.push((p, 1)); } }
    v
}

fn main_profiles(id: &str) -> Vec<(&'static str, u32)> {
    match id {
        "C01" => vec![("edit", 4), ("tuplet", 1), ("bars", 1), ("clip", 1)],
        "C02" => vec![("undo", 4), ("edit", 1), ("tuplet", 1)],
        "C03" => vec![("undo", 4), ("edit", 1), ("tuplet", 1)],
        "C04" => vec![("store", 4), ("stall", 1), ("undo", 1)],
        "C05" => vec![("crash", 1)],
        "C06" => vec![("fault", 1)],
        "C07" => vec![("store", 3), ("undo", 2)],
        "C08" => vec![("events", 4), ("undo", 1), ("tuplet", 1)],
        "C09" => vec![("bars", 3), ("edit", 2), ("tuplet", 1)],
        "C10" => vec![("bars", 3), ("crash", 1), ("edit", 1)],
        "C11" => vec![("bars", 1)],
        "C12" => vec![("clip", 1)],
        "C13" => vec![("tuplet", 1)],
        "C14" => vec![("copy", 1)],
        "C15" => vec![("fixture", 1)],
        "C16" => vec![("stall", 3), ("store", 1), ("edit", 1)],
        "C20" | "C21" | "C22" => vec![("score", 6), ("bars", 1), ("undo", 1)],
        // For trying out changes: every profile, any violation.
        "ANY" => ["edit", "undo", "store", "crash", "fault", "events", "bars", "clip", "tuplet", "copy", "fixture", "stall", "score"].iter().map(|p| (*p, 1)).collect(),
        _ => vec![],
    }
}

/// Runs and seconds of one check.
fn effort(id: &str, thorough: bool) -> (u64, u64) {
    let _ = id;
    if thorough { (20_000_000, 1800) } else { (300_000, 60) }
}

/// What makes a run count as having exercised a property: one of these happened.
fn exercised(id: &str) -> (&'static [&'static str], &'static str) {
    match id {
        "C01" => (&["edits"], "at least one edit was checked against the model"),
        "C02" => (&["undo"], "at least one undo step was checked"),
        "C03" => (&["redo"], "at least one redo step was checked"),
        "C04" => (&["reopen"], "the project was closed and opened at least once before the end"),
        "C05" => (&["kills at rest", "kills in the middle of work"], "the process was killed at least once"),
        "C06" => (&["reported save errors", "program stopped with an explicit failure", "projects refused after errors", "opening refused under faults", "hangs under disk errors"], "an injected disk error had a visible effect"),
        "C07" => (&["full walks through the history", "recovery walks"], "all undo and redo steps were walked after opening"),
        "C08" => (&["observations"], "notifications were compared with the project"),
        "C09" => (&["edits with appended bars"], "an edit appended bars"),
        "C10" | "C11" => (&["position and lookup queries"], "lookups and positions were compared"),
        "C12" => (&["pastes", "altered texts"], "a text was read"),
        "C13" => (&["tuplize"], "notes were grouped"),
        "C14" => (&["copies"], "a copy was made"),
        "C15" => (&["released-version files opened"], "a released-version file was opened"),
        "C16" => (&["waits until saved", "reopen while the saver lagged"], "the editor went on while the saver lagged, or waited for it"),
        "C20" => (&["scores played"], "the playing order of a well-formed score with signs was compared"),
        "C21" => (&["scores rejected", "scores outside the rules"], "a faulty or irregular arrangement of signs was rendered"),
        "C22" => (&["positions in the performance"], "positions in the performance were compared"),
        _ => (&[], ""),
    }
}

#[derive(Serialize, Deserialize, Clone)]
struct Found {
    plan: Plan, viol: Viol, trace: u64,
    #[serde(default)] endless: bool,
    /// Its number in the search and that of the first run of its process.
    #[serde(default)] k: u64,
    #[serde(default)] first: u64,
    /// Runs that have to go before it in the same process.
    #[serde(default)] before: Vec<Plan>,
    /// The property under which it shows, if another than the one it is reported for.
    #[serde(default)] shows_as: Option<String>,
}
impl Found { fn key<'a>(&'a self, id: &'a str) -> &'a str { self.shows_as.as_deref().unwrap_or(id) } }

#[derive(Serialize, Deserialize, Default)]
struct Report {
    runs: u64,
    exercised: u64,
    sim_ns: u64,
    steps: u64,
    switches: u64,
    disk_ops: u64,
    stalls: u64,
    max_steps: u64,
    faults: BTreeMap<String, u64>,
    kills: BTreeMap<String, u64>,
    kill_stmts: BTreeMap<String, u64>,
    cnt: BTreeMap<String, u64>,
    samples: Vec<String>,
    traces: Vec<u64>,
    states: Vec<u64>,
    good: Vec<u64>,
    alarms: BTreeMap<String, u64>,
    rechecks: u64,
    mismatches: u64,
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);

fn watchdog(secs: u64, on: impl Fn(u64) + Send + 'static) {
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let c = CUR.load(Ordering::Relaxed);
            if c != last { last = c; since = Instant::now(); }
            else if c != u64::MAX && since.elapsed() > Duration::from_secs(secs) { on(c); }
        }
    });
}

fn limit_memory() {
    unsafe {
        let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}

fn pick(spec: &[(String, u32)], base: u64, k: u64) -> (String, u64) {
    let total: u32 = spec.iter().map(|x| x.1).sum();
    let mut x = (k % total as u64) as u32;
    let mut name = &spec[0].0;
    for (n, w) in spec { if x < *w { name = n; break; } x -= w; }
    (name.clone(), mix(base, k))
}

fn brief(p: &Plan) -> String {
    let mut s = format!("seed {} profile {} limit {}:", p.seed, p.profile, p.limit);
    for st in p.steps.iter().take(40) {
        let more = match &st.op {
            Op::Fault { class, code, after, span } => format!("({class},{code},{after},{span})"),
            Op::ArmKill { after, mode, .. } => format!("({after},{mode:?})"),
            Op::Crash { mode, .. } => format!("({mode:?})"),
            Op::Undo { n } | Op::Redo { n } => format!("({n})"),
            _ => String::new(),
        };
        s += &format!(" {}{}", op_name(&st.op), more);
    }
    s
}

/// worker DIR IDX STRIDE FIRST COUNT SEED CAP_S TIER ID SPEC
/// Keeps a worker on one processor of its own: its threads run one at a time, and handing over is cheaper there.
fn stay_on_one_core(idx: usize) {
    // SAFETY: the set is a plain bit mask owned by this function.
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &mut set) != 0 { return; }
        let cores: Vec<usize> = (0..libc::CPU_SETSIZE as usize).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if cores.len() < WORKERS { return; }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cores[idx % cores.len()], &mut one);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &one);
    }
}

pub fn worker(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    stay_on_one_core(a[1].parse().expect("number"));
    let dir = PathBuf::from(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (idx, stride, first, count, seed, cap, thorough, id) = (n(1), n(2), n(3), n(4), n(5), n(6), a[7] == "thorough", a[8].clone());
    let spec: Vec<(String, u32)> = a[9].split(',').map(|x| { let (p, w) = x.split_once(':').expect("spec"); (p.to_string(), w.parse().expect("weight")) }).collect();
    let (need, _) = exercised(&id);
    {
        let (dir, spec) = (dir.clone(), spec.clone());
        watchdog(RUN_SECS, move |k| {
            let (profile, s) = pick(&spec, seed, k);
            let op = NOW.lock().map(|o| *o).unwrap_or("?");
            let viol = Viol { props: props_of(op).iter().map(|x| x.to_string()).collect(), class: "endless".into(), uid: 0, text: format!("{op} does not end ({RUN_SECS} s of computing)") };
            let f = Found { plan: gen::plan(s, &profile, thorough), viol, trace: 0, endless: true, k, first, before: vec![], shows_as: None };
            let _ = std::fs::write(dir.join(format!("v{idx}-endless-{k}.tmp")), serde_json::to_vec(&f).unwrap_or_default());
            let _ = std::fs::rename(dir.join(format!("v{idx}-endless-{k}.tmp")), dir.join(format!("v{idx}-endless-{k}.json")));
            let _ = std::fs::write(dir.join(format!("k{idx}")), k.to_string());
            unsafe { libc::_exit(77) };
        });
    }
    let start = Instant::now();
    let mut r = Report::default();
    let (mut traces, mut states, mut good): (HashSet<u64>, HashSet<u64>, HashSet<u64>) = Default::default();
    let mut nv = 0;
    let mut k = first;
    let stop = dir.join("stop");
    let beat = std::fs::File::create(dir.join(format!("k{idx}"))).expect("beat");
    while k < count {
        if start.elapsed() > Duration::from_secs(cap) || stop.exists() { break; }
        use std::os::unix::fs::FileExt;
        let _ = beat.write_all_at(format!("{k:020}").as_bytes(), 0);
        let (profile, s) = pick(&spec, seed, k);
        CUR.store(k, Ordering::Relaxed);
        let plan = gen::plan(s, &profile, thorough);
        let o = run_plan(&plan, false);
        if (k / stride) % 128 == 3 {
            // The same seed must give the same execution.
            let again = run_plan(&plan, false);
            r.rechecks += 1;
            if again.trace != o.trace || again.viols.len() != o.viols.len() || again.cnt != o.cnt { r.mismatches += 1; }
        }
        CUR.store(u64::MAX, Ordering::Relaxed);
        r.runs += 1;
        r.sim_ns += o.stats.sim_ns;
        r.steps += o.stats.steps;
        r.switches += o.stats.switches;
        r.disk_ops += o.stats.disk_ops;
        r.stalls += o.stats.stalls;
        r.max_steps = r.max_steps.max(o.max_steps);
        for (k, v) in &o.stats.faults { *r.faults.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.stats.kills { *r.kills.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.stats.kill_stmts { *r.kill_stmts.entry(k.clone()).or_default() += v; }
        for (k, v) in &o.cnt { *r.cnt.entry(k.clone()).or_default() += v; }
        traces.insert(o.trace);
        if need.iter().any(|n| o.cnt.get(*n).copied().unwrap_or(0) > 0) { r.exercised += 1; good.insert(o.trace); }
        if states.len() < 400_000 { states.extend(o.states.iter()); }
        if r.samples.len() < 2 && idx == 0 { r.samples.push(brief(&plan)); }
        for v in &o.viols {
            let key = format!("{} {}", v.props.join("+"), v.class);
            let c = r.alarms.entry(key).or_default();
            *c += 1;
            if *c <= 2 && nv < 60 {
                let f = Found { plan: plan.clone(), viol: v.clone(), trace: o.trace, endless: false, k, first, before: vec![], shows_as: None };
                let t = dir.join(format!("v{idx}-{nv}.tmp"));
                std::fs::write(&t, serde_json::to_vec(&f).expect("json")).expect("write");
                std::fs::rename(&t, dir.join(format!("v{idx}-{nv}.json"))).expect("rename");
                nv += 1;
            }
        }
        k += stride;
    }
    r.traces = traces.into_iter().collect();
    r.states = states.into_iter().collect();
    r.good = good.into_iter().collect();
    let t = dir.join(format!("r{idx}-{first}.tmp"));
    std::fs::write(&t, serde_json::to_vec(&r).expect("json")).expect("write");
    std::fs::rename(&t, dir.join(format!("r{idx}-{first}.json"))).expect("rename");
    0
}

fn found_in(dir: &Path) -> Vec<(PathBuf, Found)> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    v.retain(|p| p.file_name().map_or(false, |n| n.to_string_lossy().starts_with('v')) && p.extension().map_or(false, |e| e == "json"));
    v.sort();
    v.into_iter().filter_map(|p| { let f: Found = serde_json::from_slice(&std::fs::read(&p).ok()?).ok()?; Some((p, f)) }).collect()
}

fn env_u64(k: &str) -> Option<u64> { std::env::var(k).ok()?.parse().ok() }

/// check ID TIER
pub fn check(a: &[String]) -> i32 {
    let id = a[0].clone();
    let thorough = a.get(1).map_or(false, |t| t == "thorough");
    let tier = if thorough { "thorough" } else { "quick" };
    let vseed = env_u64("VERIF_SEED").unwrap_or(1);
    let spec = profiles(&id);
    if spec.is_empty() { eprintln!("unknown property {id}"); return 2; }
    let root = PathBuf::from(std::env::var_os("KSIM_ROOT").unwrap_or_else(|| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into()));
    let (mut count, mut cap) = effort(&id, thorough);
    if let Some(c) = env_u64("KSIM_RUNS") { count = c; }
    if let Some(c) = env_u64("KSIM_SECS") { cap = c; }
    let started = Instant::now();
    let dir = root.join(format!("sim/target/ksim-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().expect("exe");
    let specs: String = spec.iter().map(|(p, w)| format!("{p}:{w}")).collect::<Vec<_>>().join(",");
    let base = mix(vseed, specs.bytes().fold(17u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)));
    let spawn = |idx: usize, first: u64, cap: u64| {
        std::process::Command::new(&exe)
            .args(["worker", dir.to_str().expect("path"), &idx.to_string(), &WORKERS.to_string(), &first.to_string(), &count.to_string(), &base.to_string(), &cap.to_string(), tier, &id, &specs])
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().expect("worker")
    };
    let mut kids: Vec<Option<std::process::Child>> = (0..WORKERS).map(|i| Some(spawn(i, i as u64, cap))).collect();
    let mut died: Vec<Found> = vec![];
    let mut restarts = 0;
    let mut hit: Option<Instant> = None;
    let mine = |f: &Found| id == "ANY" || f.viol.props.iter().any(|p| *p == id);
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(150));
        for i in 0..WORKERS {
            let Some(k) = kids[i].as_mut() else { continue };
            let Ok(Some(st)) = k.try_wait() else { continue };
            kids[i] = None;
            if st.success() { continue; }
            let at: u64 = std::fs::read_to_string(dir.join(format!("k{i}"))).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(i as u64);
            if st.code() != Some(77) {
                // The process went down in this run: find out in which operation.
                let sp: Vec<(String, u32)> = spec.iter().map(|x| (x.0.to_string(), x.1)).collect();
                let (profile, s) = pick(&sp, base, at);
                let plan = gen::plan(s, &profile, thorough);
                let pf = dir.join(format!("d{i}.json"));
                std::fs::write(&pf, serde_json::to_vec(&plan).expect("json")).expect("write");
                let o = std::process::Command::new(&exe).args(["one", "plan", pf.to_str().expect("path"), "ops"]).output().expect("one");
                let op = String::from_utf8_lossy(&o.stdout).lines().last().unwrap_or("start").to_string();
                let viol = Viol { props: props_of(&op).iter().map(|x| x.to_string()).collect(), class: "process died".into(), uid: 0, text: format!("{op} brings the process down ({st})") };
                died.push(Found { plan, viol, trace: 0, endless: true, k: at, first: at, before: vec![], shows_as: None });
            }
            restarts += 1;
            let left = cap.saturating_sub(started.elapsed().as_secs());
            if restarts < 12 && left > 2 { kids[i] = Some(spawn(i, at + WORKERS as u64, left)); }
        }
        if hit.is_none() && (died.iter().any(mine) || found_in(&dir).iter().any(|f| mine(&f.1))) { hit = Some(Instant::now()); }
        if hit.map_or(false, |h| h.elapsed() > Duration::from_secs(3)) { let _ = std::fs::write(dir.join("stop"), b""); }
    }
    let known = probes(&id, &root, &exe);
    let searched = started.elapsed().as_secs_f64();
    // Gather.
    let mut r = Report::default();
    let (mut traces, mut states, mut good): (HashSet<u64>, HashSet<u64>, HashSet<u64>) = Default::default();
    for e in std::fs::read_dir(&dir).expect("dir").filter_map(|e| e.ok()) {
        if !e.file_name().to_string_lossy().starts_with('r') || !e.file_name().to_string_lossy().ends_with("json") { continue; }
        let w: Report = serde_json::from_slice(&std::fs::read(e.path()).expect("report")).expect("report");
        r.runs += w.runs; r.exercised += w.exercised; r.sim_ns += w.sim_ns; r.steps += w.steps; r.switches += w.switches; r.disk_ops += w.disk_ops; r.stalls += w.stalls;
        r.rechecks += w.rechecks; r.mismatches += w.mismatches;
        r.max_steps = r.max_steps.max(w.max_steps);
        for (k, v) in w.faults { *r.faults.entry(k).or_default() += v; }
        for (k, v) in w.kills { *r.kills.entry(k).or_default() += v; }
        for (k, v) in w.kill_stmts { *r.kill_stmts.entry(k).or_default() += v; }
        for (k, v) in w.cnt { *r.cnt.entry(k).or_default() += v; }
        for (k, v) in w.alarms { *r.alarms.entry(k).or_default() += v; }
        r.samples.extend(w.samples);
        traces.extend(w.traces); states.extend(w.states); good.extend(w.good);
    }
    let mut all: Vec<Found> = found_in(&dir).into_iter().map(|x| x.1).collect();
    all.extend(died);
    for f in all.iter().filter(|f| f.endless) { *r.alarms.entry(format!("{} {}", f.viol.props.join("+"), f.viol.class)).or_default() += 1; }
    if id == "ANY" {
        println!("ANY: {} runs in {:.1} s", r.runs, started.elapsed().as_secs_f64());
        for (k, v) in &r.alarms { println!("alarm: {k} x{v}"); }
        let _ = std::fs::remove_dir_all(&dir);
        return if r.alarms.is_empty() { 0 } else { 1 };
    }
    // Report: one violation per class, shortest plan first.
    if id == "C14" { interference(&mut all, &dir, &exe); }
    let mut ours: Vec<Found> = all.into_iter().filter(|f| mine(f)).collect();
    ours.sort_by_key(|f| (f.viol.class.clone(), f.plan.steps.len()));
    ours.dedup_by_key(|f| f.viol.class.clone());
    let mut lines = vec![];
    let root_ = std::fs::canonicalize(&root).unwrap_or(root.clone());
    let rep = root_.join("replays");
    if !ours.is_empty() { std::fs::create_dir_all(&rep).expect("replays"); }
    for (k, f) in ours.iter().take(4).enumerate() {
        let src = dir.join(format!("m{k}.json"));
        std::fs::write(&src, serde_json::to_vec(f).expect("json")).expect("write");
        let out = rep.join(format!("{id}-{}-{}.json", f.viol.class.replace(' ', "-"), f.plan.seed));
        let ok = !f.endless && run_timed(&exe, &["minimize", src.to_str().expect("path"), out.to_str().expect("path"), &id, "25"], 60)
            && !run_timed(&exe, &["replay", out.to_str().expect("path")], 60);
        if !ok {
            let sp: Vec<(String, u32)> = spec.iter().map(|x| (x.0.to_string(), x.1)).collect();
            let prior = |n: u64| { let (profile, s) = pick(&sp, base, n); gen::plan(s, &profile, thorough) };
            let f = if f.endless { f.clone() } else { after_others(f, &id, &dir, &exe, &prior) };
            std::fs::write(&out, replay_json(&f, &id, &[])).expect("write");
        }
        lines.push(format!("VIOLATION property={id} replay={}", out.display()));
        let text = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok()).map(|v| v["what"].as_str().unwrap_or("").to_string()).unwrap_or_default();
        lines.push(format!("  {}: {}", f.viol.class, text));
    }
    let wall = started.elapsed().as_secs_f64();
    let (_, rule) = exercised(&id);
    let others: BTreeMap<String, u64> = r.alarms.iter().filter(|(k, _)| !k.split(' ').next().unwrap_or("").split('+').any(|p| p == id)).map(|(k, v)| (k.clone(), *v)).collect();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": vseed, "level": "exploration",
        "coverage": {
            "evaluations": r.runs,
            "distinct_nontrivial": good.len(),
            "rule": format!("One case is one simulated run: a seed generates a plan (profiles {specs}) of edits, undo/redo, closing, crashes and faults and decides every scheduling choice. Non-trivial: {rule}. Distinct: by the hash of the complete event trace (every scheduling point, disk operation, fault, kill)."),
            "samples": r.samples,
            "runs_exercising_the_property": r.exercised,
            "runs_and_seeds_per_hour": (r.runs as f64 / searched * 3600.0) as u64,
            "simulated_seconds": r.sim_ns as f64 / 1e9,
            "scheduling_points": r.steps,
            "thread_switches": r.switches,
            "disk_operations": r.disk_ops,
            "saver_stalls": r.stalls,
            "distinct_interleavings_by_trace_hash": traces.len(),
            "distinct_project_states": states.len(),
            "most_scheduling_points_in_one_operation": r.max_steps,
            "seeds_run_twice_to_check_determinism": r.rechecks,
            "seeds_whose_second_execution_differed": r.mismatches,
            "faults_injected": r.faults,
            "crashes": r.kills,
            "crash_points_by_saver_statement": r.kill_stmts,
            "operations_and_checks": r.cnt,
            "real_components": ["klavier-core (built from /repo's working tree)", "klavier-helper", "serdo 0.1.7 (its channels, thread start, files and clock go to the simulator)", "rusqlite and SQLite 3 (own VFS)", "bincode", "serde_json"],
            "simulated_components": ["OS thread scheduler (one real thread at a time, seeded choice)", "std::sync::mpsc channels", "clock and sleep", "file system and disk (volatile and durable content kept apart)"],
            "alarms_of_other_properties": others,
            "known_findings_replayed": known,
        },
        "assumptions": [
            "Kills and disk errors stay out of the short windows in which serdo 0.1.7 is known to be unsafe, and saved()/redo are judged as its known weaknesses allow; those are the findings in known_findings.txt, replayed by fixed probes.",
            "Values come from the documented domains (see DESIGN.md).",
        ],
        "wall_s": wall, "violations": ours.len(),
    });
    let evd = root.join("evidence");
    std::fs::create_dir_all(&evd).expect("evidence");
    std::fs::write(evd.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).expect("json")).expect("evidence");
    println!("{id} {tier}: {} runs ({} exercising it), {} interleavings, {} project states, {:.0} s simulated, {:.1} s", r.runs, r.exercised, traces.len(), states.len(), r.sim_ns as f64 / 1e9, wall);
    for (k, v) in &others { println!("note: alarm of other properties: {k} x{v}"); }
    for l in &lines { println!("{l}"); }
    if std::env::var_os("KSIM_KEEP").is_none() { let _ = std::fs::remove_dir_all(&dir); }
    if ours.is_empty() { 0 } else { 1 }
}

/// Whether the violation shows when the file's runs are made in a new process.
fn shows(f: &Found, id: &str, dir: &Path, exe: &Path) -> bool {
    let p = dir.join("shows.json");
    std::fs::write(&p, serde_json::to_vec(f).expect("json")).expect("write");
    run_timed(exe, &["shows", p.to_str().expect("path"), id], 60)
}

/// shows FILE ID: exit 0 if the violation shows.
pub fn shows_file(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let f: Found = serde_json::from_slice(&std::fs::read(&a[0]).expect("in")).expect("in");
    for p in &f.before { run_plan(p, false); }
    let o = run_plan(&f.plan, false);
    if o.viols.iter().any(|x| x.class == f.viol.class && x.props.iter().any(|p| p == f.key(&a[1]))) { 0 } else { 4 }
}

/// A violation that does not show when its run is made alone: something outlives a run in the process. Find the runs
/// that have to go before it.
fn after_others(f: &Found, id: &str, dir: &Path, exe: &Path, prior: &dyn Fn(u64) -> Plan) -> Found {
    let end = Instant::now() + Duration::from_secs(90);
    let mut g = f.clone();
    if shows(&g, id, dir, exe) { return g; }
    let mut n = 1;
    loop {
        let from = f.k.saturating_sub(n * WORKERS as u64).max(f.first);
        g.before = (from..f.k).step_by(WORKERS).map(|k| prior(k)).collect();
        if shows(&g, id, dir, exe) { break; }
        if from == f.first || Instant::now() > end { return g; }
        n *= 4;
    }
    // Fewer.
    let mut size = (g.before.len() + 1) / 2;
    while size > 0 && Instant::now() < end {
        let mut i = 0;
        while i < g.before.len() && Instant::now() < end {
            let mut h = g.clone();
            let e = (i + size).min(h.before.len());
            h.before.drain(i..e);
            if shows(&h, id, dir, exe) { g = h; } else { i += size; }
        }
        if size == 1 { break; }
        size = (size + 1) / 2;
    }
    g
}

/// Which failures of single projects come from the other projects of the process: those that do not show when the
/// history of the failing project is run alone.
fn interference(all: &mut [Found], dir: &Path, exe: &Path) {
    let mut left = 12;
    let mut done: BTreeMap<String, u32> = BTreeMap::new();
    for f in all.iter_mut() {
        if f.endless || f.viol.props.iter().any(|p| p == "C14") || left == 0 { continue; }
        let n = done.entry(f.viol.class.clone()).or_default();
        if *n >= 3 { continue; }
        let Some(p) = alone(&f.plan, &f.viol.class, f.viol.uid) else { continue };
        *n += 1;
        left -= 1;
        let id = f.viol.props[0].clone();
        let single = Found { plan: p, ..f.clone() };
        if shows(&single, &id, dir, exe) { continue; }
        f.viol.props.push("C14".into());
        f.viol.text = format!("a project is affected by others in the same process: {}", f.viol.text);
        f.shows_as = Some(id);
    }
}

/// The listed findings of one property: replay each and report whether it still fails as listed.
fn probes(id: &str, root: &Path, exe: &Path) -> Vec<String> {
    let mut out = vec![];
    let text = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    for l in text.lines().filter(|l| l.starts_with("finding: ")) {
        let Some((head, what)) = l["finding: ".len()..].split_once(": ") else { continue };
        let w: Vec<&str> = head.split(' ').collect();
        if w.get(1).and_then(|x| x.strip_prefix("property=")) != Some(id) { continue; }
        let Some(file) = w.get(2).and_then(|x| x.strip_prefix("probe=")) else { continue };
        if run_timed(exe, &["probe", root.join(file).to_str().expect("path"), id], 60) {
            println!("KNOWN-FINDING: property={id} {}: {what}", w[0]);
            out.push(format!("{}: {what}", w[0]));
        } else { println!("note: the listed finding {} does not show in its probe any more", w[0]); }
    }
    out
}

/// probe FILE ID: exit 0 if the plan fails in one of the listed ways.
pub fn probe(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[0]).expect("probe file")).expect("probe file");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let classes: Vec<String> = serde_json::from_value(v["class"].clone()).expect("class");
    let o = run_plan(&plan, false);
    if o.viols.iter().any(|x| x.props.contains(&a[1]) && classes.contains(&x.class)) { 0 } else { 4 }
}

fn run_timed(exe: &Path, args: &[&str], secs: u64) -> bool {
    let Ok(mut c) = std::process::Command::new(exe).args(args).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn() else { return false };
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => return s.success(),
            Ok(None) if t.elapsed() < Duration::from_secs(secs) => std::thread::sleep(Duration::from_millis(50)),
            _ => { let _ = c.kill(); let _ = c.wait(); return false; }
        }
    }
}

fn replay_json(f: &Found, id: &str, log: &[String]) -> Vec<u8> {
    serde_json::to_vec_pretty(&serde_json::json!({
        "property": id, "class": f.viol.class, "what": f.viol.text, "props": f.viol.props, "uid": f.viol.uid, "endless": f.endless,
        "trace": f.trace, "plan": f.plan, "before": f.before, "shows_as": f.shows_as, "how": "run: ./check.sh replay FILE (in /verif)", "schedule_and_fault_log": log,
    })).expect("json")
}

/// minimize IN OUT ID SECS
pub fn minimize_file(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let f: Found = serde_json::from_slice(&std::fs::read(&a[0]).expect("in")).expect("in");
    let key = f.key(&a[2]).to_string();
    if !run_plan(&f.plan, false).viols.iter().any(|x| x.class == f.viol.class && x.props.contains(&key)) { return 1; }
    let (plan, _) = minimize(&f.plan, &f.viol, &key, a[3].parse().expect("secs"));
    let o = run_plan(&plan, true);
    let Some(v) = o.viols.iter().find(|x| x.class == f.viol.class && x.props.contains(&key)).cloned() else { return 1 };
    let n = o.log.len().saturating_sub(4000);
    std::fs::write(&a[1], replay_json(&Found { plan, viol: v, trace: o.trace, ..f }, &a[2], &o.log[n..])).expect("out");
    0
}

/// replay FILE
pub fn replay(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[0]).expect("replay file")).expect("replay file");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let id = v["property"].as_str().unwrap_or("?").to_string();
    let file = a[0].clone();
    if v["endless"].as_bool() == Some(true) {
        let (id, file) = (id.clone(), file.clone());
        CUR.store(1, Ordering::Relaxed);
        watchdog(RUN_SECS, move |_| {
            println!("VIOLATION property={id} replay={file}\n  endless: {} does not end", NOW.lock().map(|o| *o).unwrap_or("?"));
            unsafe { libc::_exit(1) };
        });
    }
    let log = std::env::var_os("KSIM_LOG").is_some();
    let before: Vec<Plan> = serde_json::from_value(v["before"].clone()).unwrap_or_default();
    for p in &before { run_plan(p, false); }
    let o = run_plan(&plan, log);
    let key = v["shows_as"].as_str().unwrap_or(&id).to_string();
    if log { for l in &o.log { println!("{l}"); } }
    let class = v["class"].as_str().unwrap_or("");
    for x in &o.viols { println!("{} {}: {}", x.props.join("+"), x.class, x.text); }
    println!("trace {} recorded {}", o.trace, v["trace"]);
    if o.viols.iter().any(|x| x.class == class && x.props.iter().any(|p| *p == key)) {
        println!("VIOLATION property={id} replay={file}");
        return 1;
    }
    println!("not reproduced");
    0
}

/// one PROFILE SEED [log] | one plan FILE ops
pub fn one(a: &[String]) -> i32 {
    quiet_panics();
    let plan = if a[0] == "plan" { serde_json::from_slice(&std::fs::read(&a[1]).expect("plan")).expect("plan") } else { gen::plan(a[1].parse().expect("seed"), &a[0], false) };
    let mode = a.get(2).map(|s| s.as_str()).unwrap_or("");
    if mode == "ops" {
        limit_memory();
        std::thread::spawn(|| { let mut l = ""; loop { let n = NOW.lock().map(|o| *o).unwrap_or("?"); if n != l { println!("{n}"); l = n; } std::thread::sleep(Duration::from_micros(200)); } });
    }
    if mode == "plan" { println!("{}", serde_json::to_string_pretty(&plan).expect("json")); return 0; }
    let o = run_plan(&plan, mode == "log");
    for l in &o.log { println!("{l}"); }
    if mode == "viols" { for v in &o.viols { println!("VIOL {}", serde_json::to_string(v).expect("json")); } return 0; }
    for v in &o.viols { println!("{} {} (step {}): {}", v.props.join("+"), v.class, v.uid, v.text); }
    println!("{} trace {:x} steps {} switches {} disk {} sim {} us max {}", brief(&plan), o.trace, o.stats.steps, o.stats.switches, o.stats.disk_ops, o.stats.sim_ns / 1000, o.max_steps);
    println!("{:?}\n{:?}\n{:?}", o.cnt, o.stats.faults, o.stats.kills);
    0
}

/// hunt PROFILE COUNT STRICT PROP OUTDIR: search with the allowances named in STRICT ("windows", "redo", "saved",
/// "errors") taken away, and keep one short plan per kind of violation of PROP (to make known-finding probes).
pub fn hunt(a: &[String]) -> i32 {
    quiet_panics();
    limit_memory();
    let strict: Vec<String> = a[2].split(',').map(|s| s.to_string()).collect();
    let mut seen: BTreeMap<String, u64> = BTreeMap::new();
    for k in 0..a[1].parse::<u64>().expect("count") {
        let mut p = gen::plan(mix(4711, k), &a[0], false);
        p.open_windows = strict.iter().any(|s| s == "windows");
        p.strict = strict.iter().filter(|s| *s != "windows").cloned().collect();
        let o = run_plan(&p, false);
        for v in o.viols.iter().filter(|v| v.props.contains(&a[3])) {
            let c = seen.entry(format!("{} {}", v.class, v.props.join("+"))).or_default();
            *c += 1;
            if *c > 1 { continue; }
            let (plan, viol) = minimize(&p, v, &a[3], 15);
            println!("{}: {} -- {}", viol.class, viol.text, brief(&plan));
            let f = Path::new(&a[4]).join(format!("{}-{}.json", a[3], viol.class.replace(' ', "-")));
            std::fs::write(f, serde_json::to_vec_pretty(&serde_json::json!({"property": a[3], "class": [viol.class], "what": viol.text, "plan": plan})).expect("json")).expect("write");
        }
    }
    println!("{seen:?}");
    0
}

/// hashes PROFILE COUNT [back]: one line per seed, to compare executions across processes.
pub fn hashes(a: &[String]) -> i32 {
    quiet_panics();
    let n: u64 = a[1].parse().expect("count");
    let mut out: Vec<(u64, u64)> = vec![];
    let order: Vec<u64> = if a.len() > 2 { (0..n).rev().collect() } else { (0..n).collect() };
    for k in order { out.push((k, run_plan(&gen::plan(mix(99, k), &a[0], false), false).trace)); }
    out.sort();
    for (k, t) in out { println!("{k} {t:x}"); }
    0
}
