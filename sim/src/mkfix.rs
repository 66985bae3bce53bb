//! Write project files and texts with the tree at hand (used once, on the released version).
use crate::exec::*;
use crate::fixture::Fixture;
use crate::gen;
use crate::model::Items;
use crate::plan::*;
use simrt::rng::{mix, Rng};

/// Leave out what only newer versions can represent faithfully.
fn plain(p: &mut Plan) {
    for s in p.steps.iter_mut() {
        match &mut s.op {
            Op::AddNote { fl, .. } => *fl = None,
            Op::Change { how: Mut::Replace { fl, .. }, .. } => *fl = None,
            _ => {}
        }
    }
}

/// Plans that between them use every kind of value there is.
fn catalogue() -> Vec<Plan> {
    use crate::model::pitch_ok;
    use crate::raw::*;
    let mut r = Rng::new(4711);
    let meta = |k: u64| Meta { select: [None, Some(true), Some(false)][(k % 3) as usize], dragged: k / 3 % 2 == 1 };
    let mut notes: Vec<RNote> = vec![];
    for o in -2..=8i8 { for s in 0..7u8 { for f in 0..6u8 {
        if !pitch_ok(s, o, f) { continue; }
        let k = notes.len();
        notes.push(RNote {
            base: k as u32 / 3 * 60, solfa: s, octave: o, sf: f, num: (k % 8) as u8, den: if k % 3 == 0 { 2 } else { 2 + (k * 7 % 254) as u8 }, dots: (k / 3 % 8) as u8,
            tie: k % 5 == 0, tied: k % 7 == 0, vel: (k * 3 % 128) as u8,
            st: [(k as i16 - 200) * 7 % 50, k as i16 % 11 - 5, 1, -1], du: [1000, (k * 5 % 2001) as u16, 900 + k as u16 % 200, 1000],
            ve: [k as i16 % 9 - 4, -1, 2, k as i16 % 3], ch: (k % 16) as u8,
        });
    } } }
    let mut bars: Vec<RBar> = vec![];
    let dens = [2u8, 4, 8, 16, 32, 64];
    for k in 0..60u32 {
        let reps = [0u16, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 1 | 32, 8 | 32, 64 | 32, 2 | 8];
        bars.push(RBar {
            tick: k * 480, rhythm: if k % 4 == 3 { None } else { Some(([1u8, 2, 3, 4, 5, 6, 7, 9, 12, 99][k as usize % 10], dens[k as usize % 6])) },
            key: if k % 5 == 4 { None } else { Some((k % 15) as i8 - 7) }, reps: reps[k as usize % 16],
        });
    }
    let tempos: Vec<RTempo> = (0..60u32).map(|k| RTempo { tick: k * 240, v: [1u16, 999, 120, 2, 998, 255, 256, 250, 251, 512][k as usize % 10].max((k * 17 % 1000) as u16).min(999).max(1) }).collect();
    let ctl = |n: u32, m: u32| -> Vec<RCtl> { (0..n).map(|k| RCtl { tick: k * 120 + m, vel: (k * m % 128) as u8, ch: ((k + m) % 16) as u8 }).collect() };
    let mut plans = vec![];
    for v in 0..6u64 {
        let mut uid = 0;
        let mut steps: Vec<Step> = vec![];
        let mut push = |op: Op| { uid += 1; steps.push(Step { uid, inst: 0, op }); };
        let sel = |kinds: u8, r: &mut Rng| Sel { kinds, picks: (0..4).map(|_| r.u64() as u32).collect(), all: false, window: 0, same: false };
        match v {
            0 | 1 => {
                let half: Vec<RNote> = notes.iter().skip(v as usize).step_by(2).copied().collect();
                for (k, c) in half.chunks(40).enumerate() { push(Op::BulkAdd { items: Items { notes: c.to_vec(), ..Default::default() }, meta: meta(k as u64) }); }
                for k in 0..8 { push(Op::Change { sel: sel(1, &mut r), how: Mut::Attr { which: 9 + k as u8, v: r.u64() as u32 }, meta: meta(k) }); }
                for k in 0..3 { push(Op::Remove { sel: sel(1, &mut r), meta: meta(k) }); }
                push(Op::Undo { n: 6 });
            }
            2 => {
                push(Op::BulkAdd { items: Items { bars: bars.clone(), ..Default::default() }, meta: meta(1) });
                for k in -7..=7i8 { push(Op::SetKey { k }); }
                for k in 0..12u8 { push(Op::SetRhythm { r: ([4u8, 3, 7, 1, 99, 12][k as usize % 6], dens[k as usize % 6]) }); }
                for g in [1u32, 15, 59, 61, 480, 1 << 20] { push(Op::SetGrid { g }); }
                for k in 0..6 { push(Op::Change { sel: sel(2, &mut r), how: Mut::Attr { which: k as u8, v: r.u64() as u32 }, meta: meta(k) }); }
                push(Op::Undo { n: 18 });
            }
            3 => {
                push(Op::SetRhythm { r: (5, 32) });
                push(Op::SetKey { k: 7 });
                for k in 0..30u64 { push(Op::AddBar { b: bars[(k * 7 % 60) as usize], sel: k % 2 == 0 }); }
                for k in 0..20u64 { push(Op::AddTempo { t: tempos[(k * 11 % 60) as usize], sel: k % 2 == 0 }); }
                push(Op::Undo { n: 40 });
            }
            4 => {
                push(Op::SetKey { k: -6 });
                push(Op::BulkAdd { items: Items { tempos: tempos.clone(), dumpers: ctl(128, 1), softs: ctl(128, 5), ..Default::default() }, meta: meta(2) });
                for k in 0..10u64 { push(Op::AddDumper { c: ctl(20, 3)[k as usize * 2], sel: k % 2 == 0 }); push(Op::AddSoft { c: ctl(20, 7)[k as usize * 2], sel: k % 2 == 1 }); }
                for k in 0..6 { push(Op::Change { sel: sel(28, &mut r), how: Mut::Drag { dt: 240, ds: 3 }, meta: meta(k) }); }
                push(Op::Undo { n: 9 });
            }
            _ => {
                push(Op::SetRhythm { r: (3, 2) });
                push(Op::SetKey { k: 1 });
                push(Op::BulkAdd {
                    items: Items { notes: notes.iter().step_by(9).skip(2).copied().chain((0..3).map(|k| RNote { base: k * 40, num: 2, den: 2, dots: 0, st: [0; 4], ..notes[k as usize] })).collect(), bars: bars.iter().step_by(5).copied().collect(), tempos: tempos.iter().step_by(6).copied().collect(),
                        dumpers: ctl(12, 2), softs: ctl(12, 4) },
                    meta: meta(3),
                });
                for k in 0..8 {
                    if k == 0 { push(Op::Tuplize { sel: Sel { kinds: 1, picks: vec![0, 8, 16], all: false, window: 3, same: false } }); }
                    push(Op::Change { sel: sel(31, &mut r), how: if k % 2 == 0 { Mut::Rotate { by: 1 } } else { Mut::Gather }, meta: meta(k) });
                    push(Op::Remove { sel: sel(31, &mut r), meta: meta(k + 1) });
                }
                push(Op::Undo { n: 11 });
            }
        }
        plans.push(Plan { seed: 1000 + v, profile: "edit".into(), insts: 1, limit: if v == 5 { 15 } else { 100 }, nested: vec![], open_windows: false, strict: vec![], lazy: false, steps });
    }
    plans
}

/// `DIR FIRST catalogue`: the files of the catalogue, numbered from FIRST.
fn make_catalogue(dir: &std::path::Path, first: usize) -> i32 {
    for (v, p) in catalogue().into_iter().enumerate() {
        simrt::start(p.seed, false);
        let mut w = World::new(&p);
        let Some((db, line, metas, pos, base, limit)) = w.for_fixture_or_say() else { return 1 };
        let cur = line[pos].clone();
        let all = cur.all_items();
        let mut texts: Vec<(String, Items, i8, (u8, u8))> = vec![];
        for t in 0..2u8 { texts.push((clip_text(&models_of(&all), t, cur.key, cur.rhythm), all.clone(), cur.key, cur.rhythm)); }
        let one = Items { bars: vec![crate::raw::RBar { tick: 1, rhythm: None, key: None, reps: 0 }], ..Default::default() };
        for k in 0..15usize {
            if k % 6 != v % 6 { continue; }
            for d in [2u8, 4, 8, 16, 32, 64] {
                let (key, rhythm) = (k as i8 - 7, ((k + 1) as u8, d));
                texts.push((clip_text(&models_of(&one), 1, key, rhythm), one.clone(), key, rhythm));
            }
        }
        let f = Fixture { name: format!("released-{:02}", first + v), db: vec![], limit, line, metas, pos, base, texts };
        std::fs::write(dir.join(format!("{}.json", f.name)), serde_json::to_vec(&f).expect("json")).expect("write");
        std::fs::write(dir.join(format!("{}.sqlite", f.name)), &db).expect("write");
        println!("{}: {} bytes, {} states, at {}, from {}, limit {}", f.name, db.len(), f.line.len(), pos, base, limit);
    }
    0
}

pub fn main(a: &[String]) -> i32 {
    quiet_panics();
    if a.get(2).map(|x| x == "catalogue").unwrap_or(false) { return make_catalogue(std::path::Path::new(&a[0]), a[1].parse().expect("number")); }
    let dir = std::path::PathBuf::from(&a[0]);
    let want: usize = a.get(1).and_then(|x| x.parse().ok()).unwrap_or(16);
    std::fs::create_dir_all(&dir).expect("dir");
    let mut n = 0;
    let mut k = 0u64;
    while n < want {
        k += 1;
        let mut p = gen::plan(mix(0xF1C5, k), ["undo", "store", "edit", "tuplet"][k as usize % 4], false);
        plain(&mut p);
        if p.steps.len() > 45 { continue; }
        simrt::start(p.seed, false);
        let Some((db, line, metas, pos, base, limit)) = World::new(&p).run_for_fixture() else { continue };
        if db.len() > 150_000 || line.len() < 2 || line[pos].items() < 3 { continue; }
        // Want undo steps and redo steps in most of them.
        if n % 3 != 0 && pos + 1 == line.len() { continue; }
        if n % 4 == 1 && base == 0 { continue; }
        let cur = line[pos].clone();
        let all = cur.all_items();
        let mut texts: Vec<(String, Items, i8, (u8, u8))> = vec![];
        let mut r = Rng::new(mix(7, k));
        for t in 0..4u8 {
            let mut it = all.clone();
            if t >= 2 { it.notes.retain(|_| r.chance(1, 2)); it.bars.retain(|_| r.chance(1, 2)); it.tempos.retain(|_| r.chance(1, 2)); }
            texts.push((clip_text(&models_of(&it), t % 2, cur.key, cur.rhythm), it, cur.key, cur.rhythm));
        }
        let f = Fixture { name: format!("released-{n:02}"), db: vec![], limit, line, metas, pos, base, texts };
        std::fs::write(dir.join(format!("{}.json", f.name)), serde_json::to_vec(&f).expect("json")).expect("write");
        std::fs::write(dir.join(format!("{}.sqlite", f.name)), &db).expect("write");
        println!("{}: {} bytes, {} states, at {}, from {}, limit {}", f.name, db.len(), f.line.len(), pos, base, limit);
        n += 1;
    }
    0
}
