//! The player's view of a project: the order in which its bars are played, worked out from docs/repeat/structure.md and
//! docs/repeat/order.md independently of the code under test, and compared with what rendering yields.
use crate::model::measure_len;
use crate::raw::RBar;
use klavier_core::bar::Bar;
use klavier_core::play_iter::PlayIter;
use klavier_core::play_start_tick::{PlayStartTick, ToAccumTickError};
use klavier_core::repeat::{render_region, Chunk};
use klavier_core::rhythm::Rhythm;
use simrt::rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};

const START: u16 = 1;
const END: u16 = 2;
const DC: u16 = 4;
const FINE: u16 = 8;
const DS: u16 = 16;
const SEGNO: u16 = 32;
const CODA: u16 = 64;

pub type Span = (u32, u32);

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// The stretches played, in playing order (more than one list: the documents leave it open which).
    Play(Vec<Vec<Span>>),
    /// Rejected because of one of these.
    Faults(Vec<String>),
    /// Neither well formed nor among the faults described: only that it ends without a crash.
    Open,
}

#[derive(Clone, Debug)]
enum Reg { Seq(u32, u32), Rep(u32, u32), Var(u32, Vec<u32>, u32) }
impl Reg {
    fn bounds(&self) -> Span { match self { Reg::Seq(a, b) | Reg::Rep(a, b) => (*a, *b), Reg::Var(a, _, b) => (*a, *b) } }
    fn full(&self) -> Vec<Span> {
        match self {
            Reg::Seq(a, b) => vec![(*a, *b)],
            Reg::Rep(a, b) => vec![(*a, *b); 2],
            Reg::Var(a, v, b) => {
                let mut out = vec![];
                for k in 0..v.len() {
                    out.push((*a, v[0]));
                    out.push((v[k], v.get(k + 1).copied().unwrap_or(*b)));
                }
                out
            }
        }
    }
    fn once(&self) -> Vec<Span> {
        match self {
            Reg::Seq(a, b) | Reg::Rep(a, b) => vec![(*a, *b)],
            Reg::Var(a, v, b) => vec![(*a, v[0]), (*v.last().expect("variation"), *b)],
        }
    }
}

fn var_no(r: u16) -> Option<usize> { (1..=4).find(|k| r & (1 << (6 + k)) != 0) }

/// Stretches that follow each other without a jump are one.
pub fn normal(v: &[Span]) -> Vec<Span> {
    let mut out: Vec<Span> = vec![];
    for s in v.iter().filter(|s| s.0 < s.1) {
        match out.last_mut() { Some(l) if l.1 == s.0 => l.1 = s.1, _ => out.push(*s) }
    }
    out
}

fn cut(s: Span, a: u32, b: u32) -> Span { let lo = s.0.max(a); (lo, s.1.min(b).max(lo)) }

/// Marks on one bar that contradict each other.
fn contradicting(r: u16) -> bool {
    let v = (r >> 7).count_ones();
    v > 1 || (v == 1 && r & (START | END) != 0) || (r & START != 0 && r & (DC | DS) != 0) || (r & DC != 0 && r & (DS | SEGNO) != 0)
}

pub fn expect(bars: &[RBar], tune: (u8, u8)) -> Expect {
    let mut regs: Vec<Reg> = vec![];
    let mut open = bars.iter().any(|b| contradicting(b.reps));
    let mut faults: Vec<String> = vec![];
    enum St { Plain(u32, bool), Rep(u32), Var(u32, Vec<u32>) }
    // Plain(start, true): nothing has been marked so far, a repeat may begin at the top without a sign.
    let mut st = St::Plain(0, true);
    let mut broken = false;
    for b in bars {
        let (t, r) = (b.tick, b.reps);
        if broken { break; }
        let (s, e) = (r & START != 0, r & END != 0);
        let v = var_no(r);
        let on = r & (DC | DS) != 0;
        let implicit = matches!(st, St::Plain(_, true));
        let mut fail = |f: String| { faults.push(f); broken = true; };
        // D.C. or D.S. inside a repeat or variation that begins at the top.
        let inside = bars.iter().find(|x| x.tick < t && x.reps & (DC | DS) != 0).filter(|_| implicit).map(|x| x.tick);
        st = match st {
            St::Plain(a, top) => {
                if e && top { if let Some(d) = inside { fail(format!("DcDsWhileRepeat {{ tick: {d} }}")); } regs.push(Reg::Rep(a, t)); if s { St::Rep(t) } else { St::Plain(t, false) } }
                else if e { fail(format!("OrphanRepeatEnd {{ tick: {t} }}")); St::Plain(a, top) }
                else if s { regs.push(Reg::Seq(a, t)); St::Rep(t) }
                else if let (Some(k), true) = (v, top) {
                    if k != 1 { fail(format!("InvalidRegionIndex {{ tick: {t}, actual: VI{k}, expected: VI1 }}")); }
                    if let Some(d) = inside { fail(format!("DcDsWhileVariation {{ tick: {d} }}")); }
                    if on { fail(format!("DcDsWhileVariation {{ tick: {t} }}")); }
                    St::Var(a, vec![t])
                }
                else { if v.is_some() { open = true; } St::Plain(a, top) }
            }
            St::Rep(a) => {
                if e { regs.push(Reg::Rep(a, t)); if s { St::Rep(t) } else { St::Plain(t, false) } }
                else if s { fail(format!("DuplicatedRepeatStart {{ tick: {t} }}")); St::Rep(a) }
                else if on { fail(format!("DcDsWhileRepeat {{ tick: {t} }}")); St::Rep(a) }
                else if let Some(k) = v {
                    if k != 1 { fail(format!("InvalidRegionIndex {{ tick: {t}, actual: VI{k}, expected: VI1 }}")); }
                    St::Var(a, vec![t])
                }
                else { St::Rep(a) }
            }
            St::Var(a, mut vs) => {
                if e { fail(format!("RepeatInVariation {{ tick: {t} }}")); St::Var(a, vs) }
                else if let Some(k) = v {
                    if on { fail(format!("DcDsWhileVariation {{ tick: {t} }}")); }
                    if k == vs.len() + 1 { vs.push(t); }
                    else if k != vs.len() {
                        // After the fourth there is no next one to be expected.
                        let next = (vs.len() + 1).min(4);
                        fail(format!("InvalidRegionIndex {{ tick: {t}, actual: VI{k}, expected: VI{next} }}"));
                    }
                    St::Var(a, vs)
                }
                else {
                    let last = *vs.last().expect("variation");
                    if bars.iter().any(|x| x.reps & SEGNO != 0 && vs[0] <= x.tick && x.tick < last) { fail(format!("SegnoWhildVariation {{ tick: {t} }}")); }
                    if vs.len() < 2 || a >= vs[0] { open = true; }
                    regs.push(Reg::Var(a, vs, t));
                    if s { St::Rep(t) } else { St::Plain(t, false) }
                }
            }
        };
    }
    if !broken {
        match &st {
            St::Plain(a, _) => regs.push(Reg::Seq(*a, u32::MAX)),
            St::Rep(a) => faults.push(format!("NoRepeatEnd {{ tick: {a} }}")),
            St::Var(_, v) => faults.push(format!("VariationNotClosed {{ tick: {} }}", v.last().expect("variation"))),
        }
    }
    // Signs that may stand only once.
    let ticks = |m: u16| -> Vec<u32> { bars.iter().filter(|b| b.reps & m != 0).map(|b| b.tick).collect() };
    let (jumps, fines, segnos, codas) = (ticks(DC | DS), ticks(FINE), ticks(SEGNO), ticks(CODA));
    if jumps.len() > 1 { faults.push(format!("DuplicatedDsDc {{ tick: [{}, {}] }}", jumps[0], jumps[1])); }
    if fines.len() > 1 { faults.push(format!("DuplicatedFine {{ tick: [{}, {}] }}", fines[0], fines[1])); }
    if segnos.len() > 1 { faults.push(format!("DuplicatedSegno {{ tick: [{}, {}] }}", segnos[0], segnos[1])); }
    if codas.len() > 2 { faults.push(format!("MoreThanTwoCodas {{ tick: [{}, {}, {}] }}", codas[0], codas[1], codas[2])); }
    let ds = !ticks(DS).is_empty();
    if ds && jumps.len() == 1 {
        if segnos.is_empty() { faults.push(format!("NoSegnoForDs {{ ds_tick: {} }}", jumps[0])); }
        if codas.len() == 1 { faults.push(format!("OnlyOneCoda {{ tick: {} }}", codas[0])); }
    }
    if !jumps.is_empty() && codas.len() == 2 && fines.len() == 1 && fines[0] < codas[1] {
        faults.push(format!("CodaAfterFine {{ coda_from: {}, coda_to: {}, fine: {} }}", codas[0], codas[1], fines[0]));
    }
    if open { return Expect::Open; }
    if !faults.is_empty() { return Expect::Faults(faults); }

    if jumps.is_empty() {
        if !(fines.is_empty() && segnos.is_empty() && codas.is_empty()) { return Expect::Open; }
        return Expect::Play(vec![normal(&regs.iter().flat_map(|r| r.full()).collect::<Vec<_>>())]);
    }
    let jump = jumps[0];
    if jump == 0 || (!ds && !segnos.is_empty()) || codas.len() == 1 { return Expect::Open; }
    for r in &regs { let (a, b) = r.bounds(); if !matches!(r, Reg::Seq(..)) && a < jump && jump < b { return Expect::Open; } }
    // Where the second pass begins.
    let back: Vec<u32> = if ds { vec![segnos[0]] } else {
        let top = bars.first().filter(|b| b.tick == 0).and_then(|b| b.rhythm).unwrap_or(tune);
        let full = measure_len(top);
        let first = bars.iter().map(|b| b.tick).find(|t| *t > 0).expect("bar");
        let last = jump - bars.iter().map(|b| b.tick).filter(|t| *t < jump).max().unwrap_or(0);
        if first >= full { vec![0] }
        else if last == full { vec![first] }
        else if last + first == full { vec![0] }
        else { vec![0, first] }
    };
    let fine = fines.first().copied();
    let end = fine.unwrap_or(u32::MAX);
    let mut plays = vec![];
    for p in back {
        if p >= jump || end <= p && fine.is_some() && ds { return Expect::Open; }
        if codas.len() == 2 && !(p < codas[0] && codas[1] < end) { return Expect::Open; }
        for r in &regs {
            let Reg::Var(_, v, _) = r else { continue };
            let (a, b) = (v[0], *v.last().expect("variation"));
            if fine.iter().chain(codas.iter()).chain(segnos.iter()).any(|t| a <= *t && *t <= b) { return Expect::Open; }
            if p >= a && p <= b { return Expect::Open; }
        }
        let mut out: Vec<Span> = vec![];
        for r in &regs {
            let (a, b) = r.bounds();
            if b <= jump { out.extend(r.full()); } else if a < jump { out.push((a, jump)); }
        }
        let keep: Vec<Span> = if codas.len() == 2 { vec![(p, codas[0]), (codas[1], end)] } else { vec![(p, end)] };
        for r in &regs { for s in r.once() { for k in &keep { out.push(cut(s, k.0, k.1)); } } }
        plays.push(normal(&out));
    }
    plays.dedup();
    Expect::Play(plays)
}

fn spans(c: &[Chunk]) -> Vec<Span> { c.iter().map(|c| (c.start_tick(), c.end_tick())).collect() }

fn brief(v: &[Span]) -> String {
    let f = |s: &Span| if s.1 == u32::MAX { format!("{}..", s.0) } else { format!("{}..{}", s.0, s.1) };
    let mut t: Vec<String> = v.iter().take(12).map(f).collect();
    if v.len() > 12 { t.push("..".into()); }
    t.join(" ")
}

fn marks(bars: &[RBar]) -> String {
    const N: [&str; 11] = ["|:", ":|", "D.C.", "Fine", "D.S.", "Segno", "Coda", "[1]", "[2]", "[3]", "[4]"];
    let f = |b: &RBar| format!("{}{}", b.tick, (0..11).filter(|k| b.reps & (1 << k) != 0).map(|k| format!(" {}", N[k])).collect::<String>());
    let shown: Vec<String> = bars.iter().filter(|b| b.reps != 0).take(14).map(f).collect();
    shown.join(", ")
}

/// What was found, under which property, and how the arrangement was classed.
#[derive(Default)]
pub struct Found { pub bad: Vec<(&'static str, &'static str, String)>, pub class: &'static str, pub positions: u64 }

pub fn check<'a>(bars: &[RBar], tune: (u8, u8), real: impl Iterator<Item = &'a Bar>, rhythm: Rhythm, rng: &mut Rng, text: impl Fn(&Box<dyn std::any::Any + Send>) -> String) -> Found {
    let mut f = Found::default();
    let exp = expect(bars, tune);
    let got = catch_unwind(AssertUnwindSafe(|| match render_region(rhythm, real) {
        Ok((r, _)) => { let c = r.to_chunks(); let o = Chunk::optimize(&c); Ok((c, o)) }
        Err(e) => Err(format!("{:?}", e.current_context())),
    }));
    let got = match got {
        Ok(g) => g,
        Err(e) => { f.bad.push(("C21", "rendering crashes", format!("rendering crashes: {} ({})", text(&e), marks(bars)))); return f; }
    };
    f.class = match &exp { Expect::Play(_) if bars.iter().all(|b| b.reps == 0) => "scores without signs", Expect::Play(_) => "scores played", Expect::Faults(_) => "scores rejected", Expect::Open => "scores outside the rules" };
    let (chunks, opt) = match (&exp, got) {
        (Expect::Play(p), Err(e)) => { f.bad.push(("C20", "well-formed score rejected", format!("{e}, but {} is to be played ({})", brief(&p[0]), marks(bars)))); return f; }
        (Expect::Faults(x), Ok((c, _))) => { f.bad.push(("C21", "faulty score played", format!("plays {}, but there is {} ({})", brief(&normal(&spans(&c))), x[0], marks(bars)))); return f; }
        (Expect::Faults(x), Err(e)) => {
            // With several faults it is open which one is met first, and one may hide or bring about others.
            if x.len() == 1 && !x.contains(&e) { f.bad.push(("C21", "wrong fault reported", format!("{e} is reported, expected {} ({})", x.join(" or "), marks(bars)))); }
            return f;
        }
        (Expect::Open, Err(_)) => return f,
        (_, Ok(x)) => x,
    };
    let (n, m) = (spans(&chunks), spans(&opt));
    if let Some(c) = n.iter().chain(m.iter()).find(|c| c.0 > c.1) { f.bad.push(("C21", "stretch ends before it begins", format!("{}..{} is played ({})", c.0, c.1, marks(bars)))); return f; }
    if let Expect::Play(p) = &exp {
        if !p.contains(&normal(&n)) { f.bad.push(("C20", "playing order", format!("plays {}, expected {} ({})", brief(&normal(&n)), brief(&p[0]), marks(bars)))); return f; }
    }
    if normal(&m) != normal(&n) { f.bad.push(("C20", "joined stretches", format!("joined: {}, single: {} ({})", brief(&m), brief(&n), marks(bars)))); return f; }
    if m.windows(2).any(|w| w[0].1 == w[1].0) { f.bad.push(("C20", "joined stretches", format!("{} are not joined", brief(&m)))); }

    // Positions in the performance. The open end does not count: nothing follows it.
    if normal(&n).len() > 1 && n.iter().rev().skip(1).any(|s| s.1 == u32::MAX) { return f; }
    let seq = normal(&n);
    let total: u64 = n.iter().map(|s| if s.1 == u32::MAX { 0 } else { (s.1 - s.0) as u64 }).sum();
    if total > u32::MAX as u64 { return f; }
    let mut ticks: Vec<u32> = vec![0, u32::MAX - 1];
    for _ in 0..3 {
        if let Some(s) = seq.get(rng.below(seq.len().max(1) as u64) as usize) {
            ticks.push(match rng.below(4) { 0 => s.0, 1 => s.1.saturating_sub(1), 2 => s.1, _ => s.0 + rng.below((s.1 - s.0).min(100_000) as u64) as u32 });
        }
        if !bars.is_empty() { ticks.push(bars[rng.below(bars.len() as u64) as usize].tick); }
    }
    ticks.sort();
    ticks.dedup();
    for ch in [&chunks, &opt] {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut bad = vec![];
            let table = Chunk::by_accum_tick(ch);
            for t in &ticks {
                if *t == u32::MAX { continue; }
                // The moments at which this tick sounds.
                let mut at: Vec<u64> = vec![];
                let mut off = 0u64;
                for s in &seq {
                    if s.0 <= *t && *t < s.1 { at.push(off + (*t - s.0) as u64); }
                    off += (s.1 - s.0) as u64;
                }
                // Somewhere beyond what a position can be: not asked for at all.
                if at.iter().any(|e| *e > u32::MAX as u64) { continue; }
                for k in 0..=6u8 {
                    let it = k.clamp(1, 5) as usize;
                    let e = at.get(it - 1).copied();
                    let mut from = PlayStartTick::new(*t, k);
                    if (*t ^ k as u32) % 3 == 0 {
                        // The number of times set afterwards: one outside 1 to 5 leaves it as it was.
                        from = PlayStartTick { tick: *t, iter: PlayIter::default() };
                        from.iter.set_iter(it as u8);
                        if from.iter.set_iter(k) != (1..=5).contains(&k) { bad.push(format!("setting the time to {k} is answered wrongly")); }
                    }
                    let g = from.to_accum_tick(&table);
                    match (e, &g) {
                        (Some(e), Ok(g)) if e == *g as u64 => {
                            // And back: what sounds at that moment.
                            let back = table.iter().rev().find(|c| c.0 <= *g).map(|c| (g - c.0) as u64 + c.1.start_tick() as u64);
                            if back != Some(*t as u64) { bad.push(format!("tick {t} sounds at {g}, but at {g} sounds {back:?}")); }
                        }
                        (None, Err(ToAccumTickError::CannotFind { specified_iter, max_iter })) if *max_iter as usize == at.len() && specified_iter.iter() as usize == it => {}
                        _ => bad.push(format!("time {it} of tick {t} is {g:?}, expected {e:?}")),
                    }
                }
            }
            bad
        }));
        f.positions += ticks.len() as u64;
        match r {
            Ok(b) => if let Some(b) = b.first() { f.bad.push(("C22", "position in the performance", format!("{b} (playing {}; {})", brief(&seq), marks(bars)))); break; },
            Err(e) => { f.bad.push(("C22", "position in the performance", format!("converting a position crashes: {} (playing {}; {})", text(&e), brief(&seq), marks(bars)))); break; }
        }
    }
    f
}
