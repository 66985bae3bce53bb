//! Seeded workload generation. A profile chooses how often each kind of operation, fault and crash occurs.
use crate::model::*;
use crate::plan::*;
use crate::raw::*;
use simrt::rng::{mix, Rng};

pub const PROFILES: [&str; 13] = ["edit", "undo", "store", "crash", "fault", "events", "bars", "clip", "tuplet", "copy", "fixture", "stall", "score"];

#[derive(Clone, Copy, PartialEq, Eq)]
enum K {
    AddNote, AddBar, AddTempo, AddDumper, AddSoft, Bulk, Again, Remove, Change, Tuplize, Rhythm, Key, Grid, Undo, Redo, Clear, Poll, Wait, Settle,
    Sleep, Reopen, SaveAs, Crash, ArmKill, Paste, Corrupt, Fault, Stall, Lat, Sched, Query, Fixture, Score,
}
use K::*;

const EDITS: [(K, u32); 13] = [(AddNote, 14), (AddBar, 8), (AddTempo, 6), (AddDumper, 5), (AddSoft, 5), (Bulk, 8), (Again, 3), (Remove, 9), (Change, 22),
    (Tuplize, 4), (Rhythm, 3), (Key, 2), (Grid, 2)];

fn table(profile: &str) -> Vec<(K, u32)> {
    let mut t: Vec<(K, u32)> = EDITS.to_vec();
    let add: &[(K, u32)] = match profile {
        "edit" => &[(Undo, 6), (Redo, 4), (Clear, 4), (Poll, 6), (Settle, 2), (Reopen, 1), (Query, 4), (Sched, 2), (Paste, 2)],
        "undo" => &[(Undo, 26), (Redo, 20), (Clear, 2), (Poll, 12), (Settle, 6), (Reopen, 3), (Sched, 3), (Sleep, 1), (Paste, 2)],
        "store" => &[(Undo, 10), (Redo, 7), (Clear, 2), (Poll, 8), (Settle, 5), (Reopen, 12), (Sched, 3), (Stall, 3), (Lat, 2), (Wait, 2), (Sleep, 1)],
        "crash" => &[(Undo, 8), (Redo, 6), (Clear, 1), (Poll, 10), (Settle, 4), (Reopen, 4), (Crash, 6), (ArmKill, 8), (Sched, 3), (Stall, 2), (Lat, 2), (Wait, 1), (Query, 1)],
        "fault" => &[(Undo, 3), (Redo, 2), (Clear, 1), (Poll, 12), (Settle, 6), (Reopen, 8), (Fault, 12), (Crash, 1), (Sched, 2), (Stall, 1), (Lat, 1)],
        "events" => &[(Undo, 12), (Redo, 10), (Clear, 14), (Poll, 8), (Settle, 2), (Reopen, 6), (Sched, 2), (Paste, 2), (Tuplize, 6)],
        "bars" => &[(Undo, 9), (Redo, 7), (Clear, 1), (Poll, 8), (Settle, 2), (Reopen, 3), (Crash, 1), (Sched, 1), (Query, 26), (AddBar, 8), (AddTempo, 4), (Paste, 2)],
        "clip" => &[(Undo, 5), (Redo, 3), (Clear, 1), (Poll, 5), (Reopen, 2), (Paste, 26), (Corrupt, 26), (Sched, 1)],
        "tuplet" => &[(Undo, 12), (Redo, 9), (Clear, 3), (Poll, 8), (Settle, 2), (Reopen, 3), (Crash, 1), (Sched, 1), (Tuplize, 40), (AddNote, 12), (Bulk, 6)],
        "copy" => &[(Undo, 10), (Redo, 7), (Clear, 1), (Poll, 10), (Settle, 6), (Reopen, 6), (SaveAs, 14), (Crash, 3), (ArmKill, 2), (Sched, 3), (Stall, 1), (Wait, 1)],
        "fixture" => &[(Undo, 16), (Redo, 14), (Clear, 2), (Poll, 8), (Settle, 4), (Reopen, 8), (Fixture, 16), (Crash, 3), (ArmKill, 3), (Sched, 3), (Query, 3)],
        "stall" => &[(Undo, 6), (Redo, 5), (Clear, 1), (Poll, 8), (Settle, 3), (Reopen, 5), (Stall, 14), (Lat, 8), (Wait, 10), (Sleep, 5), (Sched, 5)],
        "score" => &[(Undo, 8), (Redo, 6), (Poll, 6), (Settle, 2), (Reopen, 4), (Crash, 1), (Score, 40), (Change, 6), (Query, 2), (Sched, 1)],
        _ => panic!("unknown profile {profile}"),
    };
    // Scores stay well formed for a while.
    if profile == "score" { for x in t.iter_mut() { if matches!(x.0, AddBar | Bulk) { x.1 = 2; } } }
    for (k, w) in add {
        match t.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 += *w, None => t.push((*k, *w)) }
    }
    t
}

pub struct Gen { r: Rng, dense: u64, base: u32, wild: bool, slots: u32, far: bool, mask: u8, coarse: bool, vast: bool }

impl Gen {
    fn tick(&mut self) -> u32 {
        if self.coarse && self.r.chance(15, 16) { return self.base + self.r.below(self.slots as u64) as u32 * 240; }
        let t = if self.r.chance(self.dense, 100) {
            let step = *self.r.pick(&[240u32, 240, 480, 960, 120]);
            self.r.below(self.slots as u64) as u32 * step
        } else if self.r.chance(1, 8) && self.far { self.r.below(if self.vast { 400_000 } else { 60_000 }) as u32 }
        else { self.r.below(6_000) as u32 };
        self.base + t
    }
    fn small(&mut self) -> i16 {
        match self.r.below(if self.wild { 12 } else { 9 }) {
            0..=5 => 0,
            6 | 7 => self.r.range(-20, 20) as i16,
            8 => self.r.range(-600, 600) as i16,
            9 => *self.r.pick(&[i16::MAX, i16::MIN, 20_000, -20_000, 127, -127]),
            _ => self.r.range(-32768, 32767) as i16,
        }
    }
    fn trims(&mut self) -> [i16; 4] {
        if self.r.chance(1, 2) { [0; 4] } else { [self.small(), self.small(), self.small(), self.small()] }
    }
    fn rate(&mut self) -> u16 {
        match self.r.below(6) { 0 | 1 | 2 => 1000, 3 => *self.r.pick(&[0u16, 500, 999, 1001, 1500, 2000, 1, 2001, 40000]), _ => self.r.range(0, 2000) as u16 }
    }
    pub fn note(&mut self) -> (RNote, Option<[u32; 4]>) {
        if self.coarse && self.r.chance(3, 4) {
            // Notes that are mostly alike.
            let mut n = RNote { base: self.tick(), solfa: 0, octave: 4, sf: 5, num: 2, den: 2, dots: 0, tie: false, tied: false, vel: 64, st: [0; 4],
                du: [1000; 4], ve: [0; 4], ch: 0 };
            match self.r.below(24) {
                0 => n.solfa = 1, 1 => n.octave = 3, 2 => n.sf = self.r.below(6) as u8, 3 => n.num = 3, 4 => n.den = 3, 5 => n.dots = 1, 6 => n.tie = true,
                7 => n.tied = true, 8 => n.vel = 65, 9 => n.st = [240, -240, 0, 0], 10 => n.st = [0, 0, 240, 0], 11 => n.du = [1000, 500, 2000, 1000],
                12 => n.du = [1000, 1000, 1000, 500], 13 => n.ve = [1, -1, 0, 0], 14 => n.ve = [0, 0, 0, 7], 15 => n.ch = 1, _ => (),
            }
            return (n, None);
        }
        let (solfa, octave, sf) = loop {
            let s = self.r.below(7) as u8;
            let o = if self.r.chance(1, 4) { self.r.range(-2, 8) as i8 } else { self.r.range(2, 5) as i8 };
            let f = if self.r.chance(1, 2) { 5 } else { self.r.below(6) as u8 };
            if pitch_ok(s, o, f) { break (s, o, f); }
        };
        let dots = if self.r.chance(2, 3) { 0 } else { self.r.below(8) as u8 };
        let den = match self.r.below(8) { 0..=5 => 2, 6 => self.r.range(2, 9) as u8, _ => if self.r.chance(1, 4) { *self.r.pick(&[255u8, 254, 128, 127, 100, 99, 64]) } else { self.r.range(2, 255) as u8 } };
        let du = if self.r.chance(1, 2) { [1000; 4] } else { [self.rate(), self.rate(), self.rate(), self.rate()] };
        let fl = if self.r.chance(1, 8) {
            let mut f = [0u32; 4];
            for x in f.iter_mut() {
                let v: f32 = match self.r.below(8) {
                    0 | 1 => 1.0,
                    2 => self.r.below(2001) as f32 / 1000.0,
                    3 => 1.0 / (1.0 + self.r.below(9) as f32),
                    4 => *self.r.pick(&[0.0f32, 2.0, -0.1, 2.5, f32::NAN]),
                    _ => self.r.below(2_000_000) as f32 / 1_000_000.0,
                };
                *x = v.to_bits();
            }
            Some(f)
        } else { None };
        let n = RNote {
            base: self.tick(), solfa, octave, sf,
            num: if self.r.chance(1, 2) { 2 } else { self.r.below(8) as u8 }, den, dots,
            tie: self.r.chance(1, 5), tied: self.r.chance(1, 5),
            vel: match self.r.below(12) { 0..=5 => 64, 6 => *self.r.pick(&[0u8, 127, 1, 126]), _ => self.r.below(128) as u8 },
            st: self.trims(), du, ve: self.trims(), ch: if self.r.chance(1, 2) { 0 } else { self.r.below(16) as u8 },
        };
        (n, fl)
    }
    fn rhythm(&mut self) -> (u8, u8) {
        match self.r.below(10) {
            0..=7 => *self.r.pick(&[(4u8, 4u8), (3, 4), (6, 8), (2, 4), (5, 8), (7, 16), (2, 2), (12, 8), (3, 2)]),
            8 => (self.r.range(1, 99) as u8, *self.r.pick(&[2u8, 4, 8, 16, 32, 64])),
            _ => *self.r.pick(&[(1u8, 64u8), (1, 32), (99, 2), (1, 2), (3, 64), (99, 64), (1, 4), (98, 64), (9, 16), (16, 16)]),
        }
    }
    fn key(&mut self) -> i8 { self.r.range(-7, 7) as i8 }
    fn reps(&mut self) -> u16 {
        if self.r.chance(1, 2) { return 0; }
        // Combinations without contradicting marks.
        let base = *self.r.pick(&[usize::MAX, 0, 1, 2, 4, 7, 8, 9, 10]);
        let mut m = if base == usize::MAX { 0 } else { 1u16 << base };
        if self.r.chance(1, 4) { m |= 1 << 3; }
        if self.r.chance(1, 4) { m |= 1 << 6; }
        if base < 7 && self.r.chance(1, 4) { m |= 1 << 5; }
        m
    }
    pub fn bar(&mut self) -> RBar {
        let tick = if self.wild && self.r.chance(1, 30) { *self.r.pick(&[u32::MAX, u32::MAX - 1, 4_000_000_000, 1 << 31, (1 << 31) - 1]) } else { self.tick() };
        RBar {
            tick, rhythm: if self.r.chance(1, 3) { Some(self.rhythm()) } else { None },
            key: if self.r.chance(1, 4) { Some(self.key()) } else { None }, reps: self.reps(),
        }
    }
    /// Bars whose marks make up a score with repeats, variations and jumps, mostly a well-formed one.
    fn score(&mut self) -> (Items, (u8, u8)) {
        let rhythm = *self.r.pick(&[(4u8, 4u8), (3, 4), (2, 4), (6, 8), (1, 4), (5, 8)]);
        let len = measure_len(rhythm);
        let mut t = self.base;
        let mut bars: Vec<RBar> = vec![];
        let bar = |tick, reps| RBar { tick, rhythm: None, key: None, reps };
        let any = 1 + self.r.below(len as u64 + 300) as u32;
        let first = if self.r.chance(1, 3) { *self.r.pick(&[len / 2, len / 4, len * 3 / 4, any]) } else { len };
        let at_top = self.base == 0 && self.r.chance(1, 6);
        if at_top {
            let mut b = bar(0, *self.r.pick(&[0u16, 0, 1, 1, 32, 33, 64]));
            if self.r.chance(1, 3) { b.rhythm = Some(self.rhythm()); }
            bars.push(b);
        }
        let most = if self.r.chance(1, 6) { 40 } else { 16 };
        let n = at_top as usize + 2 + self.r.below(most) as usize;
        let odd = self.r.chance(1, 4);
        while bars.len() < n {
            t += if t == self.base { first } else if odd && self.r.chance(1, 3) { 1 + self.r.below(2 * len as u64) as u32 } else { len };
            bars.push(bar(t, 0));
        }
        // Regions follow each other; `cur` is the bar line at which the last one ended.
        let mut cur: Option<usize> = if at_top && bars[0].reps & 1 != 0 { Some(0) } else { None };
        let mut bounds: Vec<usize> = vec![];
        for _ in 0..1 + self.r.below(6) {
            let kind = self.r.below(3);
            let begin = match cur {
                None if self.r.chance(2, 3) => 0,
                None => { if kind != 0 { bars[at_top as usize].reps |= 1; } at_top as usize + 1 }
                Some(j) => { if kind != 0 { bars[j].reps |= 1; } j + 1 }
            };
            let from = if cur.is_none() && begin == 0 { at_top as usize } else { begin };
            let mut ends = vec![];
            let mut j = from + self.r.below(3) as usize;
            ends.push(j);
            if kind == 2 { let more = if self.r.chance(1, 3) { 3 } else { 1 }; for _ in 0..2 + self.r.below(more) { j += 1 + self.r.below(2) as usize; ends.push(j); } }
            if j >= n { if kind != 0 && begin > 0 { bars[begin - 1].reps &= !1; } break; }
            match kind {
                0 => {}
                1 => bars[j].reps |= 2,
                _ => for k in 0..ends.len() - 1 { for x in ends[k]..ends[k + 1] { bars[x].reps = 1 << (7 + k); } },
            }
            bounds.push(j);
            cur = Some(j);
        }
        let free = |bars: &[RBar], k: usize| bars[k].reps & 0x780 == 0;
        if self.r.chance(3, 5) {
            // A jump, mostly at the end of a region or after the last one.
            let last = bounds.last().copied().unwrap_or(0);
            let d = match self.r.below(4) { 0 if !bounds.is_empty() => *self.r.pick(&bounds), 1 => n - 1, _ => last + self.r.below((n - last) as u64) as usize };
            let ds = self.r.chance(1, 2);
            if free(&bars, d) && bars[d].reps & 1 == 0 {
                bars[d].reps |= if ds { 16 } else { 4 };
                let mut low = 0;
                if ds && d > 0 { let s = self.r.below(d as u64) as usize; if free(&bars, s) { bars[s].reps |= 32; low = s; } }
                let mut spots: Vec<usize> = (0..3).map(|_| low + self.r.below((n - low) as u64) as usize).filter(|k| free(&bars, *k)).collect();
                spots.sort();
                spots.dedup();
                let fine = if self.r.chance(2, 3) { spots.pop() } else { None };
                if let Some(k) = fine { bars[k].reps |= 8; }
                if self.r.chance(1, 3) && spots.len() == 2 {
                    // The second one is where the tune ends, at times.
                    if let (Some(k), true) = (fine, self.r.chance(1, 6)) { spots[1] = k; }
                    bars[spots[0]].reps |= 64;
                    bars[spots[1]].reps |= 64;
                }
                if !ds && self.r.chance(1, 3) && d > 0 {
                    // Pickup and last bar make up a measure, or the last one is complete.
                    let prev = bars[d - 1].tick;
                    let want = if self.r.chance(1, 2) { len } else { len.saturating_sub(first) };
                    if want > 0 && (d + 1 == n || bars[d + 1].tick > prev + want) { bars[d].tick = prev + want; }
                }
            }
        }
        if self.r.chance(1, 5) { for _ in 0..1 + self.r.below(2) { let k = self.r.below(n as u64) as usize; bars[k].reps ^= 1 << self.r.below(11); } }
        if !self.r.chance(1, 4) {
            // Marks that contradict each other do not get into a project.
            for b in bars.iter_mut() {
                let v = b.reps & 0x780;
                if v != 0 { b.reps = (b.reps & 0x48) | (1 << v.trailing_zeros()); }
                if b.reps & 1 != 0 { b.reps &= !(4 | 16); }
                if b.reps & 4 != 0 { b.reps &= !(16 | 32); }
            }
        }
        (Items { bars, ..Items::default() }, rhythm)
    }
    pub fn tempo(&mut self) -> RTempo {
        if self.coarse && self.r.chance(3, 4) { return RTempo { tick: self.tick(), v: 120 + self.r.below(2) as u16 }; }
        RTempo { tick: self.tick(), v: if self.r.chance(1, 6) { *self.r.pick(&[1u16, 999, 998, 2, 120, 0]) } else { self.r.range(1, 999) as u16 } }
    }
    pub fn ctl(&mut self) -> RCtl {
        if self.coarse && self.r.chance(3, 4) { return RCtl { tick: self.tick(), vel: 127 * self.r.below(2) as u8, ch: self.r.below(2) as u8 }; }
        RCtl { tick: self.tick(), vel: if self.r.chance(1, 3) { *self.r.pick(&[0u8, 127, 64]) } else { self.r.below(128) as u8 }, ch: self.r.below(16) as u8 }
    }
    fn meta(&mut self) -> Meta {
        Meta { select: *self.r.pick(&[None, Some(true), Some(false)]), dragged: self.r.chance(1, 3) }
    }
    pub fn items(&mut self, n: u64) -> Items {
        let mut it = Items::default();
        for _ in 0..n {
            let k = self.r.below(10);
            match if self.mask & (1 << [0, 0, 0, 0, 0, 1, 1, 2, 3, 4][k as usize]) != 0 { k } else { [0, 5, 7, 8, 9][self.mask.trailing_zeros() as usize] } {
                0..=4 => { let x = self.note().0; it.notes.push(x) }
                5 | 6 => { let x = self.bar(); it.bars.push(x) }
                7 => { let x = self.tempo(); it.tempos.push(x) }
                8 => { let x = self.ctl(); it.dumpers.push(x) }
                _ => { let x = self.ctl(); it.softs.push(x) }
            }
        }
        if self.r.chance(1, 6) { if let Some(x) = it.notes.first().copied() { it.notes.push(x); } }
        it
    }
    fn sel(&mut self, kinds: u8, max: u64) -> Sel {
        let n = 1 + self.r.below(max);
        Sel {
            kinds, picks: (0..n).map(|_| self.r.u64() as u32).collect(), all: self.r.chance(1, 25),
            window: if self.r.chance(1, 3) { n as u32 + self.r.below(3) as u32 } else { 0 },
            same: self.r.chance(1, 5),
        }
    }
    fn kinds(&mut self) -> u8 {
        match self.r.below(8) { 0 => 1, 1 => 2, 2 => 4, 3 => 8, 4 => 16, _ => self.r.range(1, 31) as u8 }
    }
    fn mutation(&mut self) -> Mut {
        if self.r.chance(1, 8) { let n = 2 + self.r.below(3); return Mut::Each((0..n).map(|_| self.one_mutation()).collect()); }
        self.one_mutation()
    }
    fn one_mutation(&mut self) -> Mut {
        let dt = match self.r.below(6) {
            0 => 0,
            1 | 2 => *self.r.pick(&[240i32, -240, 480, -480, 960, -960, 120, -120]),
            3 => self.r.range(-100, 100) as i32,
            4 => self.r.range(-3000, 3000) as i32,
            _ => *self.r.pick(&[1i32, -1, 60, -60]),
        };
        match self.r.below(23) {
            20..=22 => Mut::Land { v: self.r.u64() as u32 },
            0..=6 => Mut::Drag { dt, ds: if self.r.chance(1, 2) { 0 } else { self.r.range(-9, 9) as i32 } },
            7 | 8 | 9 => Mut::AddTick { dt, trim: self.r.chance(1, 3) },
            10 | 11 => Mut::Rotate { by: 1 + self.r.below(3) as u32 },
            12 => Mut::Gather,
            13..=15 => Mut::Attr { which: self.r.below(20) as u8, v: self.r.u64() as u32 },
            16 => Mut::Nothing,
            _ => { let (n, fl) = self.note(); Mut::Replace { n, fl, b: self.bar(), t: self.tempo(), c: self.ctl() } }
        }
    }
    fn mode(&mut self) -> Mode { *self.r.pick(&[Mode::Kill, Mode::LoseAll, Mode::Prefix, Mode::Subset]) }
}

/// How far to go back or forward at once.
fn hops(r: &mut Rng) -> u32 {
    match r.below(30) { 0 => 100, 1..=5 => 1 + r.below(12) as u32, _ => 1 + r.below(3) as u32 }
}

pub fn plan(seed: u64, profile: &str, thorough: bool) -> Plan {
    let mut r = Rng::new(mix(seed, 77));
    let dense = *r.pick(&[40u64, 70, 90, 95]);
    let wild = r.chance(1, 2);
    let coarse = r.chance(1, 4);
    let slots = 2 + r.below(if coarse { 5 } else { 14 }) as u32;
    let far = r.chance(1, 2);
    let big = r.chance(1, 25);
    let huge = r.chance(1, 300);
    let high = r.chance(1, 16);
    // Some runs do without some kinds of item, others without some kinds of operation.
    let mask = if r.chance(1, 3) { r.range(1, 31) as u8 } else { 31 };
    let mut t = table(profile);
    if r.chance(1, 4) { for x in t.iter_mut() { if r.chance(1, 3) { x.1 = 0; } } }
    if t.iter().all(|x| x.1 == 0) { t[5].1 = 1; }
    let full = t.clone();
    for (k, b) in [(AddNote, 1), (AddBar, 2), (AddTempo, 4), (AddDumper, 8), (AddSoft, 16)] { if mask & b == 0 { for x in t.iter_mut() { if x.0 == k { x.1 = 0; } } } }
    if t.iter().all(|x| x.1 == 0) { t[5].1 = 1; }
    let mut g = Gen { dense, base: 0, wild, slots, far, mask, coarse, vast: false, r };
    g.vast = g.far && !high && g.r.chance(1, 12);
    let mut total: u32 = t.iter().map(|x| x.1).sum();
    let len = {
        let l = match g.r.below(10) { 0 | 1 => 4 + g.r.below(8), 2..=7 => 12 + g.r.below(28), _ => 40 + g.r.below(50) };
        let l = if g.r.chance(1, if thorough { 60 } else { 150 }) { 120 + g.r.below(300) } else { l };
        if thorough && g.r.chance(1, 4) { l * 2 } else { l }
    };
    let insts = if matches!(profile, "clip" | "copy") { 3 } else { 1 };
    let twin = insts > 1 && g.r.chance(1, 2);
    let limit = if profile == "crash" || profile == "store" || profile == "undo" || profile == "events" { *g.r.pick(&[1u32, 2, 3, 3, 4, 5, 5, 7, 10, 16, 40, 100]) } else { *g.r.pick(&[2u32, 3, 5, 10, 33, 100, 100]) };
    let mut steps: Vec<Step> = vec![];
    let mut uid = 1;
    let mut push = |steps: &mut Vec<Step>, inst: u8, op: Op| { steps.push(Step { uid, inst, op }); uid += 1; };
    if high {
        g.base = *g.r.pick(&[u32::MAX - 300_000, u32::MAX - 300_000, (1 << 31) - 1500, (1 << 24) - 700, 65_536 - 900, 32_768 - 400, 100_000]);
        let b = g.base + g.r.below(2000) as u32;
        push(&mut steps, 0, Op::AddBar { b: RBar { tick: b, rhythm: None, key: None, reps: 0 }, sel: false });
    }
    if profile == "fixture" { let idx = g.r.u64() as u32; push(&mut steps, 0, Op::Fixture { idx }); }
    else if g.r.chance(2, 3) {
        // A little music to start from.
        if twin { for i in 0..insts { if g.r.chance(1, 2) { let r = g.rhythm(); push(&mut steps, i, Op::SetRhythm { r }); } } }
        let mut first = None;
        for i in 0..insts {
            let n = 2 + g.r.below(10);
            let (items, meta) = match &first { Some(f) if twin => Clone::clone(f), _ => (g.items(n), g.meta()) };
            if first.is_none() { first = Some((items.clone(), meta)); }
            push(&mut steps, i, Op::BulkAdd { items, meta });
        }
    }
    if big || huge {
        let n = if huge { 1000 + g.r.below(2000) } else { 60 + g.r.below(240) };
        // Of all kinds, or many of one kind.
        let mask = g.mask;
        if g.r.chance(1, 2) { g.mask = *g.r.pick(&[1u8, 1, 2, 4, 8, 16]); }
        if g.r.chance(1, 2) { g.dense = 0; }
        let items = g.items(n);
        g.mask = mask;
        g.dense = dense;
        let meta = g.meta();
        push(&mut steps, 0, Op::BulkAdd { items, meta });
    }
    let masked_until = if g.r.chance(1, 3) { len } else { g.r.below(len + 1) };
    let faults_from = g.r.below(len / 2 + 1);
    for i in 0..len {
        if i == masked_until { g.mask = 31; t = full.clone(); total = t.iter().map(|x| x.1).sum(); }
        let mut x = g.r.below(total as u64) as u32;
        let mut k = t[0].0;
        for (kk, w) in &t { if x < *w { k = *kk; break; } x -= w; }
        let inst = if insts > 1 { g.r.below(insts as u64) as u8 } else { 0 };
        if profile == "fault" && i < faults_from && matches!(k, Fault) { k = Poll; }
        let op = match k {
            Score => {
                let (items, rhythm) = g.score();
                if g.r.chance(5, 6) { push(&mut steps, inst, Op::Remove { sel: Sel { kinds: 2, picks: vec![0], all: true, window: 0, same: false }, meta: g.meta() }); }
                if g.r.chance(5, 6) { push(&mut steps, inst, Op::SetRhythm { r: rhythm }); }
                Op::BulkAdd { items, meta: g.meta() }
            }
            AddNote => { let (n, fl) = g.note(); Op::AddNote { n, fl, sel: g.r.chance(1, 2) } }
            AddBar => Op::AddBar { b: g.bar(), sel: g.r.chance(1, 2) },
            AddTempo => Op::AddTempo { t: g.tempo(), sel: g.r.chance(1, 2) },
            AddDumper => Op::AddDumper { c: g.ctl(), sel: g.r.chance(1, 2) },
            AddSoft => Op::AddSoft { c: g.ctl(), sel: g.r.chance(1, 2) },
            Bulk => { let n = 1 + g.r.below(6); Op::BulkAdd { items: g.items(n), meta: g.meta() } }
            Again => { let k = g.kinds(); Op::AddAgain { sel: g.sel(k, 1), bulk: g.r.chance(1, 4), select: g.r.chance(1, 2) } }
            Remove => { let k = g.kinds(); Op::Remove { sel: g.sel(k, 4), meta: g.meta() } }
            Change => { let k = g.kinds(); Op::Change { sel: g.sel(k, 5), how: g.mutation(), meta: g.meta() } }
            Tuplize => {
                let mut s = g.sel(1, 6);
                if s.window == 0 && g.r.chance(1, 2) { s.window = s.picks.len() as u32 + 1; }
                Op::Tuplize { sel: s }
            }
            Rhythm => Op::SetRhythm { r: g.rhythm() },
            Key => Op::SetKey { k: g.key() },
            Grid => Op::SetGrid { g: *g.r.pick(&[1u32, 2, 7, 10, 15, 60, 120, 240, 480, 960, 65_536, u32::MAX - 1, u32::MAX]) },
            Undo => Op::Undo { n: hops(&mut g.r) },
            Redo => Op::Redo { n: hops(&mut g.r) },
            Clear => Op::Clear,
            Poll => Op::Poll,
            Wait => Op::WaitSaved,
            Settle => Op::Settle,
            Sleep => Op::Sleep { us: 1 + g.r.below(200_000) },
            Reopen => Op::Reopen {
                limit: if g.r.chance(1, 6) { Some(*g.r.pick(&[1u32, 2, 3, 5, 10, 100])) } else { None }, walk: g.r.chance(1, 3),
            },
            SaveAs => Op::SaveAs { to: ((inst as u64 + 1 + g.r.below(2)) % 3) as u8 },
            Crash => Op::Crash { mode: g.mode(), tear: g.r.chance(1, 2) },
            ArmKill => Op::ArmKill {
                after: match g.r.below(4) { 0 => g.r.below(12) as u32, 1 => g.r.below(60) as u32, _ => g.r.below(300) as u32 },
                disk_only: g.r.chance(3, 4), mode: g.mode(), tear: g.r.chance(1, 2),
            },
            Paste => {
                let k = g.kinds();
                Op::Paste { from: if insts > 1 { g.r.below(insts as u64) as u8 } else { 0 }, sel: g.sel(k, 8), tick: g.tick(), meta: g.meta(), text: *g.r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4]) }
            }
            Corrupt => { let k = g.kinds(); Op::Corrupt { sel: g.sel(k, 5), kind: g.r.below(16) as u8, a: g.r.u64() as u32, b: g.r.u64() as u32, text: *g.r.pick(&[0u8, 0, 0, 1, 1, 2, 3, 4]) } }
            Fault => Op::Fault {
                class: *g.r.pick(&[0u8, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8]), code: *g.r.pick(&[0u8, 0, 1, 2, 2]),
                after: match g.r.below(3) { 0 => g.r.below(4) as u32, 1 => g.r.below(20) as u32, _ => g.r.below(80) as u32 },
                span: *g.r.pick(&[1u32, 1, 2, 5, 1_000_000]),
            },
            Stall => Op::Stall { us: 1 + g.r.below(30_000_000) },
            Lat => Op::Lat { permille: *g.r.pick(&[0u32, 5, 50, 300]), max_us: 1 + g.r.below(2_000_000) },
            Sched => Op::Sched { client: *g.r.pick(&[0u32, 20, 200, 500, 900]), saver: *g.r.pick(&[0u32, 20, 100, 500, 900, 1000]) },
            Query => {
                let n = 2 + g.r.below(6);
                Op::Query { vals: (0..n).map(|_| match g.r.below(7) {
                    0 => g.r.below(20), 1 => g.r.below(2000), 2 => u32::MAX as u64 - g.r.below(3), 3 => u32::MAX as u64 + g.r.below(3),
                    4 => g.r.below(60_000), 5 => u64::MAX - g.r.below(3), _ => g.r.u64() >> g.r.below(64),
                }).collect() }
            }
            Fixture => Op::Fixture { idx: g.r.u64() as u32 },
        };
        if twin && inst == 0 && g.r.chance(3, 4) && matches!(k, AddNote | AddBar | AddTempo | AddDumper | AddSoft | Bulk | Again | Remove | Change | Tuplize | Undo | Redo | Clear) {
            // The same in the other projects, which differ in their settings.
            for j in 1..insts { push(&mut steps, j, op.clone()); }
        }
        push(&mut steps, inst, op);
    }
    let nested = (0..g.r.below(3)).map(|_| (g.r.below(40) as u32, g.mode())).collect();
    Plan { seed, profile: profile.into(), insts, limit, nested, open_windows: false, strict: vec![], lazy: insts == 1 && seed % 3 == 1, steps }
}
