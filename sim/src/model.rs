//! The reference model: what every edit, query and conversion has to yield, computed on plain data and independently
//! of the code under test.
use crate::raw::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Eq, Serialize, Deserialize)]
pub struct Items {
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub notes: Vec<RNote>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub bars: Vec<RBar>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub tempos: Vec<RTempo>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub dumpers: Vec<RCtl>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub softs: Vec<RCtl>,
}
impl Items {
    pub fn len(&self) -> usize { self.notes.len() + self.bars.len() + self.tempos.len() + self.dumpers.len() + self.softs.len() }
    pub fn sorted(&self) -> Items {
        let mut s = self.clone();
        s.notes.sort(); s.bars.sort(); s.tempos.sort(); s.dumpers.sort(); s.softs.sort();
        s
    }
    pub fn min_tick(&self) -> Option<u32> {
        self.notes.iter().map(|n| n.base).chain(self.bars.iter().map(|b| b.tick)).chain(self.tempos.iter().map(|b| b.tick))
            .chain(self.dumpers.iter().map(|b| b.tick)).chain(self.softs.iter().map(|b| b.tick)).min()
    }
    /// Everything shifted so that the earliest item starts at `tick`.
    pub fn moved_to(&self, tick: u32) -> Items {
        let mut s = self.clone();
        let Some(m) = self.min_tick() else { return s };
        let f = |t: &mut u32| *t = (*t as i64 - m as i64 + tick as i64) as u32;
        s.notes.iter_mut().for_each(|n| f(&mut n.base));
        s.bars.iter_mut().for_each(|n| f(&mut n.tick));
        s.tempos.iter_mut().for_each(|n| f(&mut n.tick));
        s.dumpers.iter_mut().for_each(|n| f(&mut n.tick));
        s.softs.iter_mut().for_each(|n| f(&mut n.tick));
        s
    }
}

pub fn measure_len(r: (u8, u8)) -> u32 { r.0 as u32 * 960 / r.1 as u32 }

pub fn dur_len(num: u8, den: u8, dots: u8) -> u32 {
    let len: u32 = if num <= 2 { 240 << (2 - num) } else { 240 >> (num - 2) };
    if dots == 0 && den == 2 { len } else { (2 * len - (len >> dots)) * 2 / den as u32 }
}

pub fn rate_sum(du: &[u16; 4]) -> u16 {
    let f = |v: u16| v as f32 / 1000.0;
    let p = f(du[0]) * f(du[1]) * f(du[2]) * f(du[3]);
    if p < 0.0 { 0 } else if p > 2.0 { 2000 } else { (p * 1000.0) as i32 as u16 }
}

pub fn tsum(v: &[i16; 4]) -> i64 { v.iter().map(|x| *x as i64).sum() }

pub fn start_of(n: &RNote) -> u32 { (n.base as i64 + tsum(&n.st)).max(0) as u32 }
pub fn note_len(n: &RNote) -> u32 { (dur_len(n.num, n.den, n.dots) as i64 * rate_sum(&n.du) as i64 / 1000) as u32 }

const PITCH_OFF: [i64; 7] = [0, 2, 4, 5, 7, 9, 11];
const SF_OFF: [i64; 6] = [1, 2, -1, -2, 0, 0];

pub fn pitch_value(solfa: u8, octave: i8, sf: u8) -> i64 { PITCH_OFF[solfa as usize] + (octave as i64 + 2) * 12 + SF_OFF[sf as usize] }
pub fn pitch_ok(solfa: u8, octave: i8, sf: u8) -> bool { (0..=127).contains(&pitch_value(solfa, octave, sf)) }
pub fn score_of(n: &RNote) -> i64 { n.solfa as i64 + 7 * (n.octave as i64 + 2) }

pub fn derive(n: &RNote) -> Derived {
    [start_of(n) as i64, note_len(n) as i64, (n.vel as i64 + tsum(&n.ve)).clamp(0, 127), pitch_value(n.solfa, n.octave, n.sf), score_of(n),
     tsum(&n.st), tsum(&n.ve), rate_sum(&n.du) as i64]
}

pub fn valid_note(n: &RNote) -> bool {
    pitch_ok(n.solfa, n.octave, n.sf) && n.den >= 2 && n.dots <= 7 && n.num <= 7 && n.vel <= 127 && n.ch < 16 && n.du.iter().all(|d| *d <= 2000)
}
pub fn valid_rhythm(r: (u8, u8)) -> bool { (1..=99).contains(&r.0) && matches!(r.1, 2 | 4 | 8 | 16 | 32 | 64) }
pub fn valid_key(k: i8) -> bool { (-7..=7).contains(&k) }

impl Proj {
    pub fn latest<T: Copy>(v: &[(u32, T)], tick: u32) -> Option<(u32, T)> { v.iter().filter(|x| x.0 <= tick).max_by_key(|x| x.0).copied() }
    pub fn rhythm_at(&self, tick: u32) -> (u8, u8) {
        self.bars.iter().filter(|b| b.0 <= tick && b.1.rhythm.is_some()).max_by_key(|b| b.0).and_then(|b| b.1.rhythm).unwrap_or(self.rhythm)
    }
    pub fn key_at(&self, tick: u32) -> i8 {
        self.bars.iter().filter(|b| b.0 <= tick && b.1.key.is_some()).max_by_key(|b| b.0).and_then(|b| b.1.key).unwrap_or(self.key)
    }
    pub fn tempo_at(&self, tick: u32) -> u16 { Self::latest(&self.tempos, tick).map_or(120, |t| t.1.v) }
    pub fn dumper_at(&self, tick: u32) -> u8 { Self::latest(&self.dumpers, tick).map_or(0, |t| t.1.vel) }
    pub fn soft_at(&self, tick: u32) -> u8 { Self::latest(&self.softs, tick).map_or(0, |t| t.1.vel) }

    /// The position of a tick: bar number (from 1; 0 before the first bar) and offset.
    pub fn locate(&self, tick: u32) -> (usize, usize) {
        let n = self.bars.iter().filter(|b| b.0 <= tick).count();
        let from = self.bars.iter().filter(|b| b.0 <= tick).map(|b| b.0).max().unwrap_or(0);
        (n, (tick - from) as usize)
    }
    /// The tick of a position, or None if it lies beyond the representable range.
    pub fn tick_of(&self, bar: usize, off: usize) -> Option<u32> {
        let t: u128 = if bar == 0 { off as u128 }
            else if bar <= self.bars.len() { self.bars[bar - 1].0 as u128 + off as u128 }
            else {
                let (n, last) = match self.bars.last() { Some(b) => (self.bars.len(), b.0), None => (0, 0) };
                let len = if self.bars.is_empty() { measure_len(self.rhythm) } else { measure_len(self.rhythm_at(last)) };
                (bar as u128 - n as u128) * len as u128 + off as u128 + last as u128
            };
        u32::try_from(t).ok()
    }

    pub fn music_end(&self) -> u32 {
        let n = self.notes.iter().map(|n| n.0 + note_len(&n.1)).max().unwrap_or(0);
        let l = |v: &Vec<(u32, RCtl)>| v.last().map_or(0, |x| x.0);
        n.max(self.tempos.last().map_or(0, |x| x.0)).max(l(&self.dumpers)).max(l(&self.softs))
    }
    /// Bars that have to be appended so that they extend to the end of the music.
    pub fn missing_bars(&self) -> Vec<RBar> {
        let mut t = self.bars.last().map_or(0, |b| b.0);
        let end = self.music_end();
        let step = measure_len(self.rhythm_at(t));
        let mut v = vec![];
        while t < end { t += step; v.push(RBar { tick: t, rhythm: None, key: None, reps: 0 }); }
        v
    }
    pub fn replenish(&mut self) { for b in self.missing_bars() { self.bars.push((b.tick, b)); } }

    pub fn rederive(&mut self) {
        self.notes.sort();
        self.derived = self.notes.iter().map(|n| derive(&n.1)).collect();
    }

    /// Remove, then place, items as an edit does. Notes are a bag; the others hold one item per tick.
    pub fn apply(&mut self, removed: &Items, added: &Items) {
        for n in &removed.notes {
            let k = (start_of(n), *n);
            if let Some(i) = self.notes.iter().position(|x| *x == k) { self.notes.remove(i); }
        }
        fn del<T>(v: &mut Vec<(u32, T)>, t: u32) { v.retain(|x| x.0 != t); }
        fn put<T>(v: &mut Vec<(u32, T)>, t: u32, x: T) {
            del(v, t);
            let i = v.partition_point(|e| e.0 < t);
            v.insert(i, (t, x));
        }
        for b in &removed.bars { del(&mut self.bars, b.tick); }
        for b in &removed.tempos { del(&mut self.tempos, b.tick); }
        for b in &removed.dumpers { del(&mut self.dumpers, b.tick); }
        for b in &removed.softs { del(&mut self.softs, b.tick); }
        for n in &added.notes { self.notes.push((start_of(n), *n)); }
        for b in &added.bars { put(&mut self.bars, b.tick, *b); }
        for b in &added.tempos { put(&mut self.tempos, b.tick, *b); }
        for b in &added.dumpers { put(&mut self.dumpers, b.tick, *b); }
        for b in &added.softs { put(&mut self.softs, b.tick, *b); }
        self.rederive();
    }

    pub fn all_items(&self) -> Items {
        Items {
            notes: self.notes.iter().map(|x| x.1).collect(), bars: self.bars.iter().map(|x| x.1).collect(),
            tempos: self.tempos.iter().map(|x| x.1).collect(), dumpers: self.dumpers.iter().map(|x| x.1).collect(),
            softs: self.softs.iter().map(|x| x.1).collect(),
        }
    }
}

fn unit(num: u8, dots: u8) -> u32 { let len = 1u32 << (8 - num); 2 * len - (len >> dots) }
fn gcd(a: u32, b: u32) -> u32 { if b == 0 { a } else { gcd(b, a % b) } }

/// Grouping notes into a tuplet. None: a grouping that cannot be represented leaves the notes as they are.
pub fn tuplet(notes: &[RNote]) -> Option<Vec<RNote>> {
    let mut v = notes.to_vec();
    v.sort_by_key(|n| n.base);
    let mut elems: Vec<Vec<RNote>> = vec![];
    for n in v {
        match elems.last_mut() { Some(e) if e[0].base == n.base => e.push(n), _ => elems.push(vec![n]) }
    }
    // The shortest note of those sounding together sets the pace.
    let shortest: Vec<RNote> = elems.iter().map(|e| *e.iter().min_by_key(|n| dur_len(n.num, 2, n.dots)).expect("note")).collect();
    let tick: u64 = shortest.iter().map(|n| dur_len(n.num, 2, n.dots) as u64).sum();
    // Two values of equal length may differ in nominal units only below tick resolution; the pace then follows the last one.
    let pace: Vec<u32> = elems.iter().map(|e| {
        let m = e.iter().map(|n| dur_len(n.num, 2, n.dots)).min().expect("note");
        let l = e.iter().rev().find(|n| dur_len(n.num, 2, n.dots) == m).expect("note");
        unit(l.num, l.dots)
    }).collect();
    let total: u64 = pace.iter().map(|u| *u as u64).sum();
    let smallest = elems.iter().flatten().map(|n| unit(n.num, n.dots)).reduce(gcd)? as u64;
    let den = total / smallest;
    if !(2..=255).contains(&den) { return None; }
    let tick = tick / den * 2;
    let start = elems[0][0].base as u64;
    let mut u = 0u64;
    let mut out = vec![];
    for (e, p) in elems.iter().zip(pace.iter()) {
        for n in e {
            let mut n = *n;
            n.base = (start + tick * u / total) as u32;
            n.den = den as u8;
            out.push(n);
        }
        u += *p as u64;
    }
    Some(out)
}
