//! Plain data mirror of everything a project contains, and the projection of real projects onto it.
use enumset::EnumSet;
use klavier_core::bar::{Bar, Repeat, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_helper::store::Store;
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RNote {
    pub base: u32,
    pub solfa: u8,
    pub octave: i8,
    pub sf: u8,
    pub num: u8,
    pub den: u8,
    pub dots: u8,
    pub tie: bool,
    pub tied: bool,
    pub vel: u8,
    pub st: [i16; 4],
    pub du: [u16; 4],
    pub ve: [i16; 4],
    pub ch: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RBar { pub tick: u32, pub rhythm: Option<(u8, u8)>, pub key: Option<i8>, pub reps: u16 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RTempo { pub tick: u32, pub v: u16 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct RCtl { pub tick: u32, pub vel: u8, pub ch: u8 }

/// What a note amounts to: start tick, tick length, loudness, pitch value, score offset, trimmer sums.
pub type Derived = [i64; 8];

/// A whole project. Every item is paired with the tick it is filed under.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
pub struct Proj {
    pub rhythm: (u8, u8),
    pub key: i8,
    pub grid: u32,
    pub notes: Vec<(u32, RNote)>,
    pub bars: Vec<(u32, RBar)>,
    pub tempos: Vec<(u32, RTempo)>,
    pub dumpers: Vec<(u32, RCtl)>,
    pub softs: Vec<(u32, RCtl)>,
    pub derived: Vec<Derived>,
}

impl Proj {
    /// Equal in content, leaving aside how long notes sound and the like.
    pub fn same_content(&self, o: &Proj) -> bool {
        self.rhythm == o.rhythm && self.key == o.key && self.grid == o.grid && self.notes == o.notes && self.bars == o.bars
            && self.tempos == o.tempos && self.dumpers == o.dumpers && self.softs == o.softs
    }
    pub fn empty() -> Self {
        Proj { rhythm: (4, 4), key: 0, grid: 60, notes: vec![], bars: vec![], tempos: vec![], dumpers: vec![], softs: vec![], derived: vec![] }
    }
    pub fn items(&self) -> usize { self.notes.len() + self.bars.len() + self.tempos.len() + self.dumpers.len() + self.softs.len() }
    pub fn hash(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Fast(0);
        Hash::hash(self, &mut h);
        h.finish()
    }
}

/// A quick hasher for telling project states apart.
struct Fast(u64);
impl Fast {
    fn put(&mut self, x: u64) { self.0 = (self.0.rotate_left(23) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15); }
}
impl std::hash::Hasher for Fast {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0; 8];
            w[..c.len()].copy_from_slice(c);
            self.put(u64::from_le_bytes(w));
        }
    }
    fn write_u8(&mut self, x: u8) { self.put(x as u64); }
    fn write_u16(&mut self, x: u16) { self.put(x as u64); }
    fn write_u32(&mut self, x: u32) { self.put(x as u64); }
    fn write_u64(&mut self, x: u64) { self.put(x); }
    fn write_usize(&mut self, x: usize) { self.put(x as u64); }
    fn write_i8(&mut self, x: i8) { self.put(x as u64); }
    fn write_i16(&mut self, x: i16) { self.put(x as u64); }
    fn write_i64(&mut self, x: i64) { self.put(x as u64); }
    fn finish(&self) -> u64 { let x = self.0; (x ^ (x >> 29)).wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ (x >> 32) }
}

pub const SOLFAS: [Solfa; 7] = [Solfa::C, Solfa::D, Solfa::E, Solfa::F, Solfa::G, Solfa::A, Solfa::B];
pub const SHARPS: [SharpFlat; 6] = [SharpFlat::Sharp, SharpFlat::DoubleSharp, SharpFlat::Flat, SharpFlat::DoubleFlat, SharpFlat::Natural, SharpFlat::Null];
pub const OCTAVES: [Octave; 11] = [Octave::OctM2, Octave::OctM1, Octave::Oct0, Octave::Oct1, Octave::Oct2, Octave::Oct3, Octave::Oct4,
    Octave::Oct5, Octave::Oct6, Octave::Oct7, Octave::Oct8];
pub const NUMS: [Numerator; 8] = [Numerator::Whole, Numerator::Half, Numerator::Quarter, Numerator::N8th, Numerator::N16th, Numerator::N32nd,
    Numerator::N64th, Numerator::N128th];
pub const REPEATS: [Repeat; 11] = [Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda,
    Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4];

fn pos<T: PartialEq>(v: &[T], x: &T) -> usize { v.iter().position(|e| e == x).expect("known value") }

pub fn pitch_parts(p: Pitch) -> (u8, i8, u8) {
    // The pitch's parts are private; its serialised form shows them.
    #[derive(Deserialize)]
    struct P { solfa: Solfa, octave: Octave, sharp_flat: SharpFlat }
    let mut b = [0u8; 32];
    bincode::serialize_into(&mut b[..], &p).expect("pitch");
    let q: P = bincode::deserialize_from(&b[..]).expect("pitch parts");
    (pos(&SOLFAS, &q.solfa) as u8, pos(&OCTAVES, &q.octave) as i8 - 2, pos(&SHARPS, &q.sharp_flat) as u8)
}

pub fn make_pitch(solfa: u8, octave: i8, sf: u8) -> Option<Pitch> {
    Pitch::value_of(SOLFAS[solfa as usize], OCTAVES[(octave + 2) as usize], SHARPS[sf as usize]).ok()
}

pub fn pct(v: PercentU16) -> u16 {
    // Private; its serialised form shows it.
    let mut b = [0u8; 32];
    let mut w = &mut b[..];
    bincode::serialize_into(&mut w, &v).expect("percent");
    if w.len() == 30 { return u16::from_le_bytes([b[0], b[1]]); }
    let s = serde_json::to_value(v).expect("percent");
    s["value"].as_u64().expect("percent value") as u16
}

pub fn key_of(k: Key) -> i8 { k.offset() }
pub fn make_key(k: i8) -> Key { *Key::ALL.iter().find(|x| x.offset() == k).expect("key") }
pub fn rhythm_of(r: Rhythm) -> (u8, u8) { (r.numerator().value(), r.denominator().value()) }
pub fn make_rhythm(r: (u8, u8)) -> Rhythm { Rhythm::new(r.0, r.1) }

fn arr4<T: Copy>(v: &[T]) -> [T; 4] { [v[0], v[1], v[2], v[3]] }

pub fn note_of(n: &Note) -> RNote {
    let (solfa, octave, sf) = pitch_parts(n.pitch);
    RNote {
        base: n.base_start_tick, solfa, octave, sf,
        num: n.duration.numerator.ord(), den: n.duration.denominator.value(), dots: n.duration.dots.value(),
        tie: n.tie, tied: n.tied, vel: n.base_velocity.as_u8(),
        st: trimmer_of(&n.start_tick_trimmer),
        du: rates_of(&n.duration_trimmer),
        ve: trimmer_of(&n.velocity_trimmer),
        ch: n.channel.as_u8(),
    }
}
pub fn derived_of(n: &Note) -> Derived {
    [n.start_tick() as i64, n.tick_len() as i64, n.velocity().as_u8() as i64, n.pitch.value() as i64, n.pitch.score_offset() as i64,
     n.start_tick_trimmer.sum() as i64, n.velocity_trimmer.sum() as i64, pct(n.duration_trimmer.sum()) as i64]
}
pub fn bar_of(b: &Bar) -> RBar {
    let mut reps = 0;
    for (i, r) in REPEATS.iter().enumerate() { if b.repeats.contains(*r) { reps |= 1 << i; } }
    RBar { tick: b.start_tick, rhythm: b.rhythm.map(rhythm_of), key: b.key.map(key_of), reps }
}
pub fn tempo_of(t: &Tempo) -> RTempo { RTempo { tick: t.start_tick, v: t.value.as_u16() } }
pub fn ctl_of(c: &CtrlChg) -> RCtl { RCtl { tick: c.start_tick, vel: c.velocity.as_u8(), ch: c.channel.as_u8() } }

/// A trimmer by any of the ways there are to make one.
fn make_trimmer(v: [i16; 4]) -> Trimmer {
    match v.iter().fold(0u16, |a, x| a.wrapping_mul(31).wrapping_add(*x as u16)) % 4 {
        0 => Trimmer::new(v[0], v[1], v[2], v[3]),
        1 => Trimmer::from_array(v),
        2 => Trimmer::from_vec(&v.to_vec()),
        _ => Trimmer::ZERO.updated(|a| *a = v),
    }
}
/// A trimmer's values by any of the ways there are to read them.
fn trimmer_of(t: &Trimmer) -> [i16; 4] {
    match t.sum().rem_euclid(4) {
        0 => arr4(t.values()),
        1 => arr4(&t.to_vec()),
        2 => t.to_array(),
        _ => [t.value(0) as i16, t.value(1) as i16, t.value(2) as i16, t.value(3) as i16],
    }
}
fn rates_of(t: &RateTrimmer) -> [u16; 4] {
    let v = t.values();
    match pct(t.sum()) % 3 {
        0 => [pct(v[0]), pct(v[1]), pct(v[2]), pct(v[3])],
        1 => { let v = t.to_vec(); [pct(v[0]), pct(v[1]), pct(v[2]), pct(v[3])] }
        _ => [pct(t.value(0)), pct(t.value(1)), pct(t.value(2)), pct(t.value(3))],
    }
}

/// `fl`: build the duration trimmer from these raw rates (as the UI does) instead of from its stored values.
pub fn make_note(r: &RNote, fl: Option<[u32; 4]>) -> Note {
    let f = |v: u16| PercentU16::from_value(v);
    Note::new(
        r.base,
        make_pitch(r.solfa, r.octave, r.sf).expect("generated pitches are valid"),
        Duration::new(NUMS[r.num as usize], Denominator::from_value(r.den).expect("den"), Dots::from_value(r.dots).expect("dots")),
        r.tie, r.tied, Velocity::new(r.vel),
        make_trimmer(r.st),
        match fl {
            Some(b) => RateTrimmer::new(f32::from_bits(b[0]), f32::from_bits(b[1]), f32::from_bits(b[2]), f32::from_bits(b[3])),
            None => {
                let a = [f(r.du[0]), f(r.du[1]), f(r.du[2]), f(r.du[3])];
                if (r.base ^ r.du[0] as u32) % 2 == 0 { RateTrimmer::from_array(a) } else { RateTrimmer::from_vec(&a.to_vec()) }
            }
        },
        make_trimmer(r.ve),
        Channel::new(r.ch),
    )
}
pub fn make_reps(bits: u16) -> RepeatSet {
    // Built through the serialised form so that any combination can be had.
    let mut s: EnumSet<Repeat> = EnumSet::empty();
    for (i, r) in REPEATS.iter().enumerate() { if bits & (1 << i) != 0 { s.insert(*r); } }
    #[derive(Serialize)]
    struct V { value: EnumSet<Repeat> }
    serde_json::from_value(serde_json::to_value(V { value: s }).expect("set")).expect("set")
}
pub fn make_bar(r: &RBar) -> Bar { Bar::new(r.tick, r.rhythm.map(make_rhythm), r.key.map(make_key), make_reps(r.reps)) }
pub fn make_tempo(r: &RTempo) -> Tempo { Tempo { start_tick: r.tick, value: TempoValue::new(r.v) } }
pub fn make_ctl(r: &RCtl) -> CtrlChg { CtrlChg::new(r.tick, Velocity::new(r.vel), Channel::new(r.ch)) }
pub fn make_grid(g: u32) -> Grid { Grid::from_u32(g).expect("grid") }

type Notes<'a> = Box<dyn Iterator<Item = (u32, &'a Note)> + 'a>;
fn proj_of<'a>(set: (Rhythm, Key, Grid), notes: Notes<'a>, bars: &Store<u32, Bar, ModelChangeMetadata>, tempos: &Store<u32, Tempo, ModelChangeMetadata>,
    dumpers: &Store<u32, CtrlChg, ModelChangeMetadata>, softs: &Store<u32, CtrlChg, ModelChangeMetadata>) -> Proj {
    let mut ns: Vec<(u32, RNote, Derived)> = notes.map(|(t, n)| (t, note_of(n), derived_of(n))).collect();
    ns.sort();
    Proj {
        rhythm: rhythm_of(set.0), key: key_of(set.1), grid: set.2.as_u32(),
        notes: ns.iter().map(|x| (x.0, x.1)).collect(),
        derived: ns.iter().map(|x| x.2).collect(),
        bars: bars.iter().map(|(t, b)| (*t, bar_of(b))).collect(),
        tempos: tempos.iter().map(|(t, b)| (*t, tempo_of(b))).collect(),
        dumpers: dumpers.iter().map(|(t, b)| (*t, ctl_of(b))).collect(),
        softs: softs.iter().map(|(t, b)| (*t, ctl_of(b))).collect(),
    }
}

/// What the project's model holds.
pub fn project(p: &ProjectImpl) -> Proj {
    proj_of((p.rhythm(), p.key(), p.grid()), Box::new(p.note_repo().iter().map(|(t, n)| (*t, &**n))), p.bar_repo(), p.tempo_repo(), p.dumper_repo(), p.soft_repo())
}

/// What the project shows to its client.
pub fn shown(s: &ProjectStore) -> Proj {
    proj_of((Project::rhythm(s), Project::key(s), Project::grid(s)), Box::new(s.note_repo().iter().map(|(t, n)| (*t, &**n))), s.bar_repo(), s.tempo_repo(),
        s.dumper_repo(), s.soft_repo())
}

/// A short description of how two projects differ.
pub fn diff(exp: &Proj, got: &Proj) -> String {
    fn ms<T: Ord + Clone + std::fmt::Debug>(name: &str, e: &[T], g: &[T], out: &mut Vec<String>) {
        let (mut e, mut g) = (e.to_vec(), g.to_vec());
        e.sort();
        g.sort();
        let (mut i, mut j) = (0, 0);
        let (mut miss, mut extra) = (vec![], vec![]);
        while i < e.len() || j < g.len() {
            if j >= g.len() || (i < e.len() && e[i] < g[j]) { miss.push(e[i].clone()); i += 1; }
            else if i >= e.len() || g[j] < e[i] { extra.push(g[j].clone()); j += 1; }
            else { i += 1; j += 1; }
        }
        if !miss.is_empty() || !extra.is_empty() {
            out.push(format!("{}: missing {} {:?}{} unexpected {} {:?}", name, miss.len(), &miss[..miss.len().min(2)],
                if miss.len() > 2 { ".." } else { "" }, extra.len(), &extra[..extra.len().min(2)]));
        }
    }
    let mut out = vec![];
    if exp.rhythm != got.rhythm { out.push(format!("rhythm {:?} expected, got {:?}", exp.rhythm, got.rhythm)); }
    if exp.key != got.key { out.push(format!("key {} expected, got {}", exp.key, got.key)); }
    if exp.grid != got.grid { out.push(format!("grid {} expected, got {}", exp.grid, got.grid)); }
    ms("notes", &exp.notes, &got.notes, &mut out);
    ms("bars", &exp.bars, &got.bars, &mut out);
    ms("tempos", &exp.tempos, &got.tempos, &mut out);
    ms("dumpers", &exp.dumpers, &got.dumpers, &mut out);
    ms("softs", &exp.softs, &got.softs, &mut out);
    if out.is_empty() && exp.derived != got.derived {
        for (i, (a, b)) in exp.derived.iter().zip(got.derived.iter()).enumerate() {
            if a != b { out.push(format!("note {:?}: [start,len,loudness,pitch,score,sums] {:?} expected, got {:?}", exp.notes[i], a, b)); break; }
        }
    }
    if out.is_empty() { out.push("order of items within a store".into()); }
    out.join("; ")
}
