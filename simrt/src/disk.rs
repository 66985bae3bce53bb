//! The simulated disk: what the running process sees (`cur`), what is known to have reached the medium (`dur`), and
//! the writes in between, in order.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub const SECTOR: usize = 512;

#[derive(Clone, Debug)]
pub enum Pend { Write { off: usize, data: Vec<u8> }, Trunc(usize) }

#[derive(Clone, Debug, Default)]
pub struct SimFile { pub cur: Vec<u8>, pub dur: Vec<u8>, pub pend: Vec<Pend> }

impl SimFile {
    fn apply(v: &mut Vec<u8>, p: &Pend) {
        match p {
            Pend::Write { off, data } => {
                if v.len() < *off { v.resize(*off, 0); }
                let both = data.len().min(v.len() - off);
                v[*off..off + both].copy_from_slice(&data[..both]);
                v.extend_from_slice(&data[both..]);
            }
            Pend::Trunc(n) => v.resize(*n, 0),
        }
    }
    pub fn write(&mut self, off: usize, data: &[u8]) {
        let p = Pend::Write { off, data: data.to_vec() };
        Self::apply(&mut self.cur, &p);
        self.pend.push(p);
    }
    pub fn truncate(&mut self, n: usize) {
        let p = Pend::Trunc(n);
        Self::apply(&mut self.cur, &p);
        self.pend.push(p);
    }
    pub fn sync(&mut self) {
        for p in std::mem::take(&mut self.pend) { Self::apply(&mut self.dur, &p); }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CrashMode {
    /// The process dies, the machine stays up: everything written survives.
    Kill,
    /// Power loss: nothing that was not synchronised survives.
    LoseAll,
    /// Power loss: unsynchronised writes survive up to some point in order.
    Prefix,
    /// Power loss: an arbitrary subset of unsynchronised writes survives, single sectors of them possibly missing.
    Subset,
}

#[derive(Clone, Debug, Default)]
pub struct Locks { pub shared: BTreeSet<u64>, pub reserved: Option<u64>, pub pending: Option<u64>, pub exclusive: Option<u64> }

#[derive(Clone, Debug, Default)]
pub struct Disk { pub files: BTreeMap<String, SimFile>, pub dirs: BTreeSet<String>, pub locks: BTreeMap<String, Locks>, pub full_until: u64 }

impl Disk {
    pub fn new() -> Self { let mut d = Disk::default(); d.dirs.insert("/sim".into()); d }
    pub fn new_process(&mut self) { self.locks.clear(); }

    /// What is left after the process or the machine went down.
    pub fn crash(&mut self, mode: CrashMode, rng: &mut Rng) -> (u64, u64, u64) {
        let (mut lost, mut kept, mut torn) = (0, 0, 0);
        for f in self.files.values_mut() {
            let pend = std::mem::take(&mut f.pend);
            match mode {
                CrashMode::Kill => { for p in pend.iter() { SimFile::apply(&mut f.dur, p); } }
                CrashMode::LoseAll => { lost += pend.len() as u64; }
                CrashMode::Prefix => {
                    let n = rng.below(pend.len() as u64 + 1) as usize;
                    for (i, p) in pend.iter().enumerate() {
                        if i < n { SimFile::apply(&mut f.dur, p); kept += 1; }
                        else {
                            lost += 1;
                            if i == n {
                                if let Pend::Write { off, data } = p {
                                    let secs = data.len() / SECTOR;
                                    if secs > 1 && rng.chance(1, 2) {
                                        let k = 1 + rng.below(secs as u64 - 1) as usize;
                                        SimFile::apply(&mut f.dur, &Pend::Write { off: *off, data: data[..k * SECTOR].to_vec() });
                                        torn += 1;
                                    }
                                }
                            }
                        }
                    }
                }
                CrashMode::Subset => {
                    for p in pend.iter() {
                        match p {
                            Pend::Trunc(_) => { if rng.chance(1, 2) { SimFile::apply(&mut f.dur, p); kept += 1; } else { lost += 1; } }
                            Pend::Write { off, data } => match rng.below(4) {
                                0 => lost += 1,
                                1 if data.len() > SECTOR => {
                                    torn += 1;
                                    let mut o = 0;
                                    while o < data.len() {
                                        let e = (o + SECTOR).min(data.len());
                                        if rng.chance(1, 2) { SimFile::apply(&mut f.dur, &Pend::Write { off: off + o, data: data[o..e].to_vec() }); }
                                        o = e;
                                    }
                                }
                                _ => { SimFile::apply(&mut f.dur, p); kept += 1; }
                            },
                        }
                    }
                }
            }
            f.cur = f.dur.clone();
        }
        (lost, kept, torn)
    }
}
