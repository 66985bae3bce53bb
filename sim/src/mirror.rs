//! An observer of the change notifications: it knows nothing about the project but what the notifications tell.
use crate::model::Items;
use crate::plan::Meta;
use crate::raw::*;
use klavier_core::note::Note;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectStore};
use klavier_helper::bag_store::BagStoreEvent;
use klavier_helper::store::StoreEvent;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Mirror {
    notes: BTreeMap<(u32, RNote), usize>,
    bars: BTreeMap<u32, RBar>,
    tempos: BTreeMap<u32, RTempo>,
    dumpers: BTreeMap<u32, RCtl>,
    softs: BTreeMap<u32, RCtl>,
    seen: [usize; 5],
}

/// What was announced since the last reading.
#[derive(Default)]
pub struct Ann {
    notes: Vec<(RNote, Meta)>,
    bars: Vec<(RBar, Meta)>,
    tempos: Vec<(RTempo, Meta)>,
    dumpers: Vec<(RCtl, Meta)>,
    softs: Vec<(RCtl, Meta)>,
    after: Mirror,
}

fn meta(m: &ModelChangeMetadata) -> Meta { Meta { select: m.need_select, dragged: m.dragged } }

fn fold<T: Clone, R: Copy>(ev: &[StoreEvent<u32, T, ModelChangeMetadata>], of: impl Fn(&T) -> R, tick: impl Fn(&R) -> u32,
                           map: &mut BTreeMap<u32, R>, said: &mut Vec<(R, Meta)>) {
    for e in ev {
        match e {
            StoreEvent::Added { added, metadata } => { let r = of(added); map.insert(tick(&r), r); said.push((r, meta(metadata))); }
            StoreEvent::Removed(x) => { map.remove(&tick(&of(x))); }
            StoreEvent::ClearedAll => map.clear(),
            StoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                for (k, _) in removed { map.remove(k); }
                for (k, x) in added { let r = of(x); map.insert(*k, r); said.push((r, meta(metadata))); }
            }
            StoreEvent::Changed { from_to, removed, metadata } => {
                for ((k, _), _) in from_to { map.remove(k); }
                for (k, _) in removed { map.remove(k); }
                for (_, (k, x)) in from_to { let r = of(x); map.insert(*k, r); said.push((r, meta(metadata))); }
            }
        }
    }
}

/// Notifications waiting to be read.
pub fn pending(s: &ProjectStore) -> [usize; 5] {
    [s.note_events().len(), s.bar_events().len(), s.tempo_events().len(), s.dumper_events().len(), s.soft_events().len()]
}

impl Mirror {
    fn put(&mut self, k: u32, n: RNote) { *self.notes.entry((k, n)).or_default() += 1; }
    fn take(&mut self, k: u32, n: RNote) {
        let e = (k, n);
        if let Some(c) = self.notes.get_mut(&e) { *c -= 1; if *c == 0 { self.notes.remove(&e); } }
    }

    /// The notifications were cleared by the editor.
    pub fn cleared(&mut self) { self.seen = [0; 5]; }

    pub fn read(&mut self, s: &ProjectStore) -> Ann {
        let mut a = Ann::default();
        let ev = s.note_events();
        let from = self.seen[0].min(ev.len());
        self.seen[0] = ev.len();
        for e in &ev[from..] {
            match e {
                BagStoreEvent::Added { added, metadata } => { let n = note_of(added); self.put(added.start_tick(), n); a.notes.push((n, meta(metadata))); }
                BagStoreEvent::AddedVec { added, metadata } => for x in added { let n = note_of(x); self.put(x.start_tick(), n); a.notes.push((n, meta(metadata))); },
                BagStoreEvent::Removed(x) => self.take(x.start_tick(), note_of(x)),
                BagStoreEvent::RemovedVec(v) => for x in v { self.take(x.start_tick(), note_of(x)); },
                BagStoreEvent::ClearedAll => self.notes.clear(),
                BagStoreEvent::Changed { from_to, removed, metadata } => {
                    for ((k, x), _) in from_to { self.take(*k, note_of(x)); }
                    for (k, x) in removed { self.take(*k, note_of(x)); }
                    for (_, (k, x)) in from_to { let n = note_of(x); self.put(*k, n); a.notes.push((n, meta(metadata))); }
                }
                BagStoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                    let rm = |m: &mut Mirror, v: &Vec<(u32, Rc<Note>)>| for (k, x) in v { m.take(*k, note_of(x)); };
                    rm(self, removed);
                    for (k, x) in added { let n = note_of(x); self.put(*k, n); a.notes.push((n, meta(metadata))); }
                }
            }
        }
        macro_rules! rest {
            ($i:expr, $ev:ident, $of:ident, $map:ident) => {
                let ev = s.$ev();
                let from = self.seen[$i].min(ev.len());
                self.seen[$i] = ev.len();
                fold(&ev[from..], $of, |r| r.tick, &mut self.$map, &mut a.$map);
            };
        }
        rest!(1, bar_events, bar_of, bars);
        rest!(2, tempo_events, tempo_of, tempos);
        rest!(3, dumper_events, ctl_of, dumpers);
        rest!(4, soft_events, ctl_of, softs);
        a.after = self.clone();
        a
    }

    pub fn compare(&self, p: &Proj) -> Option<String> {
        let mut e: Vec<(u32, RNote)> = vec![];
        for (k, c) in &self.notes { for _ in 0..*c { e.push(*k); } }
        let mut g = p.notes.clone();
        g.sort();
        if e != g { return Some(format!("it knows {} note(s), the project has {}; {}", e.len(), g.len(), one(&e, &g))); }
        fn list<T: Copy>(m: &BTreeMap<u32, T>) -> Vec<(u32, T)> { m.iter().map(|(k, v)| (*k, *v)).collect() }
        fn cmp<T: Copy + PartialEq + std::fmt::Debug>(name: &str, a: Vec<(u32, T)>, b: &[(u32, T)]) -> Option<String> {
            if a[..] == *b { None } else { Some(format!("it knows {} {name}(s), the project has {}; {}", a.len(), b.len(), one(&a, b))) }
        }
        cmp("bar", list(&self.bars), &p.bars).or_else(|| cmp("tempo", list(&self.tempos), &p.tempos))
            .or_else(|| cmp("damper", list(&self.dumpers), &p.dumpers)).or_else(|| cmp("soft pedal", list(&self.softs), &p.softs))
    }
}

fn one<T: PartialEq + std::fmt::Debug>(a: &[T], b: &[T]) -> String {
    for i in 0..a.len().max(b.len()) { if a.get(i) != b.get(i) { return format!("{:?} against {:?}", a.get(i), b.get(i)); } }
    String::new()
}

fn placed<T: PartialEq + Copy + std::fmt::Debug>(named: &[T], said: &[(T, Meta)], m: Meta) -> Option<String> {
    for (i, x) in named.iter().enumerate() {
        let want = named[..=i].iter().filter(|y| *y == x).count();
        let have = said.iter().filter(|(y, k)| y == x && *k == m).count();
        if have < want {
            let other: Vec<Meta> = said.iter().filter(|(y, _)| y == x).map(|s| s.1).collect();
            return Some(format!("{x:?} must be announced with {m:?}, was announced with {other:?}"));
        }
    }
    None
}

impl Ann {
    /// Every item an edit names is announced with the marks of that edit; bars appended by it are not marked selected.
    pub fn check_placed(&self, items: &Items, m: Meta, fill: &[RBar]) -> Option<String> {
        if let Some(t) = placed(&items.notes, &self.notes, m).or_else(|| placed(&items.bars, &self.bars, m)).or_else(|| placed(&items.tempos, &self.tempos, m))
            .or_else(|| placed(&items.dumpers, &self.dumpers, m)).or_else(|| placed(&items.softs, &self.softs, m)) { return Some(t); }
        for b in fill {
            if self.bars.iter().any(|(y, k)| y == b && k.select == Some(true)) { return Some(format!("the appended bar {b:?} is announced as selected")); }
        }
        None
    }

    /// Nothing but the named items and the appended bars is announced as placed.
    pub fn check_only(&self, items: &Items, fill: &[RBar]) -> Option<String> {
        fn only<T: PartialEq + std::fmt::Debug>(said: &[(T, Meta)], named: &[T], more: &[T]) -> Option<String> {
            let x = said.iter().find(|(x, _)| !named.contains(x) && !more.contains(x))?;
            Some(format!("{:?} is announced although the edit does not place it", x.0))
        }
        only(&self.notes, &items.notes, &[]).or_else(|| only(&self.bars, &items.bars, fill)).or_else(|| only(&self.tempos, &items.tempos, &[]))
            .or_else(|| only(&self.dumpers, &items.dumpers, &[])).or_else(|| only(&self.softs, &items.softs, &[]))
    }

    /// Every item that undo or redo brings back is announced with the marks of the edit in question.
    pub fn check_back(&self, before: &Proj, m: Meta) -> Option<String> {
        let mut old: BTreeMap<(u32, RNote), usize> = BTreeMap::new();
        for n in &before.notes { *old.entry(*n).or_default() += 1; }
        for (k, c) in &self.after.notes {
            if *c > old.get(k).copied().unwrap_or(0) && !self.notes.iter().any(|(n, x)| *n == k.1 && *x == m) { return Some(format!("{:?} must be announced with {m:?}", k.1)); }
        }
        for (t, b) in &self.after.bars {
            if before.bars.iter().any(|x| x.0 == *t && x.1 == *b) { continue; }
            let plain = b.rhythm.is_none() && b.key.is_none() && b.reps == 0;
            if !self.bars.iter().any(|(n, x)| n == b && (*x == m || plain && x.select != Some(true))) { return Some(format!("{b:?} must be announced with {m:?}")); }
        }
        fn rest<T: PartialEq + Copy + std::fmt::Debug>(after: &BTreeMap<u32, T>, before: &[(u32, T)], said: &[(T, Meta)], m: Meta) -> Option<String> {
            for (t, b) in after {
                if before.iter().any(|x| x.0 == *t && x.1 == *b) { continue; }
                if !said.iter().any(|(n, x)| n == b && *x == m) { return Some(format!("{b:?} must be announced with {m:?}")); }
            }
            None
        }
        rest(&self.after.tempos, &before.tempos, &self.tempos, m).or_else(|| rest(&self.after.dumpers, &before.dumpers, &self.dumpers, m))
            .or_else(|| rest(&self.after.softs, &before.softs, &self.softs, m))
    }
}
