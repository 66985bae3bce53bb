#![allow(dead_code, unused_imports)]
use klavier_core::{
    bar::{Bar, Repeat, RepeatSet}, channel::Channel, ctrl_chg::CtrlChg, duration::{self, Denominator, Dots, Duration},
    exported_project::ExportedProject, grid::Grid, key::Key, location::Location, models::{ModelChanges, Models},
    note::Note, octave::Octave, percent::PercentU16, pitch::Pitch,
    project::{ModelChangeMetadata, Project, ProjectCmd, ProjectStore}, rhythm::Rhythm, sharp_flat::SharpFlat,
    solfa::Solfa, tempo::{Tempo, TempoValue}, trimmer::{RateTrimmer, Trimmer}, velocity::Velocity,
};
use serdo::undo_store::{Options, UndoStore};
use std::{path::PathBuf, rc::Rc};

/// A project file in the scratch folder given on the command line.
fn path(name: &str) -> PathBuf { PathBuf::from(std::env::args().nth(1).expect("scratch folder")).join(name) }
fn open(name: &str) -> ProjectStore { open_limit(name, 100) }
fn open_limit(name: &str, limit: usize) -> ProjectStore {
    ProjectStore::open(path(name), Options::new().with_undo_limit(limit)).ok().expect("open")
}
fn md() -> ModelChangeMetadata { ModelChangeMetadata::new() }
fn pitch(s: Solfa, o: Octave) -> Pitch { Pitch::new(s, o, SharpFlat::Null) }
fn dur(n: duration::Numerator) -> Duration { Duration::new(n, Denominator::from_value(2).unwrap(), Dots::ZERO) }
fn note(tick: u32) -> Note {
    Note::new(tick, pitch(Solfa::C, Octave::Oct4), dur(duration::Numerator::Quarter), false, false, Velocity::new(64),
        Trimmer::ZERO, RateTrimmer::ONE, Trimmer::ZERO, Channel::default())
}
fn bar(tick: u32) -> Bar { Bar::new(tick, None, None, RepeatSet::EMPTY) }
fn tempo(tick: u32, v: u16) -> Tempo { Tempo::new(tick, v) }
fn ctl(tick: u32, v: u8) -> CtrlChg { CtrlChg::new(tick, Velocity::new(v), Channel::default()) }
/// Everything in the project, filed ticks and derived values included.
fn show(p: &ProjectStore) -> String {
    let mut notes: Vec<String> = p.note_repo().iter().map(|(t, n)| format!("{t}:{n:?} start {} len {} vel {:?}", n.start_tick(), n.tick_len(), n.velocity())).collect();
    notes.sort();
    format!("{:?} {:?} {:?}\nnotes {:?}\nbars {:?}\ntempos {:?}\ndumpers {:?}\nsofts {:?}", Project::rhythm(p), Project::key(p), Project::grid(p), notes,
        p.bar_repo().iter().collect::<Vec<_>>(), p.tempo_repo().iter().collect::<Vec<_>>(),
        p.dumper_repo().iter().collect::<Vec<_>>(), p.soft_repo().iter().collect::<Vec<_>>())
}
fn bars(p: &ProjectStore) -> Vec<u32> { p.bar_repo().iter().map(|(t, _)| *t).collect() }
/// Redoes once, as soon as the store offers it.
fn redo(p: &mut ProjectStore) {
    for _ in 0..2000 {
        let _ = p.saved();
        if p.can_redo() { p.redo(); return; }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    panic!("redo is not offered");
}
/// Waits until everything is confirmed as saved.
fn settle(p: &mut ProjectStore) {
    for _ in 0..2000 {
        if p.saved().ok() == Some(true) { return; }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    panic!("never confirmed as saved");
}
