#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

PR = "src/project.rs"
REPOS = ("note/bar/tempo/dumper/soft repositories", "the five collections a project is made of, indexed by start tick", PR + " ProjectImpl")
SETT = ("rhythm, key, grid", "project-wide settings", PR + " ProjectImpl")

p("C01", "Every edit does exactly its effect and nothing else",
  "Whatever the project holds, every edit (adding, bulk adding, removing, moving or changing notes, bars, tempos and pedal events, and setting rhythm, key or grid) turns it into exactly the project the edit describes: the named items appear, disappear or change with every attribute intact, an item placed on a tick already holding a bar, tempo or pedal event of its kind replaces that one, notes are never merged or replaced, and everything not named is untouched. "
  "Every item is filed under the tick it starts at.",
  ["histories", "inputs", "schedules"],
  "Every sequence of edits, undos and redos over the whole value domain of every attribute (pitch, duration, denominators, dots, ties, velocity, trimmers, channel, repeats, keys, rhythms), including swaps, drags onto occupied ticks, several items landing on one tick and identical notes, under every interleaving with the background saver and every undo limit.",
  "The tests in src/project.rs make one or two edits with one or two items on an empty project and read one field back.",
  [PR, "src/models.rs", "src/note.rs", "src/bar.rs"],
  [("edit operations", PR + " impl Project for SqliteUndoStore"), ("keyed store and bag store", "klavier-helper store.rs, bag_store.rs")],
  [REPOS, SETT], ["ProjectStore::model() after every edit"])

p("C02", "Undo restores the exact previous project",
  "After any edit, one undo restores the project to precisely what it was before that edit - every note, bar, tempo, pedal event and setting, including everything the edit replaced, overwrote or added on its own such as automatically appended bars - and as many edits as the undo limit allows can be taken back one after another this way. "
  "Undo is offered exactly while such an edit remains; grouping fewer than two notes into a tuplet is not an edit and adds no undo step.",
  ["histories", "inputs", "schedules", "configurations"],
  "Every edit kind and value, every history of edits, undos and redos before it, every undo limit, every interleaving with the background saver.",
  "The undo tests undo one hand-written edit each; they never combine collisions, replaced items, appended bars, trimmers, long histories or trimming of the history.",
  [PR, "src/models.rs", "src/trimmer.rs", "src/note.rs"],
  [("inverse of each command", PR + " impl Cmd for ProjectCmd::undo"), ("command capture: what was added and removed", PR + " impl Project"), ("command serialization", "src/models.rs, src/note.rs, src/trimmer.rs")],
  [REPOS, SETT], ["ProjectStore::undo(), can_undo(), model()"])

p("C03", "Redo reproduces the exact undone edit",
  "After undoing any number of edits, redoing them one after another reproduces exactly the project that followed each of those edits, and undo and redo can be mixed in any order without ever reaching a project that was not in the history. "
  "A new edit discards the undone ones, so that no later redo brings them back.",
  ["histories", "inputs", "schedules", "configurations"],
  "Every walk of edits, undos and redos, every edit kind and value, every undo limit, every interleaving with the background saver.",
  "Tests redo at most one hand-written command; none walks up and down a history with collisions, appended bars or replaced items.",
  [PR, "src/models.rs", "src/tuple.rs"],
  [("re-application of each command", PR + " impl Cmd for ProjectCmd::redo"), ("command capture", PR + " impl Project")],
  [REPOS, SETT], ["ProjectStore::redo(), can_redo(), model()"])

p("C04", "A closed project reopens exactly as it was",
  "Closing a project at any moment and opening it again yields exactly the project that was on screen: every attribute of every note, bar, tempo and pedal event and every setting, and everything derived from them such as where each note starts, how long it sounds, its pitch and its loudness. "
  "This holds however far the background saver lagged behind and whether the file is restored from the full history, from an intermediate image or from both.",
  ["schedules", "histories", "inputs", "configurations"],
  "Every edit/undo/redo history, every value, every undo limit (how often images are taken), every schedule of the editing thread against the saver thread, several close/open cycles.",
  "Tests reopen a project once or twice with default limits after one or two edits on real threads, so image taking, replay, lag of the saver and most attribute values are never exercised.",
  [PR, "src/models.rs", "src/note.rs", "src/trimmer.rs", "src/pitch.rs", "src/duration.rs", "src/percent.rs", "src/bar.rs", "src/tempo.rs", "src/key.rs", "src/rhythm.rs", "src/velocity.rs", "src/grid.rs"],
  [("project image", PR + " ExportedProject and its conversions"), ("command replay", PR + " impl Cmd for ProjectCmd"), ("background saver", "serdo undo_store.rs PersisterServer")],
  [REPOS, SETT], ["ProjectStore::open() then model()"])

p("C05", "After a crash the project is an exact point of its history",
  "If the process is killed or the machine loses power at any instant and the project is opened again, it is exactly - never partly, never a mixture - the project as it stood after some edit, undo or redo of its history, no earlier than the last one confirmed as saved or completed. "
  "Undo and redo from there also lead only to exact points of that history.",
  ["crash_points", "schedules", "histories", "fault_sequences"],
  "Every instant of the saver's and editor's execution down to single disk operations; process kill and power loss with lost, reordered and torn unsynchronised writes; repeated crashes; every undo limit.",
  "No test crashes anything.",
  [PR, "src/models.rs", "src/note.rs", "src/trimmer.rs"],
  [("one edit is one command", PR + " ProjectCmd::ModelChanged"), ("project image", PR + " ExportedProject"), ("write-ahead command log and images in SQLite", "serdo undo_store.rs add_cmd, restore_model")],
  [REPOS, SETT], ["ProjectStore::open() after a simulated crash"])

p("C06", "Disk errors are reported and never corrupt the project",
  "When the disk fails, fills up, or writes only part of the data while a project is being edited, editing and what is on screen stay exact, the failure is reported and the edit is not confirmed as saved. "
  "Opening the project afterwards yields exactly some earlier point of its history, no earlier than the last confirmed one, or an explicit error - never a damaged or invented project.",
  ["fault_sequences", "schedules", "histories"],
  "Read, write, short-write, sync, truncate, delete and open errors and disk-full periods, transient or persistent, at every disk operation; every schedule and edit history.",
  "No test injects a disk error.",
  [PR, "src/models.rs"],
  [("one edit is one command", PR + " ProjectCmd"), ("error reporting of the saver", "serdo undo_store.rs PersistResp, saved()")],
  [REPOS], ["ProjectStore::saved(), open(), model()"])

p("C07", "Undo history survives closing and is bounded by the limit",
  "Closing and reopening keeps the undo and redo history: every step that could be undone or redone before can be afterwards, with the same exact result, up to the configured limit. "
  "Discarding steps beyond the limit, and the images taken when that happens, never change the project or any step still available.",
  ["histories", "schedules", "configurations", "inputs"],
  "Every history of edits, undos and redos, every place in it where the project is closed and reopened, every undo limit from one to beyond the length of the history, including a different limit after reopening.",
  "One or two tests undo after reopening a default-limit project once; none reaches the limit.",
  [PR, "src/models.rs"],
  [("persisted commands and images", "serdo undo_store.rs trim_undo_records, save_snapshot, load_last_snapshot"), ("commands and their inverse", PR + " impl Cmd for ProjectCmd")],
  [REPOS, SETT], ["ProjectStore::open(), can_undo(), undo(), can_redo(), redo(), model()"])

p("C08", "Change notifications let an observer mirror the project",
  "An observer that only reads the change notifications - and may clear them at any time after reading - always knows exactly what the project contains, through every edit, undo, redo and reopening. "
  "Items an edit places, including those grouped into a tuplet and those an undo or redo brings back, are announced with the selection and drag marks that edit requested, and bars appended automatically by an edit are not announced as selected, and nothing else is announced as placed by it.",
  ["histories", "schedules", "inputs"],
  "Every history of edits, undos, redos and reopenings, every point at which the observer reads and clears, every edit kind, with and without selection and drag marks.",
  "Tests look at the notifications of single edits; no test folds them over a history or through undo.",
  [PR],
  [("event lists of the stores", "klavier-helper store.rs fire_event, bag_store.rs fire_event"), ("metadata passed by every edit", PR + " ModelChangeMetadata"), ("clearing", PR + " clear_model_events")],
  [("event lists", "changes not yet cleared, per collection", PR + " *_events()")], ["note_events(), bar_events(), tempo_events(), dumper_events(), soft_events()"])

p("C09", "Bars always extend to the end of the music",
  "After every edit that places or moves notes, tempos or pedal events, there is a bar at or after the end of the last note and the last tempo or pedal event: missing bars have been appended after the last existing bar, as many as needed and no more, one measure of the rhythm in force there apart, carrying no rhythm, key or repeat marks. "
  "Bars already present are never altered by this, and the appended bars are part of that edit for undo, redo and saving.",
  ["histories", "inputs", "schedules"],
  "Every project content (rhythm changes, first bar anywhere, bars beyond the end of music, long notes starting before later short ones, trimmed notes), every edit kind, every history.",
  "Tests append bars to empty projects with one note in two rhythms.",
  [PR, "src/note.rs", "src/rhythm.rs", "src/duration.rs"],
  [("bar replenishment", PR + " replenish_bars, note_max_end_tick, *_max_tick"), ("longest possible note", "src/note.rs LONGEST_TICK_LEN")],
  [("bar repository", "bars by tick", PR)], ["bar_repo(), note_repo() after every edit"])

p("C10", "The rhythm, key, tempo and pedals in force are the latest set",
  "At every tick, the tempo, damper and soft pedal position reported are those of the latest such event at or before that tick, and the rhythm and key are those of the latest bar at or before it that sets them; where there is none, the project's own rhythm and key, tempo 120 and released pedals apply. "
  "This holds after every edit, undo, redo, crash and reopening.",
  ["histories", "inputs", "crash_points"],
  "Every project content reachable by edits, undo, redo, reopening and crash recovery; every tick, in particular at, just before and just after each event and past both ends.",
  "Tests query a handful of ticks around one or two events of a freshly built project.",
  [PR],
  [("lookups", PR + " tempo_at, ctrl_chg_at, rhythm_at, key_at")],
  [REPOS, SETT], ["tempo_at, dumper_at, soft_at, rhythm_at, key_at"])

p("C11", "Bar positions and ticks convert back and forth exactly",
  "Converting a tick to a bar position and back gives the same tick; a position counts from the latest bar at or before the tick, or from the beginning before the first bar, with bars numbered from one in tick order, and positions beyond the last bar continue with the measure length in force there. "
  "A position that lies beyond the representable range is reported as an overflow, never as a wrong tick or a crash.",
  ["histories", "inputs", "crash_points"],
  "Every project content reachable by edits, undo, redo, reopening and recovery; every tick; every position including bar numbers and offsets up to the largest representable.",
  "Tests convert a few positions on hand-built projects with one or two bars.",
  [PR, "src/location.rs"],
  [("conversions", PR + " location_to_tick, tick_to_location, bar_no, last_bar")],
  [("bar repository", "bars by tick", PR)], ["location_to_tick, tick_to_location, bar_no"])

p("C12", "Clipboard text carries music losslessly or is rejected",
  "Music copied to clipboard text in one project and pasted into another at any tick arrives with every attribute intact, moved so that the earliest item starts at that tick and all distances are kept; importing an exported project's text gives back exactly what it describes. "
  "Text that was cut off, altered, mixed up or written by another format version is either rejected with an error or yields only valid music - it never crashes the program, and text cut short or of a missing or different version is always rejected.",
  ["inputs", "fault_sequences", "histories"],
  "Every selection from every project, every paste position, and every way transport can damage the text: truncation at any byte, changed, duplicated, dropped or reordered bytes, foreign versions, concatenation.",
  "Tests round-trip a few fixed items and reject a few fixed strings.",
  ["src/models.rs", "src/exported_project.rs", "src/note.rs", "src/trimmer.rs", "src/pitch.rs", "src/duration.rs", "src/bar.rs", "src/tempo.rs", "src/velocity.rs", "src/ctrl_chg.rs", "src/channel.rs"],
  [("text form and version check", "src/models.rs to_clipboard_text, from_clipboard_text"), ("import", "src/exported_project.rs"), ("shift", "src/models.rs move_to_tick")],
  [], ["Models::to_clipboard_text, Models::from_clipboard_text, Models::move_to_tick, ExportedProject::from_clipboard_text, ExportedProject::to_models"])

p("C13", "Grouping notes into a tuplet conserves the notes",
  "Grouping two or more notes into a tuplet keeps every one of them: only their position and tuplet division change, the group starts where its first note started, notes follow each other in their old order spaced in proportion to their note values, and notes that sounded together still do. "
  "It is one edit - saved, undone and redone as a whole, other notes untouched - and grouping fewer than two notes changes nothing.",
  ["histories", "inputs", "schedules"],
  "Every selection of notes from every project (chords, mixed values and dots, trimmed and tied notes, selections in any order), every history, undo limit and schedule.",
  "Tests group a few fixed melodies outside a project, and one fixed group inside one.",
  ["src/tuple.rs", PR, "src/duration.rs"],
  [("grouping", "src/tuple.rs tuplize"), ("edit", PR + " Project::tuplize")],
  [("note repository", "notes by start tick", PR)], ["tuplize() then note_repo()"])

p("C14", "A saved copy is a faithful, independent project",
  "Once the project is confirmed as saved, saving a copy under another name produces a project that opens with exactly the same content and the same undo and redo steps. "
  "From then on original and copy are independent: no edit, undo or crash of one ever shows in the other.",
  ["histories", "schedules", "crash_points"],
  "Every history before and after copying, every undo limit, edits of either project interleaved in any order, both savers running concurrently, crashes after copying.",
  "One test copies a project once right after one edit and does not look at its history.",
  [PR],
  [("file copy", "serdo undo_store.rs save_as"), ("project image and commands", PR + " ExportedProject, ProjectCmd")],
  [REPOS], ["ProjectStore::save_as, open() of both"])

p("C15", "Projects saved by the released version open unchanged",
  "A project file written by the released version - whatever its history, with or without an intermediate image - opens with exactly the content it was saved with and offers exactly the undo and redo steps it was saved with. "
  "Clipboard and export texts written by the released version read back the same way, and the project can be edited, crash and be reopened from there like any other.",
  ["histories", "inputs", "crash_points", "schedules"],
  "Every retained image of a released-version disk, every walk through its undo and redo steps, every continuation with edits, crashes and reopenings.",
  "Tests only read files they have just written with the same code; a consistent change of the stored form passes them and loses every user's files.",
  [PR, "src/models.rs", "src/note.rs", "src/trimmer.rs", "src/pitch.rs", "src/duration.rs", "src/bar.rs", "src/tempo.rs", "src/key.rs", "src/rhythm.rs", "src/velocity.rs", "src/ctrl_chg.rs", "src/channel.rs", "src/grid.rs", "src/percent.rs", "src/exported_project.rs"],
  [("stored form of values", "serde derives and from/into forms in src/*.rs"), ("project image", PR + " ExportedProject"), ("stored commands", PR + " ProjectCmd")],
  [], ["ProjectStore::open() on a pre-loaded simulated disk"])

p("C16", "Editing never waits for the disk and saving always catches up",
  "However slow or stalled the disk is, an edit completes without waiting for it. "
  "Once the disk makes progress again, everything edited is confirmed as saved, and undo, redo and closing complete, within a number of steps proportional to the work outstanding - they never hang.",
  ["schedules", "fault_sequences", "histories"],
  "Every schedule of editor and saver, every pattern of slow and stalled disk operations, every history and backlog length.",
  "Tests run on a fast real disk with whatever schedule the machine happens to produce.",
  [PR],
  [("asynchronous saver", "serdo undo_store.rs PersisterClient::add_command, PersisterServer::start"), ("edits", PR + " impl Project")],
  [("backlog", "commands sent to the saver and not yet stored", "serdo undo_store.rs")], ["simulated time and blocking of the editing thread; saved(); undo(); redo(); drop"])

RP, GR, PS = "src/repeat.rs", "src/global_repeat.rs", "src/play_start_tick.rs"
MARKS = ("bar repository and rhythm", "the bars, their marks and the rhythm of the tune or of a bar at tick 0", PR)
p("C20", "The playing order follows the repeat signs",
  "Whatever the history of a project, as long as its bars' marks form a well-formed score (docs/repeat/structure.md) rendering it plays exactly the stretches docs/repeat/order.md prescribes, in that order: a repeat twice (from its start sign, or from the top if there is none before), a variation's common part before each of its variations, and with D.C. or D.S. everything up to it and then once more from the top, the second bar (a pickup whose D.C. bar is complete) or the Segno, repeats once, variations with the last ending, jumping from the first to the second Coda, until Fine or the end. "
  "Joining neighbouring stretches changes nothing that is heard, and undo, redo, reopening and recovery keep the playing order.",
  ["histories", "inputs", "crash_points"],
  "Every well-formed arrangement of marks on bars of any lengths and rhythms, with one or several sequences, repeats, chained repeats and variations of two to four endings, with and without pickup, D.C. or D.S., Fine, Segno and Codas, in every project reached by edits, undo, redo, reopening and recovery.",
  "Tests render some twenty fixed scores, mostly with one kind of sign each.",
  [RP, GR, "src/bar.rs", "docs/repeat/structure.md", "docs/repeat/order.md"],
  [("splitting the bars into regions", RP + " render_region"), ("the second pass", GR + " GlobalRepeatBuilder::build"), ("joining", RP + " Chunk::optimize")],
  [MARKS], ["render_region(rhythm, bars), Region::to_chunks, Chunk::optimize"])

p("C21", "Any arrangement of marks is rendered or rejected, never a crash",
  "Whatever marks the bars of a project come to hold, on whatever ticks, rendering ends without a crash and no stretch ends before it begins. "
  "A repeat end without a start, a start or D.C./D.S. within an open repeat or variation, an ending with a wrong number, a repeat end within a variation, a repeat or variation left open, a Segno inside a variation that is left out, two D.C./D.S., Fines or Segnos, three Codas, D.S. without Segno or with a single Coda, and Fine before the second Coda are each rejected with an error that names the kind of fault and the tick of a bar at fault.",
  ["histories", "inputs", "crash_points"],
  "Every arrangement of marks on any ticks from 0 to the largest one, in every project reached by edits, undo, redo, reopening and recovery.",
  "Tests reject one or two faulty scores.",
  [RP, GR, "src/bar.rs"],
  [("faults of regions", RP + " render_region"), ("faults of jumps", GR + " GlobalRepeatBuilder::on_bar, build")],
  [MARKS], ["render_region(rhythm, bars), Region::to_chunks"])

p("C22", "Playing positions and ticks convert back and forth exactly",
  "For every rendered score, the playing position of the k-th time a tick is played (k limited to 1 to 5) is the sum of everything played before it, what is played at that position is that tick, and a time beyond the number of times the tick is played is reported together with that number. "
  "This holds for joined and unjoined stretches alike, wherever the position is representable.",
  ["histories", "inputs"],
  "Every score that can be rendered, every tick on, beside and far from the borders of its stretches, every number of times.",
  "Tests convert some dozen positions on a few fixed scores and never back.",
  [PS, "src/play_iter.rs", RP],
  [("from a tick to a playing position", PS + " to_accum_tick"), ("the stretches by playing position", RP + " Chunk::by_accum_tick, Chunk::contains")],
  [MARKS], ["Chunk::by_accum_tick, PlayStartTick::to_accum_tick"])

NA = []
def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech)
    NA.append({"property": id, "reason": reason})
PURE = "A pure, single-threaded function of its arguments: no schedule, clock, I/O, fault or multi-party behaviour can influence it, so a simulator has nothing to decide; generating inputs for it would be property-based testing, not deterministic simulation."
na("C23", "Pitch arithmetic stays in range and is reversible",
  "Moving, sharpening or flattening a pitch gives the neighbouring pitch or an error at the ends of the range, and the opposite move gives it back.",
  ["inputs"], "Every pitch and move.", "Tests cover samples.",
  ["src/pitch.rs", "src/octave.rs", "src/solfa.rs", "src/sharp_flat.rs", "src/key.rs"], [("arithmetic", "src/pitch.rs")], PURE)
na("C24", "Bar mark sets never hold contradicting marks",
  "Adding a mark to a bar's marks either gives a set without contradicting marks containing it or reports the contradicting ones.",
  ["inputs"], "Every sequence of additions.", "Tests cover samples.",
  ["src/bar.rs"], [("compatibility table", "src/bar.rs try_add")], PURE)
na("C25", "Typed text is parsed to the value it denotes or rejected",
  "Text typed for positions, tempos, rhythms and grid gives the denoted value or is rejected, never a wrong value or a crash.",
  ["inputs"], "Every text.", "Tests cover samples.",
  ["src/text_input.rs", "src/location.rs", "src/rhythm.rs", "src/grid.rs"], [("parsers", "src/location.rs, src/text_input.rs")], PURE)
na("C26", "Lengths, trimmers and grid snapping compute the stated value",
  "A duration's length, a trimmer's total and a snapped position are the values their definitions give, without overflow over their whole domain.",
  ["inputs"], "Every value.", "Tests cover samples.",
  ["src/duration.rs", "src/trimmer.rs", "src/percent.rs", "src/grid.rs", "src/clipper.rs"], [("arithmetic", "src/duration.rs, src/trimmer.rs")], PURE)
na("C27", "The in-memory undo helper undoes and redoes exactly",
  "The stand-alone in-memory undo helper returns to each earlier state on undo and to each later one on redo, within its limit.",
  ["histories"], "Every sequence of operations.", "Tests cover samples.",
  ["src/undo.rs"], [("undo store", "src/undo.rs")],
  "A legacy single-threaded in-memory container that nothing in the project model uses; it has no concurrency, time, I/O or faults for a simulator to decide. The undo behaviour users rely on is C02, C03 and C07.")

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=True) + "\n")
with open(os.path.join(here, "tools", "not_applicable.json"), "w") as f:
    json.dump(NA, f, indent=1); f.write("\n")
