From b4e2e5f04f1af0bedc0b2db5f602729a5987739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:23 +0000
Subject: [PATCH 01/15] fix: a duration trimmer's total is that of its stored
 rates

RateTrimmer::new computed the total from the unrounded rates, so a note
sounded a different length after it had been saved and read back.
---
 src/trimmer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..69314af 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,7 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array([PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)])
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 74cbf9bb8b16903f382b108363fe102ac450bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 02/15] fix: sum the trimmer values without overflow

The total was computed in i16: reading back a note whose trims sum to more
than 32767 panicked (or wrapped around).
---
 src/trimmer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index 69314af..9d3ae94 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
-- 
2.43.0


From 8fe6158e4b1a8bfe2b607f4b9abdfb6d0c96811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 03/15] fix: report positions too far away instead of
 overflowing

---
 src/project.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..4c52d33 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -220,7 +220,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -229,12 +229,12 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        loc.bar_no().saturating_mul(self.rhythm.tick_len() as usize).saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        (loc.bar_no() - last_bar_no - 1).saturating_mul(tick_len).saturating_add(loc.offset()).saturating_add(last_bar.start_tick as usize)
                     },
                 };
 
-- 
2.43.0


From 986194cf57b6cc5cf21fa7f900c48e8f7d4f8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:29 +0000
Subject: [PATCH 04/15] fix: keep notes sounding together at one tick in a
 tuplet

Every note of a chord advanced the position, so a chord was torn apart and
later notes were misplaced. A division that a duration cannot hold was cut to
8 bits; such notes are left as they are.
---
 src/tuple.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..f45dd4f 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -12,7 +12,7 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let start_tick = work[0].base_start_tick();
         let (total_tick, total_unit) = total_tick_unit(&sorted);
         let denominator = total_unit / min_unit;
-        if denominator < 2 { return notes; }
+        if denominator < 2 || (Duration::MAX_DENOMINATOR as u32) < denominator { return notes; }
         let total_tick = total_tick / denominator * 2;
         let denominator = Denominator::from_value(denominator as u8).unwrap();
         let mut u = 0;
@@ -26,9 +26,9 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += e.unit().unwrap_or(0);
                 },
             }
         }
-- 
2.43.0


From f7f02e5db92caf3cbb337d000a6233b3b7901c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:20 +0000
Subject: [PATCH 05/15] fix: undo of edits placing several items at one tick

Items the edit itself had just added were recorded as the replaced ones, so
undo brought them back instead of restoring the previous project.
---
 src/project.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 4c52d33..8f3ca58 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1,3 +1,4 @@
+use std::collections::BTreeSet;
 use std::rc::Rc;
 
 use klavier_helper::bag_store::{BagStore, BagStoreEvent};
@@ -353,6 +354,12 @@ impl ProjectImpl {
     }
 }
 
+/// Items at the specified ticks. Each item is returned once even if its tick is specified several times.
+fn items_at<T: Copy>(store: &Store<u32, T, ModelChangeMetadata>, ticks: impl Iterator<Item = u32>) -> Vec<T> {
+    let ticks: BTreeSet<u32> = ticks.collect();
+    ticks.iter().filter_map(|tick| store.find(tick).ok().map(|idx| store[idx].1)).collect()
+}
+
 pub fn tempo_at(tick: u32, store: &Store<u32, Tempo, ModelChangeMetadata>) -> TempoValue {
     if store.is_empty() {
         DEFAULT_TEMPO
@@ -723,26 +730,30 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
             for b in to_add.bars.iter() {
                 buf.push((b.start_tick, *b));
             }
-            removed.bars = proj.bar_repo.bulk_add(buf, metadata).iter().map(|(_, bar)| *bar).collect();
+            removed.bars = items_at(&proj.bar_repo, buf.iter().map(|(tick, _)| *tick));
+            proj.bar_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.tempos.len());
             for t in to_add.tempos.iter() {
                 buf.push((t.start_tick, *t));
             }
-            removed.tempos = proj.tempo_repo.bulk_add(buf, metadata).iter().map(|(_, t)| *t).collect();
+            removed.tempos = items_at(&proj.tempo_repo, buf.iter().map(|(tick, _)| *tick));
+            proj.tempo_repo.bulk_add(buf, metadata);
     
     
             let mut buf = Vec::with_capacity(to_add.dumpers.len());
             for d in to_add.dumpers.iter() {
                 buf.push((d.start_tick, *d));
             }
-            removed.dumpers = proj.dumper_repo.bulk_add(buf, metadata).iter().map(|(_, d)| *d).collect();
+            removed.dumpers = items_at(&proj.dumper_repo, buf.iter().map(|(tick, _)| *tick));
+            proj.dumper_repo.bulk_add(buf, metadata);
     
             let mut buf = Vec::with_capacity(to_add.softs.len());
             for s in to_add.softs.iter() {
                 buf.push((s.start_tick, *s));
             }
-            removed.softs = proj.soft_repo.bulk_add(buf, metadata).iter().map(|(_, s)| *s).collect();
+            removed.softs = items_at(&proj.soft_repo, buf.iter().map(|(tick, _)| *tick));
+            proj.soft_repo.bulk_add(buf, metadata);
             
             let replenished_bars = proj.replenish_bars();
             to_add.bars.extend(replenished_bars);
@@ -787,7 +798,11 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 added.bars.push(*to);
                 removed.bars.push(*from);
             }
-            removed.bars.extend(proj.bar_repo.change(&bar_change, metadata).iter().map(|(_, b)| *b).collect::<Vec<Bar>>());
+            let from_ticks: BTreeSet<u32> = from_to.bars.iter().map(|(from, _)| from.start_tick).collect();
+            removed.bars.extend(items_at(
+                &proj.bar_repo, bar_change.iter().map(|(_, (tick, _))| *tick).filter(|tick| !from_ticks.contains(tick))
+            ));
+            proj.bar_repo.change(&bar_change, metadata);
 
             let mut tempo_change: Vec<(&u32, (u32, Tempo))> = Vec::with_capacity(from_to.tempos.len());
             for (from, to) in from_to.tempos.iter() {
@@ -797,7 +812,11 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 added.tempos.push(*to);
                 removed.tempos.push(*from);
             }
-            removed.tempos.extend(proj.tempo_repo.change(&tempo_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<Tempo>>());
+            let from_ticks: BTreeSet<u32> = from_to.tempos.iter().map(|(from, _)| from.start_tick).collect();
+            removed.tempos.extend(items_at(
+                &proj.tempo_repo, tempo_change.iter().map(|(_, (tick, _))| *tick).filter(|tick| !from_ticks.contains(tick))
+            ));
+            proj.tempo_repo.change(&tempo_change,metadata);
 
             let mut dumper_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.dumpers.len());
             for (from, to) in from_to.dumpers.iter() {
@@ -807,7 +826,11 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 added.dumpers.push(*to);
                 removed.dumpers.push(*from);
             }
-            removed.dumpers.extend(proj.dumper_repo.change(&dumper_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            let from_ticks: BTreeSet<u32> = from_to.dumpers.iter().map(|(from, _)| from.start_tick).collect();
+            removed.dumpers.extend(items_at(
+                &proj.dumper_repo, dumper_change.iter().map(|(_, (tick, _))| *tick).filter(|tick| !from_ticks.contains(tick))
+            ));
+            proj.dumper_repo.change(&dumper_change,metadata);
 
             let mut soft_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.softs.len());
             for (from, to) in from_to.softs.iter() {
@@ -817,7 +840,11 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 added.softs.push(*to);
                 removed.softs.push(*from);
             }
-            removed.softs.extend(proj.soft_repo.change(&soft_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            let from_ticks: BTreeSet<u32> = from_to.softs.iter().map(|(from, _)| from.start_tick).collect();
+            removed.softs.extend(items_at(
+                &proj.soft_repo, soft_change.iter().map(|(_, (tick, _))| *tick).filter(|tick| !from_ticks.contains(tick))
+            ));
+            proj.soft_repo.change(&soft_change,metadata);
 
             added.bars.extend(proj.replenish_bars());
             Ok(ProjectCmd::ModelChanged {
-- 
2.43.0


From e8d8d66d99104ce8d2ce046ed9d0ed7e2283de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:48 +0000
Subject: [PATCH 06/15] fix: reject invalid values in clipboard text

Text with a pitch out of range made reading it panic; too many dots and
invalid rates, channels, keys and rhythms were accepted and made later
operations panic.
---
 src/channel.rs  | 12 ++++++++++++
 src/duration.rs | 12 ++++++++++++
 src/key.rs      | 13 +++++++++++++
 src/percent.rs  | 18 ++++++++++++++++++
 src/pitch.rs    | 10 ++++++----
 src/rhythm.rs   | 12 ++++++++++++
 6 files changed, 73 insertions(+), 4 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..80a6489 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,19 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedChannel")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedChannel(u8);
+
+impl TryFrom<SerializedChannel> for Channel {
+    type Error = String;
+
+    fn try_from(ser: SerializedChannel) -> Result<Self, Self::Error> {
+        if ser.0 < 16 { Ok(Self(ser.0)) } else { Err(format!("Invalid channel value(={})", ser.0)) }
+    }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
diff --git a/src/duration.rs b/src/duration.rs
index 441e933..5e57f8b 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,21 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedDots")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedDots(u8);
+
+impl TryFrom<SerializedDots> for Dots {
+    type Error = String;
+
+    fn try_from(ser: SerializedDots) -> Result<Self, Self::Error> {
+        Self::from_value(ser.0).ok_or_else(|| format!("Invalid dots(={})", ser.0))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
diff --git a/src/key.rs b/src/key.rs
index a4dbe23..55e7648 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,22 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedKey")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+#[derive(serde::Deserialize)]
+struct SerializedKey(i8);
+
+impl TryFrom<SerializedKey> for Key {
+    type Error = String;
+
+    fn try_from(ser: SerializedKey) -> Result<Self, Self::Error> {
+        let key = Self(ser.0);
+        if Self::ALL.contains(&key) { Ok(key) } else { Err(format!("Invalid key(={})", ser.0)) }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..724cabd 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,29 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "PercentU16SerializedForm")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct PercentU16SerializedForm {
+    value: u16,
+}
+
+impl TryFrom<PercentU16SerializedForm> for PercentU16 {
+    type Error = String;
+
+    fn try_from(from: PercentU16SerializedForm) -> Result<Self, Self::Error> {
+        if MAX_VALUE < from.value as i32 {
+            Err(format!("Invalid rate(={})", from.value))
+        } else {
+            Ok(Self::from_value(from.value))
+        }
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..35b6ba3 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, Self::Error> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..588dc0d 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,21 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from = "SerializedNumerator")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+#[derive(serde::Deserialize)]
+struct SerializedNumerator(u8);
+
+impl TryFrom<SerializedNumerator> for Numerator {
+    type Error = String;
+
+    fn try_from(ser: SerializedNumerator) -> Result<Self, Self::Error> {
+        Self::from_value(ser.0).map_err(|_| format!("Invalid rhythm numerator(={})", ser.0))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From 9faae64fe6154ed252a6985a2120139bbe81ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 07/15] fix: keep tempos within their range when set or dragged

A tempo of 0 (typed, set or dragged to) was kept as 0 in the project but read
back as 1 from the file, so a reopened project differed from what was on
screen. Dragging a tempo below 0 made it 999.
---
 src/tempo.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..a100a3e 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -36,6 +36,8 @@ impl TempoValue {
     pub const fn new(value: u16) -> Self {
         if MAX_TEMPO_VALUE < value {
             panic!("Too large value.");
+        } else if value < MIN_TEMPO_VALUE {
+            MIN_TEMPO
         } else {
             TempoValue(value)
         }
@@ -100,7 +102,7 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::safe_new((self.value.as_u16() as i32).saturating_add(tempo_delta).clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16),
              ..*self
         }
     }
-- 
2.43.0


From 6cd4f4ef0fdd8c7950462b7d754a791ea5d71f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:47 +0000
Subject: [PATCH 08/15] fix: limit rates made from a raw value

A rate above 200% made with from_value was kept as it is but is refused when
read, so a project holding one could not be opened again. It is now limited
like a rate made from a number, both when made and when read.
---
 src/percent.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/percent.rs b/src/percent.rs
index 724cabd..324c038 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,7 +2,7 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(try_from = "PercentU16SerializedForm")]
+#[serde(from = "PercentU16SerializedForm")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
@@ -13,15 +13,9 @@ struct PercentU16SerializedForm {
     value: u16,
 }
 
-impl TryFrom<PercentU16SerializedForm> for PercentU16 {
-    type Error = String;
-
-    fn try_from(from: PercentU16SerializedForm) -> Result<Self, Self::Error> {
-        if MAX_VALUE < from.value as i32 {
-            Err(format!("Invalid rate(={})", from.value))
-        } else {
-            Ok(Self::from_value(from.value))
-        }
+impl From<PercentU16SerializedForm> for PercentU16 {
+    fn from(from: PercentU16SerializedForm) -> Self {
+        Self::from_value(from.value)
     }
 }
 
@@ -42,7 +36,7 @@ impl PercentU16 {
 
     pub const fn from_value(value: u16) -> PercentU16 {
         PercentU16 {
-            value,
+            value: if (MAX_VALUE as u16) < value { MAX_VALUE as u16 } else { value },
         }
     }
 
-- 
2.43.0


From cbfddb92aa4b574c5638959b038461c11ac415e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 09/15] fix: convert far ticks into playing positions

PlayStartTick::to_accum_tick added the tick before taking the chunk's start off, so a
tick far out overflowed although its playing position is representable.
---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0


From fa01e7cbe54bd50c245046a5137d55594436bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 10/15] fix: go back to the bar that completes the D.C. bar

The length of the first bar was taken for that of the bar D.C. ends, so an auftakt
whose last bar is short went back to the second bar instead of the top, and a first bar
longer than a measure was left out as if it were an auftakt (docs/repeat/order.md).
---
 src/global_repeat.rs | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..9367404 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -38,6 +38,7 @@ pub struct GlobalRepeatBuilder {
   pub coda: Option<Coda>,
   pub first_bar_len: Option<u32>,
   pub top_rhythm: Rhythm,
+  pub last_bar_tick: u32,
   pub warnings: Vec<RenderRegionWarning>,
 }
 
@@ -73,6 +74,7 @@ impl GlobalRepeatBuilder {
       coda: None,
       first_bar_len: None,
       top_rhythm: tune_rhythm,
+      last_bar_tick: 0,
       warnings: vec![],
     }
   }
@@ -160,20 +162,15 @@ impl GlobalRepeatBuilder {
     }
 
     if repeats.contains(Repeat::Dc) {
-      match self.first_bar_len {
-        Some(first_bar_len) => {
-          self = self.adding_dc(tick, first_bar_len)?;
-        }
-        None => {
-          self = self.adding_dc(tick, 0)?;
-        }
-      }
+      let dc_bar_len = tick - self.last_bar_tick;
+      self = self.adding_dc(tick, dc_bar_len)?;
     }
 
     self = if repeats.contains(Repeat::Ds) { self.adding_ds(tick)? } else { self };
     self = if repeats.contains(Repeat::Fine) { self.adding_fine(tick)? } else { self };
     self = if repeats.contains(Repeat::Segno) { self.adding_segno(tick)? } else { self };
     self = if repeats.contains(Repeat::Coda) { self.adding_coda(tick)? } else { self };
+    self.last_bar_tick = tick;
 
     Ok(self)
   }
@@ -220,10 +217,10 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
-                  0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
-                  0
+                if rhythm_tick_len <= first_bar_len {
+                  0 // Not auftakt.
+                } else if len + first_bar_len <= rhythm_tick_len {
+                  0 // The first bar completes the D.C. bar.
                 } else {
                   first_bar_len
                 }
-- 
2.43.0


From 26bb4421263b165fba5c0cfa4fbd99e06f262db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 11/15] fix: render stretches that contain nothing

With D.C. or D.S., a repeat sign or a coda on a bar at tick 0, a bar at the last tick, or
a coda where the second pass begins underflowed or made an empty interval, which
crashed or played the whole tune.
---
 src/global_repeat.rs | 22 ++++++++++------------
 src/repeat.rs        | 12 ++++++++++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 9367404..f8e190a 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -189,18 +189,16 @@ impl GlobalRepeatBuilder {
 
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
-    match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
-        ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+    let ranges = match coda {
+      Some([coda_from, coda_to]) => vec![(start_tick, coda_from), (coda_to, end_tick)],
+      None => vec![(start_tick, end_tick)],
+    };
+
+    ranges.into_iter()
+      .filter(|(from, to)| from < to)
+      .map(|(from, to)| (from, to - 1))
+      .collect::<Vec<(u32, u32)>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..84b60fd 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -74,6 +74,14 @@ impl Chunk {
   }
 }
 
+fn range_to_interval_set(range: &Range<u32>) -> IntervalSet<u32> {
+  if range.is_empty() {
+    vec![].to_interval_set()
+  } else {
+    (range.start, range.end - 1).to_interval_set()
+  }
+}
+
 pub trait Region: std::fmt::Debug {
   fn to_chunks(&self) -> Vec<Chunk>;
   fn to_iter1_interval_set(&self) -> IntervalSet<u32>;
@@ -148,7 +156,7 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    range_to_interval_set(&self.tick_range)
   }
 }
 
@@ -183,7 +191,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
-- 
2.43.0


From 34ab9e0eb266058217a1b1b441b3c00a4bc4b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 12/15] fix: reject D.C. and D.S. inside a repeat that starts
 at the top

As is done for a repeat with a start sign. It was played without the repeat, and in front
of a variation it crashed ("Logic error").
---
 src/repeat.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/repeat.rs b/src/repeat.rs
index 84b60fd..47ff108 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -403,6 +403,12 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        // D.C./D.S. located before the end of the region that implicitly starts at the top.
+        let inner_ds_dc = global_repeat.ds_dc.map(|d| d.tick()).filter(|t| *t < bar.base_start_tick());
+        if let (true, Some(tick)) = (bar.repeats.contains(Repeat::End), inner_ds_dc) {
+          return Err(report!(RenderRegionError::DcDsWhileRepeat { tick }));
+        }
+
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
@@ -416,6 +422,9 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
           if idx != VarIndex::VI1 {
             return Err(report!(RenderRegionError::InvalidRegionIndex { tick: bar.base_start_tick(), actual: idx, expected: VarIndex::VI1 }));
           }
+          if let Some(tick) = inner_ds_dc {
+            return Err(report!(RenderRegionError::DcDsWhileVariation { tick }));
+          }
           RenderRegionState::Variation { start_tick: 0, region_start_ticks: vec![bar.base_start_tick()] }
         } else {
           state
-- 
2.43.0


From 182b31915c2576f27ad6fbf0d6e13b6754046e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 13/15] fix: report an unexpected variation after the fourth
 one

A lower one following the fourth crashed instead of being reported.
---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 47ff108..295a804 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -477,7 +477,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From 099784f6af15709d86bd98c0a080b60ab34fd07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 14/15] fix: reject D.C. and D.S. on the first variation

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 295a804..41be560 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -422,7 +422,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
           if idx != VarIndex::VI1 {
             return Err(report!(RenderRegionError::InvalidRegionIndex { tick: bar.base_start_tick(), actual: idx, expected: VarIndex::VI1 }));
           }
-          if let Some(tick) = inner_ds_dc {
+          if let Some(tick) = global_repeat.ds_dc.map(|d| d.tick()) {
             return Err(report!(RenderRegionError::DcDsWhileVariation { tick }));
           }
           RenderRegionState::Variation { start_tick: 0, region_start_ticks: vec![bar.base_start_tick()] }
-- 
2.43.0


From 934556d769bf58aab8d0060103acd3df3c354b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 15/15] fix: find playing positions beside stretches that
 contain nothing

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 41be560..1e8df6d 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -63,7 +63,7 @@ impl Chunk {
     let mut offset: u32 = 0;
     let mut buf: Store<AccumTick, Chunk, ()> = Store::new(false);
 
-    for c in chunks {
+    for c in chunks.iter().filter(|c| c.len() != 0) {
         buf.add(offset, c.clone(), ());
         if c.end_tick() != u32::MAX {
             offset += c.len();
-- 
2.43.0

