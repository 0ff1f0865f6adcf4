From 133e0c7a58a81ec131ea7a723eb5e22c37ebea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 01/18] fix: reject corrupt method library documents instead of
 panicking

from_json (and so cc_lib, when reading a damaged cache file or download) panicked on a class ID it
doesn't know and on a stage of zero bells; both are now reported as errors.
---
 src/method_lib/lib_serde.rs | 40 +++++++++++++++++++++++++++++--------
 src/method_lib/mod.rs       |  5 ++++-
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..34fe40a 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,10 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{
+    collections::HashMap,
+    convert::TryFrom,
+    fmt::{Display, Formatter},
+};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -10,6 +14,7 @@ use crate::{
         class::{Class, FullClass},
         generate_title,
     },
+    stage::ZeroStageError,
     Stage,
 };
 
@@ -78,18 +83,37 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+/// The ways that well-formed JSON can fail to describe a [`MethodLib`]
+#[derive(Debug, Clone, Copy)]
+pub enum InvalidLibError {
+    ZeroStage(ZeroStageError),
+    UnknownClassId(u8),
+}
+
+impl Display for InvalidLibError {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            Self::ZeroStage(e) => write!(f, "{}", e),
+            Self::UnknownClassId(id) => write!(f, "Invalid Class ID {}", id),
+        }
+    }
+}
+
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = InvalidLibError;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, InvalidLibError> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(InvalidLibError::ZeroStage)?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or(InvalidLibError::UnknownClassId(group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +144,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +223,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..ab3e001 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -1,3 +1,5 @@
+#[cfg(feature = "method_lib_serde")]
+use std::convert::TryFrom;
 use std::{cmp::Ordering, collections::HashMap};
 
 use edit_distance::edit_distance;
@@ -166,7 +168,8 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        let lib = serde_json::from_str::<lib_serde::MethodLibSerde>(json)?;
+        Self::try_from(lib).map_err(serde_crate::de::Error::custom)
     }
 }
 
-- 
2.43.0


From 893ea57356e6a62d66a320eee3001fad4de640b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:29 +0000
Subject: [PATCH 02/18] fix: generate titles for stages without a name

generate_title panicked for stages above 22, which made from_json, to_json and
Method::from_place_not_string panic; the stage's Display form is used instead.
---
 src/method/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..ab2d611 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -215,8 +215,8 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         // If the class made the string longer, we need another space before the stage
         s.push(' ');
     }
-    // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    // Always push the stage (unnamed stages are pushed as e.g. '30 bells')
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From c3f8d436607a5d0332181cbfbe9d856f9a2117d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:12 +0000
Subject: [PATCH 03/18] fix: write the method library's cache file atomically

The cache file was truncated and then rewritten in place, so a crash, a full disk or a concurrent
reader could see a partial document.  The download is now written to a temporary file next to the
cache file, which is then moved into place.
---
 src/method_lib/mod.rs | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index ab3e001..40f4086 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -174,7 +174,11 @@ impl MethodLib {
 }
 
 #[cfg(feature = "cc_lib")]
-use std::path::PathBuf;
+use std::{
+    fs::{File, OpenOptions},
+    io::{self, Write},
+    path::{Path, PathBuf},
+};
 
 /// Fetch the CCCBR method library, or load it from a cached file
 #[cfg(feature = "cc_lib")]
@@ -209,11 +213,42 @@ impl MethodLib {
         // Save the JSON **after** creating the library, so we don't cache an invalid method
         // library
         if let Some(path) = Self::cache_file_path() {
-            let _ = std::fs::write(path, &json);
+            let _ = Self::write_cache_file(&path, &json);
         }
         Some(lib)
     }
 
+    /// Write the cache file so that it only ever contains a complete library: write everything to
+    /// a temporary file first, then move that file into place
+    fn write_cache_file(path: &Path, json: &str) -> io::Result<()> {
+        let (tmp_path, mut tmp_file) = Self::create_tmp_file(path)?;
+        let result = tmp_file
+            .write_all(json.as_bytes())
+            .and_then(|()| tmp_file.sync_all())
+            .and_then(|()| std::fs::rename(&tmp_path, path));
+        if result.is_err() {
+            let _ = std::fs::remove_file(&tmp_path);
+        }
+        result
+    }
+
+    /// Create a new file next to the cache file, which nobody else is writing to
+    fn create_tmp_file(path: &Path) -> io::Result<(PathBuf, File)> {
+        let mut counter = 0;
+        loop {
+            let extension = format!("json.{}-{}.tmp", std::process::id(), counter);
+            let tmp_path = path.with_extension(extension);
+            match OpenOptions::new()
+                .write(true)
+                .create_new(true)
+                .open(&tmp_path)
+            {
+                Err(e) if e.kind() == io::ErrorKind::AlreadyExists && counter < 100 => counter += 1,
+                result => return result.map(|file| (tmp_path, file)),
+            }
+        }
+    }
+
     /// Returns the expected location of the CC library's cache file
     fn cache_file_path() -> Option<PathBuf> {
         // Look for the cache directory in `$CACHE_DIR/cccbr-methods.json`
-- 
2.43.0


From 97db5ecd7b572ea12e79ed989bbbf7e099371de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 04/18] fix: suggesting titles works for every number of
 suggestions

Asking for zero suggestions, or for very many, panicked in the shortlist.
---
 src/method_lib/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 40f4086..713d563 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -123,6 +123,14 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // `Shortlist`s can't be empty and allocate all their memory up-front, so never ask for more
+        // suggestions than there are methods
+        let num_methods = self.method_map.values().map(HashMap::len).sum();
+        let num_suggestions = num_suggestions.min(num_methods);
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
+
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0


From 87bedeef7a0b138662b73b2ae324c5adefa7c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 05/18] fix: extending a block by a range adds only that
 range's annotations

AnnotBlock::extend_range added every annotation of the other block, so that
there were more annotations than rows.  It and extend_from_within now also copy
the annotations first, so that a bad range or a panicking clone leaves the
block unchanged.
---
 src/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..76ab6e0 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -324,6 +324,10 @@ impl<A> AnnotBlock<A> {
         let transposition =
             Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
 
+        // Copy the annotations before changing `self`, because both the range check and cloning
+        // the annotations could panic
+        let new_annots = other.annots[range.clone()].to_vec();
+
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
         self.rows
@@ -332,7 +336,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(new_annots);
 
         Ok(())
     }
@@ -345,6 +349,10 @@ impl<A> AnnotBlock<A> {
         // Clamp open ranges to `0..self.len()`, so our code only has to handle concrete `Range`s
         let range = utils::clamp_range(range, self.len());
 
+        // Copy the annotations before changing `self`, because both the range check and cloning
+        // the annotations could panic
+        let new_annots = self.annots[range.clone()].to_vec();
+
         // Compute the pre-transposition required to make the chunk start at `self.leftover_row`
         let first_row_of_chunk = self.get_row(range.start).unwrap();
         // This unwrap is fine because stages must match because both rows were taken from the same
@@ -359,7 +367,7 @@ impl<A> AnnotBlock<A> {
             .extend_transposed_from_within(range.start + 1..range.end + 1, &transposition)
             .unwrap(); // Stages must match because `transposition` comes from `self.row_buffer`
                        // Extend the annots
-        self.annots.extend_from_within(range);
+        self.annots.extend(new_annots);
     }
 
     ///////////////////////////////////
-- 
2.43.0


From e73b5897b7c0b253713b0913f445d34ad7a7d928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:59 +0000
Subject: [PATCH 06/18] fix: transposed extensions of row vectors check stages
 and ranges first

SameStageVec::extend_transposed accepted rows of another stage, and
extend_transposed_from_within could read the rows it was adding or leave part
of a row behind when its range was out of bounds.
---
 src/row/same_stage_vec.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..3818a8f 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
@@ -320,11 +321,13 @@ impl SameStageVec {
         transposition: &Row,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
-        // Copy the bells one-by-one, because otherwise we'd have to borrow `self.bells` twice and
-        // the borrow checker doesn't like that.
-        for i in self.to_bell_range(range) {
-            let transposed_bell = transposition[self.bells[i].index()];
-            self.bells.push(transposed_bell);
+        // Copy the bells untransposed (this panics without changing `self` if the range is out of
+        // bounds), then transpose the copies in-place.
+        let bell_range = self.to_bell_range(range);
+        let index_of_first_copy = self.bells.len();
+        self.bells.extend_from_within(bell_range);
+        for b in &mut self.bells[index_of_first_copy..] {
+            *b = transposition[b.index()];
         }
         Ok(())
     }
-- 
2.43.0


From 6b43bd7dda6cfc0fb584215a982acdac37acf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 07/18] fix: parsing rows or blocks from empty text is an
 error, not a panic

---
 src/row/same_stage_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 3818a8f..bada0ff 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,8 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        // The empty string has no lines, and is treated like one empty line.
+        let (_one, first_line) = line_iter.next().unwrap_or((1, ""));
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 67ae87a0ac5ccf8be0f3e5fdfbda60f71468e400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:07 +0000
Subject: [PATCH 08/18] fix: serialise bells as the number that deserialising
 them expects

---
 src/bell.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..8fd5f56 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,7 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        // Deserialising expects a `Bell`'s number (starting from 1)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From bbce656daf9e90bcc0e64425b68ce97368212272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:12 +0000
Subject: [PATCH 09/18] fix: deserialising a stage of zero bells is an error,
 not a panic

---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..4ef5c1e 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From 91a3298e25a63f70abbdb50f629cf3f9a7457d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 10/18] fix: masks which require something other than a row
 don't convert to rows

---
 src/mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..441db27 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -164,9 +164,9 @@ impl Mask {
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
         if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
+            // Masks can specify something that isn't a row (e.g. by requiring a bell twice), in
+            // which case no row is matched
+            RowBuf::from_bell_iter(self.bells.iter().map(|b| b.unwrap())).ok()
         } else {
             None
         }
-- 
2.43.0


From 83d673d3c61a9abc61cc76123220379122a24bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 11/18] fix: generating a group only uses rows whose stages
 were checked

---
 src/row/borrowed.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..1ee8ebf 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -709,6 +709,9 @@ impl Row {
     where
         Self: 'a,
     {
+        // Only iterate over the input once, so that the rows whose stages are checked are the rows
+        // which are used
+        let rows = rows.into_iter().collect_vec();
         // The algorithm used here is to expand every possible way of expanding the input elements,
         // in depth first order.
         let mut set = HashSet::<RowBuf>::new();
@@ -717,7 +720,7 @@ impl Row {
         // We seed the frontier and `set` manually the first time round to avoid checking the
         // stages all the time (if the input rows are all compatible, then so will any finite
         // product of them).
-        for r in rows.clone().into_iter() {
+        for &r in &rows {
             IncompatibleStages::test_err_opt(&mut stage, r.stage())?;
             if set.insert(r.to_owned()) {
                 frontier.push_back(r.to_owned());
@@ -729,7 +732,7 @@ impl Row {
         // because at each iteration the number of unexpanded nodes in the tree decreases and that
         // number is bounded by the size of the resulting group (which is finite).
         while let Some(r) = frontier.pop_front() {
-            for r2 in rows.clone().into_iter() {
+            for &r2 in &rows {
                 // This unsafety is OK because we checked that all Rows in `rows` have equal stages
                 let new_row = unsafe { r.mul_unchecked(r2) };
                 if !set.contains(&new_row) {
-- 
2.43.0


From c9a042e0970f39baec732f295e68b4823443745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:39 +0000
Subject: [PATCH 12/18] fix: huge row indices are out of range rather than
 overflowing

---
 src/row/same_stage_vec.rs | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index bada0ff..5fac5ac 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -173,7 +173,7 @@ impl SameStageVec {
 
     /// Gets a reference to the [`Row`] at a given `index`, or `None` if `index >= self.len()`.
     pub fn get(&self, index: usize) -> Option<&Row> {
-        let bell_slice = self.bells.get(self.get_range_of_row(index))?;
+        let bell_slice = self.bells.get(self.get_range_of_row(index)?)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
         Some(unsafe { Row::from_slice_unchecked(bell_slice) })
@@ -182,7 +182,7 @@ impl SameStageVec {
     /// Gets a mutable reference to the [`Row`] at a given `index`, or `None` if
     /// `index >= self.len()`.
     pub fn get_mut(&mut self, index: usize) -> Option<&mut Row> {
-        let range = self.get_range_of_row(index);
+        let range = self.get_range_of_row(index)?;
         let bell_slice = self.bells.get_mut(range)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
@@ -366,8 +366,8 @@ impl SameStageVec {
     /// - `a.len() == index`, and
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
-        let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+        let bell_index = index.checked_mul(self.stage.num_bells())?;
+        let (left_bells, right_bells) = utils::split_vec(self.bells, bell_index)?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -390,10 +390,12 @@ impl SameStageVec {
         bell_range
     }
 
-    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
-    fn get_range_of_row(&self, index: usize) -> Range<usize> {
+    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`, or
+    /// `None` if that would overflow (in which case there can't be a [`Row`] there).
+    fn get_range_of_row(&self, index: usize) -> Option<Range<usize>> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        let start = index.checked_mul(s)?;
+        Some(start..start.checked_add(s)?)
     }
 }
 
@@ -401,9 +403,14 @@ impl Index<usize> for SameStageVec {
     type Output = Row;
 
     fn index(&self, index: usize) -> &Self::Output {
-        // This unsafety is fine, because we require that every stage-aligned chunk of bells forms
-        // a valid row according to the Framework
-        unsafe { Row::from_slice_unchecked(&self.bells[self.get_range_of_row(index)]) }
+        match self.get(index) {
+            Some(row) => row,
+            None => panic!(
+                "row index {} out of range for `SameStageVec` of length {}",
+                index,
+                self.len()
+            ),
+        }
     }
 }
 
-- 
2.43.0


From ab048c967fe95a394fd1091d935740b256f19a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:29 +0000
Subject: [PATCH 13/18] fix: masks with one unspecified place match exactly one
 row

Mask::as_row and Mask::is_subset_of are documented in terms of the set of
rows matched by a mask, but both treated a mask with a single unspecified
place as if it could match more than one row.
---
 src/mask.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 441db27..6abf7db 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,18 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // Masks can specify something that isn't a row (e.g. by requiring a bell twice), in
-            // which case no row is matched
-            RowBuf::from_bell_iter(self.bells.iter().map(|b| b.unwrap())).ok()
-        } else {
-            None
+        let mut bells = self.bells.clone();
+        // If only one place is unspecified, then the only bell which could be there is the one
+        // which doesn't appear in the rest of the mask
+        if let Ok(place) = self.unspecified_places().exactly_one() {
+            bells[place] = (0..bells.len())
+                .map(Bell::from_index)
+                .find(|b| !self.bells.contains(&Some(*b)));
         }
+        let bells: Option<Vec<Bell>> = bells.into_iter().collect();
+        // Masks can specify something that isn't a row (e.g. by requiring a bell twice), in which
+        // case no row is matched
+        RowBuf::from_vec(bells?).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
@@ -180,6 +185,11 @@ impl Mask {
             return false;
         }
 
+        // If `self` only matches one row then it doesn't matter which of its places are specified
+        if let Some(row) = self.as_row() {
+            return other.matches(&row);
+        }
+
         // Now check that every bell required by `other` is also required by `self`
         for (b1, b2) in self.bells.iter().zip_eq(&other.bells) {
             match (*b1, *b2) {
-- 
2.43.0


From 3901f822b6b180e8718128bb3013df653596318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:59 +0000
Subject: [PATCH 14/18] fix: Row::fast_hash wraps instead of overflowing

Hashing any row of more than 16 bells panicked in builds with overflow
checks, although the documentation expects the hash to overflow there.
---
 src/row/borrowed.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 1ee8ebf..58eead5 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -805,11 +805,12 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            // The hashes of rows on large stages are expected to overflow
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From e64896b43023cc363e8851b9862d8abc6f86504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:28 +0000
Subject: [PATCH 15/18] fix: row iterators report their exact size

---
 src/row/same_stage_vec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 5fac5ac..aff540c 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -461,6 +461,13 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        // `ExactSizeIterator` requires this to be exact (e.g. `Zip::len` panics otherwise)
+        let num_rows = self.len();
+        (num_rows, Some(num_rows))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From 3e4590cfe573e6e6e89b4c910cd0745ab22ecf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 16/18] fix: read bells and stages by name from formats like
 JSON

Deserialising asked for an integer whatever the format, so self-describing formats refused the
names which the visitors handle.  Keys of maps, which JSON stores as text, still read back.
---
 src/bell.rs  | 25 ++++++++++++++++---------
 src/stage.rs | 13 ++++++++++++-
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index 8fd5f56..0bcb459 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -360,14 +360,15 @@ impl<'de> Visitor<'de> for BellVisitor {
     where
         E: Error,
     {
-        if v.len() != 1 {
-            return Err(E::custom(format!("'{}' is not a bell name", v)));
-        }
-
-        v.chars()
-            .next()
-            .and_then(Bell::from_name)
-            .ok_or(E::custom(format!("'{}' is not a bell name", v)))
+        let bell = if v.len() == 1 {
+            v.chars().next().and_then(Bell::from_name)
+        } else if v.bytes().all(|b| b.is_ascii_digit()) {
+            // Some formats (e.g. JSON) store the keys of maps as strings
+            v.parse::<usize>().ok().and_then(Bell::from_number)
+        } else {
+            None
+        };
+        bell.ok_or(E::custom(format!("'{}' is not a bell name", v)))
     }
 }
 
@@ -389,7 +390,13 @@ impl<'de> Deserialize<'de> for Bell {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(BellVisitor)
+        // Formats like JSON only allow names if we don't insist on an integer.  If types are not known
+        // (e.g. when using Bincode), `Bell`s are always stored as numbers.
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(BellVisitor)
+        } else {
+            deserializer.deserialize_u64(BellVisitor)
+        }
     }
 }
 
diff --git a/src/stage.rs b/src/stage.rs
index 4ef5c1e..3ce11b5 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -436,6 +436,12 @@ impl<'de> Visitor<'de> for StageVisitor {
     {
         let lower_str = v.to_lowercase();
         Stage::from_lower_case_name(&lower_str)
+            .or_else(|| {
+                // Some formats (e.g. JSON) store the keys of maps as strings
+                let is_number = v.bytes().all(|b| b.is_ascii_digit());
+                let num_bells = v.parse::<usize>().ok().filter(|_| is_number)?;
+                Stage::try_from(num_bells).ok()
+            })
             .ok_or_else(|| E::custom(format!("'{}' is not a stage name", v)))
     }
 }
@@ -457,7 +463,12 @@ impl<'de> Deserialize<'de> for Stage {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(StageVisitor)
+        // Formats like JSON only allow names if we don't insist on an integer
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(StageVisitor)
+        } else {
+            deserializer.deserialize_u64(StageVisitor)
+        }
     }
 }
 
-- 
2.43.0


From 1df6268abf39379d3b1ba362ece8203f015341b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 17/18] fix: make the cc_lib_gen feature compile again

The parser for the Central Council's XML still named Class by its old path,
relied on the From<usize> that Stage no longer has, and did not fill in the
title that CompactMethod gained (whose map is keyed by lower-case titles).
---
 src/method_lib/parse_cc_lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/method_lib/parse_cc_lib.rs b/src/method_lib/parse_cc_lib.rs
index 01ade15..6fa8d0a 100644
--- a/src/method_lib/parse_cc_lib.rs
+++ b/src/method_lib/parse_cc_lib.rs
@@ -3,7 +3,7 @@
 
 #![cfg(feature = "cc_lib_gen")]
 
-use crate::method::Class;
+use crate::method::class::Class;
 
 use super::*;
 use minidom::Element;
@@ -80,9 +80,10 @@ fn read_methods(root: &Element) -> LibraryMap {
 
             // Push the newly parsed method onto the map corresponding to the correct stage
             method_map.insert(
-                title,
+                title.to_lowercase(),
                 CompactMethod {
                     name,
+                    title,
                     full_class,
                     place_notation,
                 },
@@ -95,13 +96,13 @@ fn read_methods(root: &Element) -> LibraryMap {
 
 /// Read the `<properties>` element
 fn read_properties(properties: &Element) -> (Stage, FullClass) {
-    let stage: Stage = properties
+    let stage = properties
         .get_child("stage", NAMESPACE)
         .expect("Couldn't find `stage` element")
         .text()
         .parse::<usize>()
-        .expect("Stage wasn't a valid number")
-        .into();
+        .expect("Stage wasn't a valid number");
+    let stage = Stage::new(stage);
 
     let classification_elem = properties
         .get_child("classification", NAMESPACE)
-- 
2.43.0


From c4615de4854d1392a53e29ca23aef17df7aea0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:51 +0000
Subject: [PATCH 18/18] fix: don't turn a truncated collection into a smaller
 method library

minidom accepts XML which ends too early, closing all the open elements, so a
CCCBR collection which was cut short (e.g. by an interrupted download) produced
a library that silently lacks the rest of the methods.
---
 src/method_lib/parse_cc_lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/method_lib/parse_cc_lib.rs b/src/method_lib/parse_cc_lib.rs
index 6fa8d0a..7a40f5e 100644
--- a/src/method_lib/parse_cc_lib.rs
+++ b/src/method_lib/parse_cc_lib.rs
@@ -14,6 +14,12 @@ const NAMESPACE: &'static str = "http://www.cccbr.org.uk/methods/schemas/2007/05
 /// information in the process
 pub fn parse_cc_lib(xml: &str) -> MethodLib {
     let root: Element = xml.parse().unwrap();
+    // If the document has been cut short, `minidom` behaves as though its elements ended there.
+    // Make sure that we don't silently lose methods because of that.
+    assert!(
+        xml.trim_end().ends_with("</collection>"),
+        "XML ends before the end of the collection"
+    );
 
     // Get the file's date
     let date = root.attr("date").expect("Attr 'date' not found in root.");
-- 
2.43.0

