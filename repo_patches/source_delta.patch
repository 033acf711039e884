From 96ec75b134a13312d9743263a305064ad65c901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 01/66] fix: engine gc may drop an edit that comes after one it
 keeps

The retained revisions before a dropped one that inserted text kept subsets
that did not account for that text, so the next undo, gc or read panicked or
brought back the wrong characters.
---
 rust/rope/src/engine.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 14ab7da..9e3b152 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -606,29 +606,30 @@ impl Engine {
             self.tombstones = dels_from_tombstones.delete_from(&self.tombstones);
             self.deletes_from_union = self.deletes_from_union.transform_shrink(&gc_dels);
         }
+        // The characters inserted by the dropped revisions we have passed. From now on they
+        // count as having been there before any retained revision.
+        let mut dropped_inserts = Subset::new(gc_dels.len());
         let old_revs = std::mem::replace(&mut self.revs, Vec::new());
         for rev in old_revs.into_iter().rev() {
             match rev.edit {
                 Edit { priority, undo_group, inserts, deletes } => {
-                    let new_gc_dels = if inserts.is_empty() {
-                        None
-                    } else {
-                        Some(gc_dels.transform_shrink(&inserts))
-                    };
+                    let inserts = inserts.transform_expand(&dropped_inserts);
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let (inserts, deletes) = if gc_dels.is_empty() {
-                            (inserts, deletes)
-                        } else {
-                            (inserts.transform_shrink(&gc_dels), deletes.transform_shrink(&gc_dels))
-                        };
+                        let deletes = deletes.transform_expand(&dropped_inserts);
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
-                            edit: Edit { priority, undo_group, inserts, deletes },
+                            edit: Edit {
+                                priority,
+                                undo_group,
+                                inserts: inserts.transform_shrink(&gc_dels),
+                                deletes: deletes.transform_shrink(&gc_dels),
+                            },
                         });
-                    }
-                    if let Some(new_gc_dels) = new_gc_dels {
-                        gc_dels = new_gc_dels;
+                        gc_dels = gc_dels.transform_shrink(&inserts);
+                        dropped_inserts = dropped_inserts.transform_shrink(&inserts);
+                    } else {
+                        dropped_inserts = dropped_inserts.union(&inserts);
                     }
                 }
                 Undo { toggled_groups, deletes_bitxor } => {
-- 
2.43.0


From 2caaf72cde63343ac036b567051c94b5f451416c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 02/66] fix: engine gc must not let an undone edit that is the
 head revision come back

The head revision is always retained. When it belongs to an undone group that
is collected, its edit reappeared with the next undo, because the group is
forgotten by the caller.
---
 rust/rope/src/engine.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 9e3b152..0a31d80 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -581,8 +581,11 @@ impl Engine {
         {
             for rev in &self.revs {
                 if let Edit { ref undo_group, ref inserts, ref deletes, .. } = rev.edit {
-                    if !retain_revs.contains(&rev.rev_id) && gc_groups.contains(undo_group) {
-                        if self.undone_groups.contains(undo_group) {
+                    let retain = retain_revs.contains(&rev.rev_id);
+                    let undone = self.undone_groups.contains(undo_group);
+                    // a retained revision of an undone group stays, but never comes back
+                    if gc_groups.contains(undo_group) && (undone || !retain) {
+                        if undone {
                             if !inserts.is_empty() {
                                 gc_dels = gc_dels.transform_union(inserts);
                             }
@@ -615,7 +618,13 @@ impl Engine {
                 Edit { priority, undo_group, inserts, deletes } => {
                     let inserts = inserts.transform_expand(&dropped_inserts);
                     if retain_revs.contains(&rev.rev_id) || !gc_groups.contains(&undo_group) {
-                        let deletes = deletes.transform_expand(&dropped_inserts);
+                        let deletes = if gc_groups.contains(&undo_group)
+                            && self.undone_groups.contains(&undo_group)
+                        {
+                            Subset::new(gc_dels.len())
+                        } else {
+                            deletes.transform_expand(&dropped_inserts)
+                        };
                         self.revs.push(Revision {
                             rev_id: rev.rev_id,
                             max_undo_so_far: rev.max_undo_so_far,
-- 
2.43.0


From 82dd986f5c70cac21977ee657f73ef94fb61aeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 03/66] fix: merging edits of three or more replicas could
 diverge

compute_transforms combined consecutive revisions of equal priority even when
they came from different sessions, so they were all ordered by the first
one's session and concurrent inserts ended up in different orders on
different replicas (or, with multi-byte text, panicked).
---
 rust/rope/src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 0a31d80..0585cc2 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -872,18 +872,18 @@ fn compute_deltas(
 /// as opposed to thousands of revisions.
 fn compute_transforms(revs: Vec<Revision>) -> Vec<(FullPriority, Subset)> {
     let mut out = Vec::new();
-    let mut last_priority: Option<usize> = None;
+    let mut last_priority: Option<FullPriority> = None;
     for r in revs {
         if let Contents::Edit { priority, inserts, .. } = r.edit {
             if inserts.is_empty() {
                 continue;
             }
-            if Some(priority) == last_priority {
+            let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+            if Some(prio) == last_priority {
                 let last: &mut (FullPriority, Subset) = out.last_mut().unwrap();
                 last.1 = last.1.transform_union(&inserts);
             } else {
-                last_priority = Some(priority);
-                let prio = FullPriority { priority, session_id: r.rev_id.session_id() };
+                last_priority = Some(prio);
                 out.push((prio, inserts));
             }
         }
-- 
2.43.0


From f7a7e83ab500121702a81d9055bef9c404e08e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 04/66] fix: next codepoint from inside a multi-byte character
 skipped or split the following one

BaseMetric::next and Utf16CodeUnitsMetric::next took the byte at the offset for
the first byte of a character, so next_codepoint_offset and
at_or_next_codepoint_boundary called inside a character returned an offset
beyond, or in the middle of, the character after it.
---
 rust/rope/src/rope.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index b678bb1..a43cd15 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -200,8 +200,11 @@ impl Metric<RopeInfo> for BaseMetric {
             // with offset == s.len(), but be defensive.
             None
         } else {
-            let b = s.as_bytes()[offset];
-            Some(offset + len_utf8_from_first_byte(b))
+            let mut len = 1;
+            while !s.is_char_boundary(offset + len) {
+                len += 1;
+            }
+            Some(offset + len)
         }
     }
 
@@ -320,8 +323,11 @@ impl Metric<RopeInfo> for Utf16CodeUnitsMetric {
             // with offset == s.len(), but be defensive.
             None
         } else {
-            let b = s.as_bytes()[offset];
-            Some(offset + len_utf8_from_first_byte(b))
+            let mut len = 1;
+            while !s.is_char_boundary(offset + len) {
+                len += 1;
+            }
+            Some(offset + len)
         }
     }
 
-- 
2.43.0


From a87f74d7c6b4aabd693314527aede454c99b2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 05/66] fix: deletions and insertions of an edit were reported
 at shifted old offsets

Delta::iter_deletions and iter_inserts advanced their position in the old text
by the length of inserted text.  The deletion that belongs to a replacement was
therefore reported shifted and shortened, or not at all, and the second of two
adjacent insertions got a wrong old offset.
---
 rust/rope/src/delta.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/rust/rope/src/delta.rs b/rust/rope/src/delta.rs
index a904217..21c67ff 100644
--- a/rust/rope/src/delta.rs
+++ b/rust/rope/src/delta.rs
@@ -654,7 +654,6 @@ impl<'a, N: NodeInfo> Iterator for InsertsIter<'a, N> {
                 DeltaElement::Insert(ref n) => {
                     result = Some(DeltaRegion::new(self.last_end, self.pos, n.len()));
                     self.pos += n.len();
-                    self.last_end += n.len();
                     break;
                 }
             }
@@ -689,7 +688,6 @@ impl<'a, N: NodeInfo> Iterator for DeletionsIter<'a, N> {
                 }
                 DeltaElement::Insert(ref n) => {
                     self.pos += n.len();
-                    self.last_end += n.len();
                 }
             }
         }
-- 
2.43.0


From 50e4143f16df24cc55d11c0b642129eb65fa43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:25 +0000
Subject: [PATCH 06/66] fix: backward comparison of ropes could stop inside a
 multi-byte character

---
 rust/rope/src/compare.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/compare.rs b/rust/rope/src/compare.rs
index 36da4b9..fc38331 100644
--- a/rust/rope/src/compare.rs
+++ b/rust/rope/src/compare.rs
@@ -248,7 +248,7 @@ impl<'a> RopeScanner<'a> {
                 ne_idx_rev(self.base_chunk.as_bytes(), self.target_chunk.as_bytes())
             {
                 // find nearest codepoint boundary
-                while idx > 1 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
+                while idx > 0 && !self.base_chunk.is_char_boundary(self.base_chunk.len() - idx) {
                     idx -= 1;
                 }
                 return stop.min(self.scanned + idx);
-- 
2.43.0


From 9cf4c19299a2a456a3ba3ff77ea3da0aac17b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 07/66] fix: line-hash diff could copy overlapping or
 out-of-order regions of the base

---
 rust/rope/src/diff.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/rope/src/diff.rs b/rust/rope/src/diff.rs
index cead72e..d4327b2 100644
--- a/rust/rope/src/diff.rs
+++ b/rust/rope/src/diff.rs
@@ -114,21 +114,27 @@ impl Diff<RopeInfo> for LineHashDiff {
         // we keep track of how far forward we extend it each time, to avoid
         // having a subsequent scan extend backwards over the same region.
         let mut prev_end = start_offset;
+        // the copied regions of the base must also not overlap one another, nor
+        // the ends of the base that we have already matched.
+        let mut prev_base_end = start_offset;
+        let base_end = base.len() - diff_end;
 
         for (targ_off, base_off) in longest_subseq {
-            if targ_off <= prev_end {
+            if targ_off <= prev_end || base_off < prev_base_end || base_off >= base_end {
                 continue;
             }
+            let max_left = (targ_off - prev_end).min(base_off - prev_base_end);
             let (left_dist, mut right_dist) =
-                expand_match(base, target, base_off, targ_off, prev_end);
+                expand_match(base, target, base_off, targ_off, max_left);
 
-            // don't let last match expand past target_end
-            right_dist = right_dist.min(target_end - targ_off);
+            // don't let last match expand past the end of the differing regions
+            right_dist = right_dist.min(target_end - targ_off).min(base_end - base_off);
 
             let targ_start = targ_off - left_dist;
             let base_start = base_off - left_dist;
             let len = left_dist + right_dist;
             prev_end = targ_start + len;
+            prev_base_end = base_start + len;
 
             builder.copy(base_start, targ_start, len);
         }
@@ -152,10 +158,9 @@ fn expand_match(
     target: &Rope,
     base_off: usize,
     targ_off: usize,
-    prev_match_targ_end: usize,
+    max_left: usize,
 ) -> (usize, usize) {
     let mut scanner = RopeScanner::new(base, target);
-    let max_left = targ_off - prev_match_targ_end;
     let start = scanner.find_ne_char_back(base_off, targ_off, max_left);
     debug_assert!(start <= max_left, "{} <= {}", start, max_left);
     let end = scanner.find_ne_char(base_off, targ_off, None);
-- 
2.43.0


From 694e28bf2d309cfe27a313b2277c2e4b0520c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:52 +0000
Subject: [PATCH 08/66] fix: emoji sequences crossing a leaf of the rope were
 split or joined wrongly

---
 rust/rope/src/rope.rs | 74 +++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/rust/rope/src/rope.rs b/rust/rope/src/rope.rs
index a43cd15..1dea303 100644
--- a/rust/rope/src/rope.rs
+++ b/rust/rope/src/rope.rs
@@ -679,59 +679,57 @@ impl<'a> Cursor<'a, RopeInfo> {
     }
 
     pub fn next_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (l, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
         while offset < l.len() && !l.is_char_boundary(offset) {
             pos -= 1;
             offset -= 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, self.total_len(), true);
-        let mut next_boundary = c.next_boundary(&l, leaf_offset);
-        while let Err(incomp) = next_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::NextChunk {
-                self.set(pos);
-                let (nl, noffset) = self.next_leaf()?;
-                l = nl;
-                leaf_offset = self.pos() - noffset;
-                pos = leaf_offset + nl.len();
-            } else {
-                return None;
-            }
-            next_boundary = c.next_boundary(&l, leaf_offset);
-        }
-        next_boundary.unwrap_or(None)
+        self.grapheme_boundary(l, pos - offset, |text, start, len| {
+            GraphemeCursor::new(pos, len, true).next_boundary(text, start)
+        })
     }
 
     pub fn prev_grapheme(&mut self) -> Option<usize> {
-        let (mut l, mut offset) = self.get_leaf()?;
+        let (l, mut offset) = self.get_leaf()?;
         let mut pos = self.pos();
         while offset < l.len() && !l.is_char_boundary(offset) {
             pos += 1;
             offset += 1;
         }
-        let mut leaf_offset = pos - offset;
-        let mut c = GraphemeCursor::new(pos, l.len() + leaf_offset, true);
-        let mut prev_boundary = c.prev_boundary(&l, leaf_offset);
-        while let Err(incomp) = prev_boundary {
-            if let GraphemeIncomplete::PreContext(_) = incomp {
-                let (pl, poffset) = self.prev_leaf()?;
-                c.provide_context(&pl, self.pos() - poffset);
-            } else if incomp == GraphemeIncomplete::PrevChunk {
-                self.set(pos);
-                let (pl, poffset) = self.prev_leaf()?;
-                l = pl;
-                leaf_offset = self.pos() - poffset;
-                pos = leaf_offset + pl.len();
-            } else {
-                return None;
+        self.grapheme_boundary(l, pos - offset, |text, start, len| {
+            GraphemeCursor::new(pos, len, true).prev_boundary(text, start)
+        })
+    }
+
+    /// Find a grapheme boundary, starting from a leaf and the offset at which
+    /// it starts. When the boundary can't be determined from the given text,
+    /// the search is repeated with the text extended by the adjacent leaf: a
+    /// `GraphemeCursor` that is resumed with more context can misjudge emoji
+    /// sequences.
+    fn grapheme_boundary<F>(&mut self, leaf: &str, leaf_offset: usize, find: F) -> Option<usize>
+    where
+        F: Fn(&str, usize, usize) -> Result<Option<usize>, GraphemeIncomplete>,
+    {
+        let mut text = Cow::from(leaf);
+        let mut start = leaf_offset;
+        loop {
+            match find(&text, start, self.total_len()) {
+                Ok(boundary) => return boundary,
+                Err(GraphemeIncomplete::PreContext(_)) | Err(GraphemeIncomplete::PrevChunk) => {
+                    self.set(start);
+                    let (pl, _) = self.prev_leaf()?;
+                    start -= pl.len();
+                    text = Cow::from(pl.to_owned() + &text);
+                }
+                Err(GraphemeIncomplete::NextChunk) => {
+                    self.set(start + text.len());
+                    let (nl, _) = self.get_leaf()?;
+                    text = Cow::from(text.into_owned() + nl);
+                }
+                Err(GraphemeIncomplete::InvalidOffset) => return None,
             }
-            prev_boundary = c.prev_boundary(&l, leaf_offset);
         }
-        prev_boundary.unwrap_or(None)
     }
 }
 
-- 
2.43.0


From 041e27709e9cda4233296a53057e16dba346bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 09/66] fix: remove the cursors from lines they have left

An "update" op without a cursor property leaves the cursors of the line
as they were; to delete them the property must be the empty list.
---
 rust/core-lib/src/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 24283d2..6a1d3eb 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -680,7 +680,8 @@ impl View {
                 style_spans
             ));
         }
-        if !cursors.is_empty() {
+        // In an update of an existing line, a missing "cursor" would leave the cursors as they were.
+        if !cursors.is_empty() || text.is_none() {
             result["cursor"] = json!(cursors);
         }
         if let Some(line_num) = line.line_num {
-- 
2.43.0


From a8234fea96380bd111f0627cade80130f47f59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:45 +0000
Subject: [PATCH 10/66] fix: show a cursor after the last line break on one
 line only

The line before the final, empty one ends where the text ends, too, and
was drawn with the cursor of the empty line.
---
 rust/core-lib/src/view.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 6a1d3eb..e487e7d 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -622,7 +622,7 @@ impl View {
         line: VisualLine,
         text: Option<&Rope>,
         style_spans: Option<&Spans<Style>>,
-        last_pos: usize,
+        last_pos: Option<usize>,
     ) -> Value {
         let start_pos = line.interval.start;
         let pos = line.interval.end;
@@ -635,7 +635,7 @@ impl View {
             if (c > start_pos && c < pos)
                 || (!region.is_upstream() && c == start_pos)
                 || (region.is_upstream() && c == pos)
-                || (c == pos && c == last_pos)
+                || (c == pos && Some(c) == last_pos)
             {
                 cursors.push(c - start_pos);
             }
@@ -794,6 +794,11 @@ impl View {
         let mut ops = Vec::new();
         let mut line_num = 0; // tracks old line cache
 
+        // a cursor at the end of the text belongs to the end of the last line, unless
+        // there is an empty line after the last line break
+        let last_pos =
+            Some(text.len()).filter(|&pos| pos > 0 && text.byte_at(pos - 1) != b'\n');
+
         for seg in self.lc_shadow.iter_with_plan(plan) {
             match seg.tactic {
                 RenderTactic::Discard => {
@@ -842,7 +847,7 @@ impl View {
                                         l,
                                         /* text = */ None,
                                         /* style_spans = */ None,
-                                        text.len(),
+                                        last_pos,
                                     )
                                 })
                                 .collect::<Vec<_>>();
@@ -870,7 +875,7 @@ impl View {
                                         l,
                                         Some(text),
                                         Some(style_spans),
-                                        text.len(),
+                                        last_pos,
                                     )
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 26b3876e18eac821641d2e93067b903786ad2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 11/66] fix: delete backwards from carets next to each other

Two carets within what is deleted as one unit (a tab's worth of spaces, an
emoji sequence) gave overlapping deletions, and the delta builder panicked.
---
 rust/core-lib/src/edit_ops.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 075695a..6c9b308 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -112,11 +112,13 @@ pub fn delete_backward(base: &Rope, regions: &[SelRegion], config: &BufferItems)
     // TODO: this function is workable but probably overall code complexity
     // could be improved by implementing a "backspace" movement instead.
     let mut builder = DeltaBuilder::new(base.len());
+    let mut last = 0;
     for region in regions {
-        let start = offset_for_delete_backwards(&region, base, &config);
-        let iv = Interval::new(start, region.max());
-        if !iv.is_empty() {
-            builder.delete(iv);
+        // several carets can stand in what is deleted as a unit
+        let start = offset_for_delete_backwards(&region, base, &config).max(last);
+        if start < region.max() {
+            builder.delete(Interval::new(start, region.max()));
+            last = region.max();
         }
     }
 
-- 
2.43.0


From 3b13fbd1b509b58fe969e1e04d5bd93e69999873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:53 +0000
Subject: [PATCH 12/66] fix: insert tabs for regions that share lines

A region over several lines on a line where another one is gave edits out
of order (a panic) or indented a line twice; and the width of a tab that
replaces a region depended on which end of it the caret was.
---
 rust/core-lib/src/edit_ops.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 6c9b308..1c7a013 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -15,7 +15,7 @@
 //! Functions for editing ropes.
 
 use std::borrow::Cow;
-use std::collections::BTreeSet;
+use std::collections::{BTreeMap, BTreeSet};
 
 use xi_rope::{Cursor, DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta};
 
@@ -206,7 +206,8 @@ pub fn insert_newline(base: &Rope, regions: &[SelRegion], config: &BufferItems)
 }
 
 pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> RopeDelta {
-    let mut builder = DeltaBuilder::new(base.len());
+    // sorted, and only one of equal ones: regions can share lines
+    let mut tabs = BTreeMap::new();
     let const_tab_text = get_tab_text(config, None);
 
     for region in regions {
@@ -215,20 +216,22 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                let iv = Interval::new(offset, offset);
-                builder.replace(iv, Rope::from(const_tab_text));
+                tabs.insert((offset, offset), const_tab_text);
             }
         } else {
-            let (_, col) = LogicalLines.offset_to_line_col(base, region.start);
+            let (_, col) = LogicalLines.offset_to_line_col(base, region.min());
             let mut tab_size = config.tab_size;
             tab_size = tab_size - (col % tab_size);
             let tab_text = get_tab_text(config, Some(tab_size));
 
-            let iv = Interval::new(region.min(), region.max());
-            builder.replace(iv, Rope::from(tab_text));
+            tabs.insert((region.min(), region.max()), tab_text);
         }
     }
 
+    let mut builder = DeltaBuilder::new(base.len());
+    for ((start, end), tab_text) in tabs {
+        builder.replace(Interval::new(start, end), Rope::from(tab_text));
+    }
     builder.build()
 }
 
-- 
2.43.0


From eaa818904ea27b144cce39e1410722240ed3be27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:55 +0000
Subject: [PATCH 13/66] fix: duplicate the last line

A last line without a line break was not duplicated at all, and one with a
line break, being the end of the text, got another line break.
---
 rust/core-lib/src/edit_ops.rs | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 1c7a013..f82de15 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -17,7 +17,7 @@
 use std::borrow::Cow;
 use std::collections::{BTreeMap, BTreeSet};
 
-use xi_rope::{Cursor, DeltaBuilder, Interval, LinesMetric, Rope, RopeDelta};
+use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta};
 
 use crate::backspace::offset_for_delete_backwards;
 use crate::config::BufferItems;
@@ -78,30 +78,22 @@ pub fn duplicate_line(base: &Rope, regions: &[SelRegion], config: &BufferItems)
         let (first_line, _) = LogicalLines.offset_to_line_col(base, region.min());
         let line_start = LogicalLines.offset_of_line(base, first_line);
 
-        let mut cursor = match region.is_caret() {
-            true => Cursor::new(base, line_start),
-            false => {
-                // duplicate all lines together that are part of the same selections
-                let (last_line, _) = LogicalLines.offset_to_line_col(base, region.max());
-                let line_end = LogicalLines.offset_of_line(base, last_line);
-                Cursor::new(base, line_end)
-            }
-        };
-
-        if let Some(line_end) = cursor.next::<LinesMetric>() {
-            to_duplicate.insert((line_start, line_end));
-        }
+        // duplicate all lines together that are part of the same selections
+        let (last_line, _) = LogicalLines.offset_to_line_col(base, region.max());
+        let line_end = LogicalLines.offset_of_line(base, last_line + 1);
+        to_duplicate.insert((line_start, line_end));
     }
 
     for (start, end) in to_duplicate {
         // insert duplicates
         let iv = Interval::new(start, start);
-        builder.replace(iv, base.slice(start..end));
+        let mut lines = base.slice(start..end);
 
         // last line does not have new line character so it needs to be manually added
-        if end == base.len() {
-            builder.replace(iv, Rope::from(&config.line_ending))
+        if start == end || base.byte_at(end - 1) != b'\n' {
+            lines = lines + Rope::from(&config.line_ending);
         }
+        builder.replace(iv, lines);
     }
 
     builder.build()
-- 
2.43.0


From 3c612efcf4831df061bbc1c3fa808548118642a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:58 +0000
Subject: [PATCH 14/66] fix: transpose next to other transpositions and wide
 characters

At the end of a line the last two characters are swapped: these may not be
one byte wide, and another caret or region may have claimed them before.
---
 rust/core-lib/src/edit_ops.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index f82de15..b501785 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -15,6 +15,7 @@
 //! Functions for editing ropes.
 
 use std::borrow::Cow;
+use std::cmp::max;
 use std::collections::{BTreeMap, BTreeSet};
 
 use xi_rope::{DeltaBuilder, Interval, Rope, RopeDelta};
@@ -301,7 +302,10 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
                 if (end == middle || end == end_line_offset) && end != base.len() {
                     middle = start;
                     start = base.prev_grapheme_offset(middle).unwrap_or(0);
-                    end = middle.wrapping_add(1);
+                    end = base.next_grapheme_offset(middle).unwrap_or(middle);
+                    if start < last {
+                        continue;
+                    }
                 }
 
                 let interval = Interval::new(start, end);
@@ -313,7 +317,9 @@ pub fn transpose(base: &Rope, regions: &[SelRegion]) -> RopeDelta {
             }
         } else if let Some(previous_selection) = optional_previous_selection {
             let current_interval = sel_region_to_interval_and_rope(base, region);
-            builder.replace(current_interval.0, previous_selection.1);
+            let replaced = Interval::new(max(region.min(), last), region.max());
+            builder.replace(replaced, previous_selection.1);
+            last = region.max();
             optional_previous_selection = Some(current_interval);
         }
     }
-- 
2.43.0


From f0fc644f456260a63bc40e36d2edcc8f4713c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 15/66] fix: change a number once with several carets in it

The replacements overlapped, and the delta builder panicked.
---
 rust/core-lib/src/edit_ops.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index b501785..3262dab 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -361,6 +361,7 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
     transform_function: F,
 ) -> RopeDelta {
     let mut builder = DeltaBuilder::new(base.len());
+    let mut last = 0;
     for region in regions {
         let mut cursor = WordCursor::new(base, region.end);
         let (mut start, end) = cursor.select_word();
@@ -370,10 +371,16 @@ pub fn change_number<F: Fn(i128) -> Option<i128>>(
             start -= 1;
         }
 
+        // several carets in the same number change it once
+        if start < last {
+            continue;
+        }
+
         let word = base.slice_to_cow(start..end);
         if let Some(number) = word.parse::<i128>().ok().and_then(&transform_function) {
             let interval = Interval::new(start, end);
             builder.replace(interval, Rope::from(number.to_string()));
+            last = end;
         }
     }
 
-- 
2.43.0


From 185337866d6c728aed8073068bade1c050788d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 16/66] fix: capitalize words with wide characters, and only
 those selected

The first character of a word need not be one byte wide; words after the
region were capitalized; and a word shared by two regions was replaced twice,
which the delta builder rejects with a panic.
---
 rust/core-lib/src/edit_ops.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 3262dab..144286b 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -392,25 +392,36 @@ pub fn capitalize_text(base: &Rope, regions: &[SelRegion]) -> (RopeDelta, Select
     let mut builder = DeltaBuilder::new(base.len());
     let mut final_selection = Selection::new();
 
+    let mut last = 0;
+
     for &region in regions {
         final_selection.add_region(SelRegion::new(region.max(), region.max()));
         let mut word_cursor = WordCursor::new(base, region.min());
+        let mut first = true;
 
         loop {
             // capitalize each word in the current selection
             let (start, end) = word_cursor.select_word();
+            if !first && start >= region.max() {
+                break;
+            }
+            first = false;
 
+            // a word can be part of several regions
+            let start = max(start, last);
             if start < end {
                 let interval = Interval::new(start, end);
                 let word = base.slice_to_cow(start..end);
 
                 // first letter is uppercase, remaining letters are lowercase
-                let (first_char, rest) = word.split_at(1);
+                let first_len = word.chars().next().map(|c| c.len_utf8()).unwrap_or(0);
+                let (first_char, rest) = word.split_at(first_len);
                 let capitalized_text = [first_char.to_uppercase(), rest.to_lowercase()].concat();
                 builder.replace(interval, Rope::from(capitalized_text));
+                last = end;
             }
 
-            if word_cursor.next_boundary().is_none() || end > region.max() {
+            if end >= region.max() || word_cursor.next_boundary().is_none() {
                 break;
             }
         }
-- 
2.43.0


From 67885b960008f0d1865059b116f450b7e9a3044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 17/66] fix: add a selection above or below an empty last line

The length of the line was assumed to include a line break.
---
 rust/core-lib/src/movement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 210005b..748d5a7 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -111,7 +111,7 @@ fn vertical_motion_exact_pos(
     let mut line = if move_up { init_line - 1 } else { init_line.saturating_add(1) };
 
     // If the active columns is longer than the current line, use the current line length.
-    let col = if line_length < col { line_length - 1 } else { col };
+    let col = if line_length < col { line_length.saturating_sub(1) } else { col };
 
     loop {
         line_length = lo.offset_of_line(text, line + 1) - lo.offset_of_line(text, line);
-- 
2.43.0


From c7fb5c275f73e3d4cd87f623834614e5d5d0952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:46 +0000
Subject: [PATCH 18/66] fix: delete to the end of the paragraph on a last line
 without line break

There is no line break to be found then, and nothing was deleted.
---
 rust/core-lib/src/movement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/movement.rs b/rust/core-lib/src/movement.rs
index 748d5a7..dfc88a0 100644
--- a/rust/core-lib/src/movement.rs
+++ b/rust/core-lib/src/movement.rs
@@ -261,8 +261,8 @@ pub fn region_movement(
         }
         Movement::EndOfParagraphKill => {
             // Note: TextEdit would start at modify ? r.end : r.max()
-            let mut offset = r.end;
-            let mut cursor = Cursor::new(&text, offset);
+            let mut offset = text.len();
+            let mut cursor = Cursor::new(&text, r.end);
             if let Some(next_para_offset) = cursor.next::<LinesMetric>() {
                 offset = next_para_offset;
                 if cursor.is_boundary::<LinesMetric>() {
-- 
2.43.0


From 6854761a9c244d582279b03baefb23c62a56fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:49 +0000
Subject: [PATCH 19/66] fix: split a selection into lines to its very end

The last character of the selection was dropped, whether a line break or not
(if it is wide, ending the selection within it), and with it the whole last
line if that has no line break.
---
 rust/core-lib/src/view.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index e487e7d..97f456f 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -545,14 +545,16 @@ impl View {
 
                 while cursor.pos() < region.max() {
                     let sel_start = cursor.pos();
-                    let end_of_line = match cursor.next::<LinesMetric>() {
-                        Some(end) if end >= region.max() => max(0, region.max() - 1),
-                        Some(end) => max(0, end - 1),
-                        None if cursor.pos() == text.len() => cursor.pos(),
-                        _ => break,
-                    };
-
-                    selection.add_region(SelRegion::new(sel_start, end_of_line));
+                    match cursor.next::<LinesMetric>() {
+                        Some(end) if end <= region.max() => {
+                            // the line break is left out
+                            selection.add_region(SelRegion::new(sel_start, end - 1));
+                        }
+                        _ => {
+                            selection.add_region(SelRegion::new(sel_start, region.max()));
+                            break;
+                        }
+                    }
                 }
             }
         }
-- 
2.43.0


From 6720395541caa404209a3300d28e59131fa958e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:54 +0000
Subject: [PATCH 20/66] fix: consider both regions that meet at the end of a
 range

Only the first of them was taken to touch the range.
---
 rust/core-lib/src/selection.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/selection.rs b/rust/core-lib/src/selection.rs
index acde566..ab02baf 100644
--- a/rust/core-lib/src/selection.rs
+++ b/rust/core-lib/src/selection.rs
@@ -130,7 +130,7 @@ impl Selection {
     pub fn regions_in_range(&self, start: usize, end: usize) -> &[SelRegion] {
         let first = self.search(start);
         let mut last = self.search(end);
-        if last < self.regions.len() && self.regions[last].min() <= end {
+        while last < self.regions.len() && self.regions[last].min() <= end {
             last += 1;
         }
         &self.regions[first..last]
@@ -146,7 +146,7 @@ impl Selection {
         if !delete_adjacent && self.regions[first].max() == start {
             first += 1;
         }
-        if last < self.regions.len()
+        while last < self.regions.len()
             && ((delete_adjacent && self.regions[last].min() <= end)
                 || (!delete_adjacent && self.regions[last].min() < end))
         {
-- 
2.43.0


From a0c318e993c3ef8baffa9d4b41487c0becc3cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 21/66] fix: carets after capitalizing

They were set for the text before the edit but in the one after it, which
may be shorter or longer (a panic, or carets in the wrong place).
---
 rust/core-lib/src/editor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 26e4bdb..4bf8b9e 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -482,15 +482,16 @@ impl Editor {
 
     fn do_capitalize_text(&mut self, view: &mut View) {
         let (delta, final_selection) = edit_ops::capitalize_text(&self.text, view.sel_regions());
-        if !delta.is_identity() {
-            self.this_edit_type = EditType::Other;
-            self.add_delta(delta);
-        }
 
         // at the end of the transformation carets are located at the end of the words that were
-        // transformed last in the selections
+        // transformed last in the selections; the edit moves them along when it is committed
         view.collapse_selections(&self.text);
         view.set_selection(&self.text, final_selection);
+
+        if !delta.is_identity() {
+            self.this_edit_type = EditType::Other;
+            self.add_delta(delta);
+        }
     }
 
     fn do_modify_indent(&mut self, view: &View, config: &BufferItems, direction: IndentDirection) {
-- 
2.43.0


From c8ce1329331e89977aa3b2053bbffb8292594e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 22/66] fix: keep the selection when there is nothing to
 replace

It was saved for that, but never restored.
---
 rust/core-lib/src/editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 4bf8b9e..b5a7494 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -427,7 +427,7 @@ impl Editor {
 
             match last_selection_region(view.sel_regions()) {
                 Some(_) => self.add_delta(edit_ops::insert(&self.text, view.sel_regions(), chars)),
-                None => return,
+                None => view.set_selection(&self.text, old_selection),
             };
         }
     }
-- 
2.43.0


From 20bea27fa3d556d643fddd423f31e08fa6f644e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 23/66] fix: keep search results equal to what a search of the
 text finds

After an edit, the lines searched again ended at a wrong place, and the
search started wherever the previous match ended: matches were lost, or
found where there are none. Batches that met within a line disagreed about
it, and never removed what did not match any more. Regular expressions were
matched against the rest of the line after each match, so that anchors
matched there too; with several lines in a row the positions could go wrong
altogether. Whole words with wide characters at their ends were not found
or made the search panic. Matches over several lines are now only searched
for in the whole text.
---
 rust/core-lib/src/find.rs | 204 ++++++++++++++++++++++----------------
 rust/core-lib/src/view.rs |   8 +-
 2 files changed, 121 insertions(+), 91 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index ae9e712..623ffd9 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -25,7 +25,7 @@ use crate::word_boundaries::WordCursor;
 use regex::{Regex, RegexBuilder};
 use xi_rope::delta::DeltaRegion;
 use xi_rope::find::{find, is_multiline_regex, CaseMatching};
-use xi_rope::{Cursor, Interval, LinesMetric, Metric, Rope, RopeDelta};
+use xi_rope::{Cursor, Interval, LinesMetric, Rope, RopeDelta};
 
 const REGEX_SIZE_LIMIT: usize = 1000000;
 
@@ -138,6 +138,12 @@ impl Find {
     pub fn update_highlights(&mut self, text: &Rope, delta: &RopeDelta) {
         // update search highlights for changed regions
         if self.search_string.is_some() {
+            if self.is_multiline() {
+                // what is matched, and from where, can change everywhere
+                self.update_find(text, 0, text.len(), true);
+                return;
+            }
+
             // invalidate occurrences around deletion positions
             for DeltaRegion { old_offset, len, .. } in delta.iter_deletions() {
                 self.occurrences.delete_range(old_offset, old_offset + len, false);
@@ -145,46 +151,11 @@ impl Find {
 
             self.occurrences = self.occurrences.apply_delta(delta, false, InsertDrift::Default);
 
-            // invalidate occurrences around insert positions
-            for DeltaRegion { new_offset, len, .. } in delta.iter_inserts() {
-                // also invalidate previous occurrence since it might expand after insertion
-                // eg. for regex .* every insertion after match will be part of match
-                self.occurrences.delete_range(
-                    new_offset.saturating_sub(1),
-                    new_offset + len,
-                    false,
-                );
-            }
-
-            // update find for the whole delta and everything after
+            // search the lines with changes again, including their line breaks
             let (iv, new_len) = delta.summary();
-
-            // get last valid occurrence that was unaffected by the delta
-            let start = match self.occurrences.regions_in_range(0, iv.start()).last() {
-                Some(reg) => reg.end,
-                None => 0,
-            };
-
-            // invalidate all search results from the point of the last valid search result until ...
-            let is_multiline = LinesMetric::next(self.search_string.as_ref().unwrap(), 0).is_some();
-
-            if is_multiline || self.is_multiline_regex() {
-                // ... the end of the file
-                self.occurrences.delete_range(iv.start(), text.len(), false);
-                self.update_find(text, start, text.len(), false);
-            } else {
-                // ... the end of the line including line break
-                let mut cursor = Cursor::new(&text, iv.end() + new_len);
-
-                let end_of_line = match cursor.next::<LinesMetric>() {
-                    Some(end) => end,
-                    None if cursor.pos() == text.len() => cursor.pos(),
-                    _ => return,
-                };
-
-                self.occurrences.delete_range(iv.start(), end_of_line, false);
-                self.update_find(text, start, end_of_line, false);
-            }
+            let start = text.offset_of_line(text.line_of_offset(iv.start()));
+            let end = end_of_line(text, iv.start() + new_len);
+            self.update_find(text, start, end, false);
         }
     }
 
@@ -193,6 +164,15 @@ impl Find {
         self.regex.is_some() && is_multiline_regex(self.search_string.as_ref().unwrap())
     }
 
+    /// Returns `true` if matches of the search query can span several lines.
+    pub(crate) fn is_multiline(&self) -> bool {
+        match self.search_string {
+            Some(_) if self.regex.is_some() => self.is_multiline_regex(),
+            Some(ref s) => s.contains('\n'),
+            None => false,
+        }
+    }
+
     /// Unsets the search and removes all highlights from the view.
     pub fn unset(&mut self) {
         self.search_string = None;
@@ -247,76 +227,112 @@ impl Find {
     }
 
     /// Execute the search on the provided text in the range provided by `start` and `end`.
+    /// The occurrences found replace those known so far in that range.
     pub fn update_find(&mut self, text: &Rope, start: usize, end: usize, include_slop: bool) {
-        if self.search_string.is_none() {
-            return;
+        let slop = match self.search_string {
+            Some(ref s) if s.is_empty() => return,
+            // extend the search by twice the string length (twice, because case matching may
+            // increase the length of an occurrence)
+            Some(ref s) if include_slop => s.len() * 2,
+            Some(_) => 0,
+            None => return,
+        };
+
+        // expand region to be able to find occurrences around the region's edges
+        let (mut from, mut to) = if !include_slop {
+            (start, end)
+        } else if self.is_multiline() {
+            (0, text.len())
+        } else if self.regex.is_some() {
+            (text.offset_of_line(text.line_of_offset(start)), end_of_line(text, end))
+        } else {
+            (start.saturating_sub(slop), min(end + slop, text.len()))
+        };
+        if include_slop {
+            // occurrences that are partly in the region will be searched again
+            let regions = self.occurrences.regions_in_range(from, to);
+            from = regions.first().map(|r| min(from, r.min())).unwrap_or(from);
+            to = regions.last().map(|r| max(to, r.max())).unwrap_or(to);
         }
+        let from = text.at_or_prev_codepoint_boundary(from).unwrap_or(0);
+        let to = text.at_or_next_codepoint_boundary(to).unwrap_or(text.len());
 
-        // extend the search by twice the string length (twice, because case matching may increase
-        // the length of an occurrence)
-        let slop = if include_slop { self.search_string.as_ref().unwrap().len() * 2 } else { 0 };
+        if from == 0 && to == text.len() {
+            self.occurrences = Selection::new();
+        } else if from < to {
+            self.occurrences.delete_range(from, to, false);
+        }
 
-        let search_string = self.search_string.as_ref().unwrap();
+        match self.regex.clone() {
+            Some(ref regex) if self.is_multiline_regex() => {
+                self.find_regex(text, regex, &text.slice_to_cow(from..to), from)
+            }
+            Some(ref regex) => {
+                let mut pos = from;
+                while pos < to {
+                    let end = min(end_of_line(text, pos), to);
+                    self.find_regex(text, regex, &text.slice_to_cow(pos..end), pos);
+                    pos = end;
+                }
+            }
+            None => self.find_string(text, from, to),
+        }
 
-        // expand region to be able to find occurrences around the region's edges
-        let expanded_start = max(start, slop) - slop;
-        let expanded_end = min(end + slop, text.len());
-        let from = text.at_or_prev_codepoint_boundary(expanded_start).unwrap_or(0);
-        let to = text.at_or_next_codepoint_boundary(expanded_end).unwrap_or(text.len());
-        let mut to_cursor = Cursor::new(&text, to);
-        let _ = to_cursor.next_leaf();
-
-        let sub_text = text.subseq(Interval::new(0, to_cursor.pos()));
-        let mut find_cursor = Cursor::new(&sub_text, from);
+        self.hls_dirty = true;
+    }
 
-        let mut raw_lines = text.lines_raw(from..to);
+    /// Finds the search string in the range between `from` and `to`.
+    fn find_string(&mut self, text: &Rope, from: usize, to: usize) {
+        let search_string = self.search_string.clone().unwrap_or_default();
+        let sub_text = text.subseq(Interval::new(0, to));
+        let mut find_cursor = Cursor::new(&sub_text, from);
+        let mut raw_lines = sub_text.lines_raw(from..to);
 
-        while let Some(start) = find(
-            &mut find_cursor,
-            &mut raw_lines,
-            self.case_matching,
-            &search_string,
-            self.regex.as_ref(),
-        ) {
+        while let Some(start) =
+            find(&mut find_cursor, &mut raw_lines, self.case_matching, &search_string, None)
+        {
             let end = find_cursor.pos();
 
             if self.whole_words && !self.is_matching_whole_words(text, start, end) {
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
                 continue;
             }
 
-            let region = SelRegion::new(start, end);
-            let (_, e) = self.occurrences.add_range_distinct(region);
+            let (_, e) = self.occurrences.add_range_distinct(SelRegion::new(start, end));
             // in case of ambiguous search results (e.g. search "aba" in "ababa"),
             // the search result closer to the beginning of the file wins
-            if e != end {
+            if e > end {
                 // Skip the search result and keep the occurrence that is closer to
                 // the beginning of the file. Re-align the cursor to the kept
                 // occurrence
+                if e >= to {
+                    break;
+                }
                 find_cursor.set(e);
-                raw_lines = text.lines_raw(find_cursor.pos()..to);
-                continue;
             }
+        }
+    }
 
-            // in case current cursor matches search result (for example query a* matches)
-            // all cursor positions, then cursor needs to be increased so that search
-            // continues at next position. Otherwise, search will result in overflow since
-            // search will always repeat at current cursor position.
-            if start == end {
-                // determine whether end of text is reached and stop search or increase
-                // cursor manually
-                if end + 1 >= text.len() {
-                    break;
-                } else {
-                    find_cursor.set(end + 1);
-                }
+    /// Finds the regular expression in `part`, the part of the text that starts at `offset`.
+    fn find_regex(&mut self, text: &Rope, regex: &Regex, part: &str, offset: usize) {
+        let mut pos = 0;
+        while pos < part.len() {
+            let (start, end) = match regex.find_at(part, pos) {
+                Some(m) => (m.start(), m.end()),
+                None => break,
+            };
+
+            let (from, to) = (offset + start, offset + end);
+            if !self.whole_words || self.is_matching_whole_words(text, from, to) {
+                self.occurrences.add_range_distinct(SelRegion::new(from, to));
             }
 
-            // update line iterator so that line starts at current cursor position
-            raw_lines = text.lines_raw(find_cursor.pos()..to);
+            pos = end;
+            // in case the match is empty (for example query a* matches all positions)
+            // the search has to continue at the next position
+            if start == end {
+                pos += part[end..].chars().next().map(|c| c.len_utf8()).unwrap_or(1);
+            }
         }
-
-        self.hls_dirty = true;
     }
 
     /// Return the occurrence closest to the provided selection `sel`. If searched is reversed then
@@ -389,8 +405,15 @@ impl Find {
 
     /// Checks if the start and end of a match is matching whole words.
     fn is_matching_whole_words(&self, text: &Rope, start: usize, end: usize) -> bool {
-        let mut word_end_cursor = WordCursor::new(text, end - 1);
-        let mut word_start_cursor = WordCursor::new(text, start + 1);
+        if start == end {
+            return false;
+        }
+
+        // positions after the first and before the last character of the match
+        let after_first = text.next_codepoint_offset(start).unwrap_or(end);
+        let before_last = text.prev_codepoint_offset(end).unwrap_or(start);
+        let mut word_end_cursor = WordCursor::new(text, before_last);
+        let mut word_start_cursor = WordCursor::new(text, after_first);
 
         if let Some(start_boundary) = word_start_cursor.prev_boundary() {
             if start_boundary != start {
@@ -408,6 +431,11 @@ impl Find {
     }
 }
 
+/// Returns the end of the line, after its line break, that `offset` is on.
+fn end_of_line(text: &Rope, offset: usize) -> usize {
+    Cursor::new(text, offset).next::<LinesMetric>().unwrap_or_else(|| text.len())
+}
+
 /// Implementing the `ToAnnotation` trait allows to convert finds to annotations.
 impl ToAnnotation for Find {
     fn get_annotations(&self, interval: Interval, view: &View, text: &Rope) -> AnnotationSlice {
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 97f456f..85201f6 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1106,10 +1106,12 @@ impl View {
             FindProgress::InProgress(searched_range) => {
                 if searched_range.start == 0 && searched_range.end >= text.len() {
                     // the entire text has been searched
-                    // end find by executing multi-line regex queries on entire text
+                    // end find by executing all queries on entire text
                     // stop incremental find
                     self.find_progress = FindProgress::Ready;
                     self.find_changed = FindStatusChange::All;
+                    // occurrences found since the last update have to be rendered
+                    self.set_dirty(text);
                     Some((0, text.len()))
                 } else {
                     self.find_changed = FindStatusChange::Matches;
@@ -1145,10 +1147,10 @@ impl View {
 
         if let Some((search_range_start, search_range_end)) = search_range {
             for query in &mut self.find {
-                if !query.is_multiline_regex() {
+                if !query.is_multiline() {
                     query.update_find(text, search_range_start, search_range_end, true);
                 } else {
-                    // only execute multi-line regex queries if we are searching the entire text (last step)
+                    // only execute multi-line queries if we are searching the entire text (last step)
                     if search_range_start == 0 && search_range_end == text.len() {
                         query.update_find(text, search_range_start, search_range_end, true);
                     }
-- 
2.43.0


From f0682331c2419883db48badbec8cafe052f871c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 24/66] fix: render lines whose matches changed with an edit
 elsewhere

A match over several lines can appear or go away by an edit of one of them.
---
 rust/core-lib/src/view.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 85201f6..e2287c0 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1009,10 +1009,16 @@ impl View {
         self.annotations.invalidate(iv);
 
         // update only find highlights affected by change
+        let mut multiline = false;
         for find in &mut self.find {
             find.update_highlights(text, delta);
+            multiline |= find.is_multiline();
             self.find_changed = FindStatusChange::All;
         }
+        if multiline {
+            // other lines can have other matches now
+            self.set_dirty(text);
+        }
 
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
-- 
2.43.0


From 7ea36dc8e5caa6b665d298fdf636693bb801d15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 25/66] fix: send the find status when no lines have to be sent

It was kept back until lines were to be sent again, as after an edit outside
of the visible lines.
---
 rust/core-lib/src/view.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index e2287c0..a1649e1 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -770,6 +770,13 @@ impl View {
             .chain(plugin_annotations)
             .collect::<Vec<_>>();
 
+        // send updated find status only if there have been changes
+        if self.find_changed != FindStatusChange::None {
+            let matches_only = self.find_changed == FindStatusChange::Matches;
+            client.find_status(self.view_id, &json!(self.find_status(text, matches_only)));
+            self.find_changed = FindStatusChange::None;
+        }
+
         if !self.lc_shadow.needs_render(plan) {
             let total_lines = self.line_of_offset(text, text.len()) + 1;
             let update =
@@ -778,13 +785,6 @@ impl View {
             return;
         }
 
-        // send updated find status only if there have been changes
-        if self.find_changed != FindStatusChange::None {
-            let matches_only = self.find_changed == FindStatusChange::Matches;
-            client.find_status(self.view_id, &json!(self.find_status(text, matches_only)));
-            self.find_changed = FindStatusChange::None;
-        }
-
         // send updated replace status if changed
         if self.replace_changed {
             if let Some(replace) = self.get_replace() {
-- 
2.43.0


From e4fc9b6d8ed32073f2a411fa0f679b05ed88caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 26/66] fix: an unknown query id must not stop the other
 queries from being set

The queries after it were not set, and no search was started although
queries were removed.
---
 rust/core-lib/src/view.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index a1649e1..2164d3c 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1073,7 +1073,8 @@ impl View {
                     // update existing query
                     match self.find.iter().position(|f| f.id() == id) {
                         Some(p) => p,
-                        None => return,
+                        // a query that is gone
+                        None => continue,
                     }
                 }
                 None => {
-- 
2.43.0


From 8bab5ee55b72ef3367b59cda5510f8c91d8a945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 27/66] fix: find the next match across the end of the text
 only when wrapping

It was always found there, and the request to wrap around made no difference.
A selection to the end of the text made the search for the next match look
behind it.
---
 rust/core-lib/src/find.rs | 15 +++++++++------
 rust/core-lib/src/view.rs | 13 ++++++++-----
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index 623ffd9..c96e362 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -336,13 +336,13 @@ impl Find {
     }
 
     /// Return the occurrence closest to the provided selection `sel`. If searched is reversed then
-    /// the occurrence closest to the start of the selection is returned. `wrapped` indicates that
-    /// if the end of the text is reached the search continues from the start.
+    /// the occurrence closest to the start of the selection is returned. `bounded` indicates that
+    /// the search does not continue from the start if the end of the text is reached.
     pub fn next_occurrence(
         &self,
         text: &Rope,
         reverse: bool,
-        wrapped: bool,
+        bounded: bool,
         sel: &Selection,
     ) -> Option<SelRegion> {
         if self.occurrences.len() == 0 {
@@ -369,7 +369,7 @@ impl Find {
                 None => None,
             };
 
-            if next_occurrence.is_none() && !wrapped {
+            if next_occurrence.is_none() && !bounded {
                 // get previous unselected occurrence
                 return self
                     .occurrences
@@ -384,9 +384,12 @@ impl Find {
 
             next_occurrence.cloned()
         } else {
-            let next_occurrence = self.occurrences.regions_in_range(sel_end, text.len()).first();
+            let next_occurrence = match sel_end <= text.len() {
+                true => self.occurrences.regions_in_range(sel_end, text.len()).first(),
+                false => None,
+            };
 
-            if next_occurrence.is_none() && !wrapped {
+            if next_occurrence.is_none() && !bounded {
                 // get next unselected occurrence
                 return self
                     .occurrences
diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 2164d3c..34a39e0 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1175,8 +1175,9 @@ impl View {
         allow_same: bool,
         modify_selection: &SelectionModifier,
     ) {
-        self.select_next_occurrence(text, reverse, false, allow_same, modify_selection);
-        if self.scroll_to.is_none() && wrap {
+        let found =
+            self.select_next_occurrence(text, reverse, false, allow_same, modify_selection);
+        if !found && wrap {
             self.select_next_occurrence(text, reverse, true, allow_same, modify_selection);
         }
     }
@@ -1198,7 +1199,8 @@ impl View {
 
     /// Select the next occurrence relative to the last cursor. `reverse` determines whether the
     /// next occurrence before (`true`) or after (`false`) the last cursor is selected. `wrapped`
-    /// indicates a search for the next occurrence past the end of the file.
+    /// indicates a search for the next occurrence past the end of the file. Returns `true` if there
+    /// is one.
     pub fn select_next_occurrence(
         &mut self,
         text: &Rope,
@@ -1206,7 +1208,7 @@ impl View {
         wrapped: bool,
         _allow_same: bool,
         modify_selection: &SelectionModifier,
-    ) {
+    ) -> bool {
         let (cur_start, cur_end) = match self.selection.last() {
             Some(sel) => (sel.min(), sel.max()),
             _ => (0, 0),
@@ -1216,7 +1218,7 @@ impl View {
         let closest_occurrence = self
             .find
             .iter()
-            .flat_map(|x| x.next_occurrence(text, reverse, wrapped, &self.selection))
+            .flat_map(|x| x.next_occurrence(text, reverse, !wrapped, &self.selection))
             .min_by_key(|x| match reverse {
                 true if x.end > cur_end => 2 * text.len() - x.end,
                 true => cur_end - x.end,
@@ -1251,6 +1253,7 @@ impl View {
                 _ => {}
             }
         }
+        closest_occurrence.is_some()
     }
 
     fn do_set_replace(&mut self, chars: String, preserve_case: bool) {
-- 
2.43.0


From 93d2571592789c5222174d3c0a0d55feb1714ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 28/66] fix: find upper case letters other than ASCII when
 ignoring case

The scan for candidates compared lower case characters with the first one of
the pattern as typed.
---
 rust/rope/src/find.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/find.rs b/rust/rope/src/find.rs
index b5862ac..5ef5d81 100644
--- a/rust/rope/src/find.rs
+++ b/rust/rope/src/find.rs
@@ -137,7 +137,7 @@ pub fn find_progress(
                         let scanner = |s: &str| memchr(b, s.as_bytes());
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     } else {
-                        let c = pat.chars().next().unwrap();
+                        let c = pat_lower.chars().next().unwrap();
                         let scanner = |s: &str| scan_lowercase(c, s);
                         find_progress_iter(cursor, lines, &pat_lower, scanner, matcher, num_steps)
                     }
-- 
2.43.0


From f521661ad444f837c1e90ea3d39a6cc0098aed70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 29/66] fix: nothing to undo after a recording that cannot be
 played

Playing a recording that does not exist, or is being made, began an undo
group with nothing in it, and what could be redone was lost.
---
 rust/core-lib/src/event_context.rs |  3 +++
 rust/core-lib/src/recorder.rs      | 21 +++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 55df61a..b13074d 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -180,6 +180,9 @@ impl<'a> EventContext<'a> {
             SpecialEvent::ToggleRecording(_) => {}
             SpecialEvent::PlayRecording(recording_name) => {
                 let recorder = self.recorder.borrow();
+                if !recorder.can_play(&recording_name) {
+                    return;
+                }
 
                 let starting_revision = self.editor.borrow_mut().get_head_rev_token();
 
diff --git a/rust/core-lib/src/recorder.rs b/rust/core-lib/src/recorder.rs
index 3afffd4..91407c9 100644
--- a/rust/core-lib/src/recorder.rs
+++ b/rust/core-lib/src/recorder.rs
@@ -105,12 +105,8 @@ impl Recorder {
         recording_buffer.push(current_event);
     }
 
-    /// Iterates over a specified recording's buffer and runs the specified action
-    /// on each event.
-    pub(crate) fn play<F>(&self, recording_name: &str, action: F)
-    where
-        F: FnMut(&EventDomain),
-    {
+    /// Returns `true` if there is a recording of that name that is not being recorded right now.
+    pub(crate) fn can_play(&self, recording_name: &str) -> bool {
         let is_current_recording: bool = self
             .active_recording
             .as_ref()
@@ -118,6 +114,19 @@ impl Recorder {
 
         if is_current_recording {
             warn!("Cannot play recording while it's currently active!");
+            return false;
+        }
+
+        self.recordings.contains_key(recording_name)
+    }
+
+    /// Iterates over a specified recording's buffer and runs the specified action
+    /// on each event.
+    pub(crate) fn play<F>(&self, recording_name: &str, action: F)
+    where
+        F: FnMut(&EventDomain),
+    {
+        if !self.can_play(recording_name) {
             return;
         }
 
-- 
2.43.0


From 015fc58c13311b6e4c5fb4557acfffd9ae434d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:56 +0000
Subject: [PATCH 30/66] fix: render the caret of regions that an edit merged

The caret can move to the other end of the region, in a line that was not
edited and so was not rendered.
---
 rust/core-lib/src/view.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 34a39e0..85f515d 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -1023,7 +1023,12 @@ impl View {
         // Note: for committing plugin edits, we probably want to know the priority
         // of the delta so we can set the cursor before or after the edit, as needed.
         let new_sel = self.selection.apply_delta(delta, true, drift);
+        let merged = new_sel.len() != self.selection.len();
         self.set_selection_for_edit(text, new_sel);
+        if merged {
+            // the caret of a merged region can be at its other end, outside of the edit
+            self.invalidate_selection(text);
+        }
     }
 
     fn do_selection_for_find(&mut self, text: &Rope, case_sensitive: bool) {
-- 
2.43.0


From 2e7e53a42d0638049a323c33d677eec102fa8afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 31/66] fix: search ranges chosen before an edit may end inside
 a character

---
 rust/core-lib/src/find.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rust/core-lib/src/find.rs b/rust/core-lib/src/find.rs
index c96e362..43e058c 100644
--- a/rust/core-lib/src/find.rs
+++ b/rust/core-lib/src/find.rs
@@ -238,6 +238,10 @@ impl Find {
             None => return,
         };
 
+        // the region may have been chosen before the text was changed
+        let start = text.at_or_prev_codepoint_boundary(min(start, text.len())).unwrap_or(0);
+        let end = text.at_or_next_codepoint_boundary(min(end, text.len())).unwrap_or(text.len());
+
         // expand region to be able to find occurrences around the region's edges
         let (mut from, mut to) = if !include_slop {
             (start, end)
-- 
2.43.0


From b2a815d76e85dd8929a14a00f3b92e32f73fe850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 32/66] fix: a request made after the peer is gone waits for
 ever

---
 rust/rpc/src/lib.rs | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 14d79bd..7778fe6 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -190,12 +190,20 @@ struct Timer {
     token: usize,
 }
 
+/// The requests waiting for a response. Once the connection is closed no
+/// response can arrive anymore, and requests fail right away.
+#[derive(Default)]
+struct Pending {
+    handlers: BTreeMap<usize, ResponseHandler>,
+    closed: bool,
+}
+
 struct RpcState<W: Write> {
     rx_queue: Mutex<VecDeque<Result<RpcObject, ReadError>>>,
     rx_cvar: Condvar,
     writer: Mutex<W>,
     id: AtomicUsize,
-    pending: Mutex<BTreeMap<usize, ResponseHandler>>,
+    pending: Mutex<Pending>,
     idle_queue: Mutex<VecDeque<usize>>,
     timers: Mutex<BinaryHeap<Timer>>,
     needs_exit: AtomicBool,
@@ -217,7 +225,7 @@ impl<W: Write + Send> RpcLoop<W> {
             rx_cvar: Condvar::new(),
             writer: Mutex::new(writer),
             id: AtomicUsize::new(0),
-            pending: Mutex::new(BTreeMap::new()),
+            pending: Mutex::new(Pending::default()),
             idle_queue: Mutex::new(VecDeque::new()),
             timers: Mutex::new(BinaryHeap::new()),
             needs_exit: AtomicBool::new(false),
@@ -257,6 +265,7 @@ impl<W: Write + Send> RpcLoop<W> {
         let exit = crossbeam_utils::thread::scope(|scope| {
             let peer = self.get_raw_peer();
             peer.reset_needs_exit();
+            peer.0.pending.lock().unwrap().closed = false;
 
             let ctx = RpcCtx { peer: Box::new(peer.clone()) };
             scope.spawn(move |_| {
@@ -272,6 +281,7 @@ impl<W: Write + Send> RpcLoop<W> {
                     let json = match self.reader.next(&mut stream) {
                         Ok(json) => json,
                         Err(err) => {
+                            self.peer.close();
                             if self.peer.0.is_blocked.load(Ordering::Acquire) {
                                 error!("failed to parse response json: {}", err);
                                 self.peer.disconnect();
@@ -467,7 +477,12 @@ impl<W: Write> RawPeer<W> {
         let id = self.0.id.fetch_add(1, Ordering::Relaxed);
         {
             let mut pending = self.0.pending.lock().unwrap();
-            pending.insert(id, rh);
+            if pending.closed {
+                drop(pending);
+                rh.invoke(Err(Error::PeerDisconnect));
+                return;
+            }
+            pending.handlers.insert(id, rh);
         }
         if let Err(e) = self.send(&json!({
             "id": id,
@@ -475,7 +490,7 @@ impl<W: Write> RawPeer<W> {
             "params": params,
         })) {
             let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.remove(&id) {
+            if let Some(rh) = pending.handlers.remove(&id) {
                 rh.invoke(Err(Error::Io(e)));
             }
         }
@@ -485,7 +500,7 @@ impl<W: Write> RawPeer<W> {
         let id = id as usize;
         let handler = {
             let mut pending = self.0.pending.lock().unwrap();
-            pending.remove(&id)
+            pending.handlers.remove(&id)
         };
         match handler {
             Some(responsehandler) => responsehandler.invoke(resp),
@@ -539,12 +554,18 @@ impl<W: Write> RawPeer<W> {
         Some(Ok(timers.pop().unwrap().token))
     }
 
+    /// From now on requests fail instead of waiting for a response.
+    fn close(&self) {
+        self.0.pending.lock().unwrap().closed = true;
+    }
+
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
+        self.close();
         let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.keys().cloned().collect::<Vec<_>>();
+        let ids = pending.handlers.keys().cloned().collect::<Vec<_>>();
         for id in &ids {
-            let callback = pending.remove(id).unwrap();
+            let callback = pending.handlers.remove(id).unwrap();
             callback.invoke(Err(Error::PeerDisconnect));
         }
         self.0.needs_exit.store(true, Ordering::Relaxed);
-- 
2.43.0


From f0cdd6d8cc0c24fc2e2585ee6e6e2d2bf8baac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 33/66] fix: a response callback that sends a request deadlocks
 on disconnect

---
 rust/rpc/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 7778fe6..510233c 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -42,6 +42,7 @@ pub mod test_utils;
 use std::cmp;
 use std::collections::{BTreeMap, BinaryHeap, VecDeque};
 use std::io::{self, BufRead, Write};
+use std::mem;
 use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 use std::sync::mpsc;
 use std::sync::{Arc, Condvar, Mutex};
@@ -489,8 +490,9 @@ impl<W: Write> RawPeer<W> {
             "method": method,
             "params": params,
         })) {
-            let mut pending = self.0.pending.lock().unwrap();
-            if let Some(rh) = pending.handlers.remove(&id) {
+            // the lock must not be held while a callback runs: it may send requests
+            let handler = self.0.pending.lock().unwrap().handlers.remove(&id);
+            if let Some(rh) = handler {
                 rh.invoke(Err(Error::Io(e)));
             }
         }
@@ -562,10 +564,9 @@ impl<W: Write> RawPeer<W> {
     /// send disconnect error to pending requests.
     fn disconnect(&self) {
         self.close();
-        let mut pending = self.0.pending.lock().unwrap();
-        let ids = pending.handlers.keys().cloned().collect::<Vec<_>>();
-        for id in &ids {
-            let callback = pending.handlers.remove(id).unwrap();
+        // the lock must not be held while a callback runs: it may send requests
+        let handlers = mem::replace(&mut self.0.pending.lock().unwrap().handlers, BTreeMap::new());
+        for (_id, callback) in handlers {
             callback.invoke(Err(Error::PeerDisconnect));
         }
         self.0.needs_exit.store(true, Ordering::Relaxed);
-- 
2.43.0


From f5d41671e649d45e24fe3d6977908fdaa6e7b7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 34/66] fix: a response with an id that is not a number kills
 the reader

---
 rust/rpc/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/rpc/src/lib.rs b/rust/rpc/src/lib.rs
index 510233c..4628915 100644
--- a/rust/rpc/src/lib.rs
+++ b/rust/rpc/src/lib.rs
@@ -291,8 +291,10 @@ impl<W: Write + Send> RpcLoop<W> {
                             break;
                         }
                     };
-                    if json.is_response() {
-                        let id = json.get_id().unwrap();
+                    // a response without a usable id is for nobody: it is
+                    // passed on, and refused as an unknown message
+                    let response_id = if json.is_response() { json.get_id() } else { None };
+                    if let Some(id) = response_id {
                         let _resp =
                             trace_block_payload("read loop response", &["rpc"], format!("{}", id));
                         match json.into_response() {
-- 
2.43.0


From 5e8338dcff503c91d2271a0d7b559581451edaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 35/66] fix: the line state cache forgets work to be done when
 an edit comes before it

---
 rust/plugin-lib/src/state_cache.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/rust/plugin-lib/src/state_cache.rs b/rust/plugin-lib/src/state_cache.rs
index dbb1bf7..4c30e9c 100644
--- a/rust/plugin-lib/src/state_cache.rs
+++ b/rust/plugin-lib/src/state_cache.rs
@@ -304,19 +304,24 @@ impl<S: Clone + Default> StateCache<S> {
             0 => 0,
             ix => self.state_cache[ix - 1].line_num,
         };
+        // the line at which the entries that have just been shifted began before
+        let shifted_start = self
+            .state_cache
+            .get(cache_idx)
+            .map(|entry| (entry.line_num as isize - nl_count_delta) as usize);
         let mut new_frontier = Vec::new();
         let mut need_push = true;
         for old_ln in &self.frontier {
             if *old_ln < line_num {
                 new_frontier.push(*old_ln);
-            } else if need_push {
+                continue;
+            }
+            if need_push {
                 new_frontier.push(line_num);
                 need_push = false;
-                if let Some(ref entry) = self.state_cache.get(cache_idx) {
-                    if *old_ln >= entry.line_num {
-                        new_frontier.push(old_ln.wrapping_add(nl_count_delta as usize));
-                    }
-                }
+            }
+            if *old_ln > line_num && shifted_start.map_or(false, |start| *old_ln >= start) {
+                new_frontier.push((*old_ln as isize + nl_count_delta) as usize);
             }
         }
         if need_push {
-- 
2.43.0


From 8627ff3117482b009c7e2d1378cb292f2ba6dc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 36/66] fix: closing a view before it is set up must not panic

---
 rust/core-lib/src/tabs.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 85bed50..6b9a4f8 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -582,8 +582,10 @@ impl CoreState {
         to_start.iter().for_each(|(id, config)| {
             let modified = self.detect_whitespace(*id, config);
             let config = modified.as_ref().unwrap_or(config);
-            let mut edit_ctx = self.make_context(*id).unwrap();
-            edit_ctx.finish_init(&config);
+            // the view may have been closed in the meantime
+            if let Some(mut edit_ctx) = self.make_context(*id) {
+                edit_ctx.finish_init(&config);
+            }
         });
     }
 
-- 
2.43.0


From a0d816d159f197c2f7dd2c0454858571f3dfc952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 37/66] fix: announce the current settings when a new view is
 set up

---
 rust/core-lib/src/tabs.rs | 52 +++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 29 deletions(-)

diff --git a/rust/core-lib/src/tabs.rs b/rust/core-lib/src/tabs.rs
index 6b9a4f8..b2101d2 100644
--- a/rust/core-lib/src/tabs.rs
+++ b/rust/core-lib/src/tabs.rs
@@ -118,7 +118,7 @@ pub struct CoreState {
     /// it can be passed to plugins.
     self_ref: Option<WeakXiCore>,
     /// Views which need to have setup finished.
-    pending_views: Vec<(ViewId, Table)>,
+    pending_views: Vec<ViewId>,
     peer: Client,
     id_counter: Counter,
     plugins: PluginCatalog,
@@ -377,7 +377,7 @@ impl CoreState {
         self.editors.insert(buffer_id, editor);
         self.views.insert(view_id, view);
 
-        let config = self.config_manager.add_buffer(buffer_id, path.as_deref());
+        self.config_manager.add_buffer(buffer_id, path.as_deref());
 
         // NOTE: because this is a synchronous call, we have to initialize the
         // view and return the view_id before we can send any events to this
@@ -388,7 +388,7 @@ impl CoreState {
         let mut edit_ctx = self.make_context(view_id).unwrap();
         edit_ctx.view_init();
 
-        self.pending_views.push((view_id, config));
+        self.pending_views.push(view_id);
         self.peer.schedule_idle(NEW_VIEW_IDLE_TOKEN);
 
         Ok(json!(view_id))
@@ -579,32 +579,36 @@ impl CoreState {
     fn finalize_new_views(&mut self) {
         let to_start = mem::replace(&mut self.pending_views, Vec::new());
 
-        to_start.iter().for_each(|(id, config)| {
-            let modified = self.detect_whitespace(*id, config);
-            let config = modified.as_ref().unwrap_or(config);
+        for id in to_start {
+            self.detect_whitespace(id);
+            // the settings may have changed since the view was created
+            let config = self.do_get_config(id);
             // the view may have been closed in the meantime
-            if let Some(mut edit_ctx) = self.make_context(*id) {
+            if let (Some(mut edit_ctx), Ok(config)) = (self.make_context(id), config) {
                 edit_ctx.finish_init(&config);
             }
-        });
+        }
     }
 
     // Detects whitespace settings from the file and merges them with the config
-    fn detect_whitespace(&mut self, id: ViewId, config: &Table) -> Option<Table> {
-        let buffer_id = self.views.get(&id).map(|v| v.borrow().get_buffer_id())?;
+    fn detect_whitespace(&mut self, id: ViewId) {
+        let buffer_id = match self.views.get(&id) {
+            Some(view) => view.borrow().get_buffer_id(),
+            None => return,
+        };
         let editor = self
             .editors
             .get(&buffer_id)
             .expect("existing buffer_id must have corresponding editor");
 
         if editor.borrow().get_buffer().is_empty() {
-            return None;
+            return;
         }
 
         let autodetect_whitespace =
             self.config_manager.get_buffer_config(buffer_id).items.autodetect_whitespace;
         if !autodetect_whitespace {
-            return None;
+            return;
         }
 
         let mut changes = Table::new();
@@ -639,25 +643,15 @@ impl CoreState {
             .config_manager
             .set_user_config(ConfigDomain::SysOverride(buffer_id), config_delta)
         {
-            Ok(ref mut items) if !items.is_empty() => {
-                assert!(
-                    items.len() == 1,
-                    "whitespace overrides can only update a single buffer's config\n{:?}",
-                    items
-                );
-                let table = items.remove(0).1;
-                let mut config = config.clone();
-                config.extend(table);
-                Some(config)
-            }
+            Ok(ref items) if !items.is_empty() => assert!(
+                items.len() == 1,
+                "whitespace overrides can only update a single buffer's config\n{:?}",
+                items
+            ),
             Ok(_) => {
-                warn!("set_user_config failed to update config, no tables were returned");
-                None
-            }
-            Err(err) => {
-                warn!("detect_whitespace failed to update config: {:?}", err);
-                None
+                warn!("set_user_config failed to update config, no tables were returned")
             }
+            Err(err) => warn!("detect_whitespace failed to update config: {:?}", err),
         }
     }
 
-- 
2.43.0


From ded56822385d5143f9bd65b56c8f8c420e295ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 38/66] fix: an invalid language default config must not panic

---
 rust/core-lib/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index b321541..d739fd5 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -415,7 +415,13 @@ impl ConfigManager {
         for language in languages.iter() {
             let lang_id = language.name.clone();
             let domain: ConfigDomain = lang_id.into();
-            let default_config = language.default_config.clone();
+            let default_config = language.default_config.clone().filter(|table| {
+                let valid = self.check_table(table);
+                if let Err(ref e) = valid {
+                    error!("Ignoring default config of {:?}: {}", domain, e);
+                }
+                valid.is_ok()
+            });
             self.configs
                 .entry(domain.clone())
                 .and_modify(|c| *c = c.new_with_base(default_config.clone()))
-- 
2.43.0


From 5e51202d55e40ea8fcfa1be9dcdf55005e983e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 39/66] fix: announce settings that are no longer set

---
 rust/core-lib/src/config.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index d739fd5..966f7ed 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -609,7 +609,8 @@ impl TableStack {
     }
 
     /// Returns a new `Table` containing only those keys and values in `self`
-    /// which have changed from `other`.
+    /// which have changed from `other`; a key which is only set in `other` has
+    /// the value `Null`.
     fn diff(&self, other: &TableStack) -> Option<Table> {
         let mut out: Option<Table> = None;
         let this = self.collate();
@@ -619,6 +620,12 @@ impl TableStack {
                 out.insert(k.to_owned(), v.to_owned());
             }
         }
+        for k in other.collate().keys() {
+            if !this.contains_key(k) {
+                let out: &mut Table = out.get_or_insert(Table::new());
+                out.insert(k.to_owned(), Value::Null);
+            }
+        }
         out
     }
 }
-- 
2.43.0


From 7700ddb8b6ee3f1735c1ab47e1399663e2e74593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 40/66] fix: saving must detect the same language as opening

---
 rust/core-lib/src/config.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/config.rs b/rust/core-lib/src/config.rs
index 966f7ed..3f0db5b 100644
--- a/rust/core-lib/src/config.rs
+++ b/rust/core-lib/src/config.rs
@@ -56,6 +56,11 @@ fn load_base_config() -> Table {
     base
 }
 
+/// The language of buffers for which none is detected
+fn default_language() -> LanguageId {
+    LanguageId::from("Plain Text")
+}
+
 /// A map of config keys to settings
 pub type Table = serde_json::Map<String, Value>;
 
@@ -284,8 +289,7 @@ impl ConfigManager {
     ///
     /// Panics if `id` already exists.
     pub(crate) fn add_buffer(&mut self, id: BufferId, path: Option<&Path>) -> Table {
-        let lang =
-            path.and_then(|p| self.language_for_path(p)).unwrap_or(LanguageId::from("Plain Text"));
+        let lang = path.map_or_else(default_language, |p| self.language_for_path_or_default(p));
         let lang_tag = LanguageTag::new(lang);
         assert!(self.buffer_tags.insert(id, lang_tag).is_none());
         self.update_buffer_config(id).expect("new buffer must always have config")
@@ -298,7 +302,7 @@ impl ConfigManager {
     /// Panics if `id` does not exist.
     pub(crate) fn update_buffer_path(&mut self, id: BufferId, path: &Path) -> Option<Table> {
         assert!(self.buffer_tags.contains_key(&id));
-        let lang = self.language_for_path(path).unwrap_or_default();
+        let lang = self.language_for_path_or_default(path);
         let has_changed = self.buffer_tags.get_mut(&id).map(|tag| tag.set_detected(lang)).unwrap();
 
         if has_changed {
@@ -461,6 +465,10 @@ impl ConfigManager {
         self.languages.language_for_path(path).map(|lang| lang.name.clone())
     }
 
+    fn language_for_path_or_default(&self, path: &Path) -> LanguageId {
+        self.language_for_path(path).unwrap_or_else(default_language)
+    }
+
     /// Sets the config for the given domain, removing any existing config.
     /// Returns a `Vec` of individual buffer config changes that result from
     /// this update, or a `ConfigError` if `config` is poorly formed.
-- 
2.43.0


From a87c3bb1912cfb72d1bfbc511226189e61a6ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 41/66] fix: requesting lines that do not exist must not panic

---
 rust/core-lib/src/line_cache_shadow.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/core-lib/src/line_cache_shadow.rs b/rust/core-lib/src/line_cache_shadow.rs
index 3bbdf4f..c7f0d61 100644
--- a/rust/core-lib/src/line_cache_shadow.rs
+++ b/rust/core-lib/src/line_cache_shadow.rs
@@ -283,6 +283,9 @@ impl RenderPlan {
         let mut spans: Vec<(usize, RenderTactic)> = Vec::new();
         let mut i = 0;
         let mut line_num = 0;
+        let total_height = self.spans.iter().map(|span| span.0).sum();
+        let end = min(end, total_height);
+        let start = min(start, end);
         while i < self.spans.len() {
             let span = &self.spans[i];
             if line_num + span.0 <= start {
-- 
2.43.0


From bb4f9096803f2970ff5a0adc6034235fcc02ccb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:11 +0000
Subject: [PATCH 42/66] fix: scrolling to an empty range must not panic

---
 rust/core-lib/src/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index 85f515d..ebe56e5 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -330,7 +330,7 @@ impl View {
         let first = max(first, 0) as usize;
         let last = max(last, 0) as usize;
         self.first_line = first;
-        self.height = last - first;
+        self.height = last.saturating_sub(first);
     }
 
     pub fn scroll_height(&self) -> usize {
-- 
2.43.0


From 4d2212842da8e45596d9c85ec9b8a35a1bdffeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 43/66] fix: saving overwrites what another program has just
 written

---
 rust/core-lib/src/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 2467780..7a846b8 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -105,6 +105,12 @@ impl FileManager {
         false
     }
 
+    /// Returns `true` if there is a file at this path that isn't the one we know.
+    fn replaced_on_disk(&self, path: &Path, id: BufferId) -> bool {
+        let mod_time = get_mod_time(path);
+        mod_time.is_some() && mod_time != self.file_info[&id].mod_time
+    }
+
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
         if !path.exists() {
             return Ok(Rope::from(""));
@@ -162,7 +168,7 @@ impl FileManager {
             self.open_files.remove(&prev_path);
             #[cfg(feature = "notify")]
             self.watcher.unwatch(&prev_path, OPEN_FILE_EVENT_TOKEN);
-        } else if self.file_info[&id].has_changed {
+        } else if self.file_info[&id].has_changed || self.replaced_on_disk(path, id) {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-- 
2.43.0


From 3c43e1c17e7b9c8b34a1a250affcf5cf76ad7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 44/66] fix: saving under another name drops the byte order
 mark

---
 rust/core-lib/src/file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 7a846b8..77d4fc5 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -144,10 +144,11 @@ impl FileManager {
     }
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
-        try_save(path, text, CharacterEncoding::Utf8, self.get_info(id))
+        let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
+        try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
-            encoding: CharacterEncoding::Utf8,
+            encoding,
             path: path.to_owned(),
             mod_time: get_mod_time(path),
             has_changed: false,
-- 
2.43.0


From e42477002f049eb939545f4a6a567d4c0df255e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 45/66] fix: saving destroys a file that has the name of its
 temporary file

---
 rust/core-lib/src/file.rs | 59 +++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 77d4fc5..9805011 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -17,7 +17,7 @@
 use std::collections::HashMap;
 use std::ffi::OsString;
 use std::fmt;
-use std::fs::{self, File};
+use std::fs::{self, File, OpenOptions};
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::str;
@@ -212,28 +212,13 @@ fn try_save(
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
 ) -> io::Result<()> {
-    let tmp_extension = path.extension().map_or_else(
-        || OsString::from("swp"),
-        |ext| {
-            let mut ext = ext.to_os_string();
-            ext.push(".swp");
-            ext
-        },
-    );
-    let tmp_path = &path.with_extension(tmp_extension);
-
-    let mut f = File::create(tmp_path)?;
-    match encoding {
-        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
-        CharacterEncoding::Utf8 => (),
-    }
-
-    for chunk in text.iter_chunks(..text.len()) {
-        f.write_all(chunk.as_bytes())?;
+    let (tmp_path, mut f) = create_tmp_file(path)?;
+    let written = write_text(&mut f, text, encoding).and_then(|_| fs::rename(&tmp_path, path));
+    if let Err(e) = written {
+        let _ = fs::remove_file(&tmp_path);
+        return Err(e);
     }
 
-    fs::rename(tmp_path, path)?;
-
     #[cfg(target_family = "unix")]
     {
         if let Some(info) = file_info {
@@ -247,6 +232,38 @@ fn try_save(
     Ok(())
 }
 
+fn write_text(f: &mut File, text: &Rope, encoding: CharacterEncoding) -> io::Result<()> {
+    match encoding {
+        CharacterEncoding::Utf8WithBom => f.write_all(UTF8_BOM.as_bytes())?,
+        CharacterEncoding::Utf8 => (),
+    }
+
+    for chunk in text.iter_chunks(..text.len()) {
+        f.write_all(chunk.as_bytes())?;
+    }
+    Ok(())
+}
+
+/// Creates a new file beside the one at this path, leaving those that are there alone.
+fn create_tmp_file(path: &Path) -> io::Result<(PathBuf, File)> {
+    let mut n = 0;
+    loop {
+        let mut ext = path.extension().map(OsString::from).unwrap_or_default();
+        if !ext.is_empty() {
+            ext.push(".");
+        }
+        if n > 0 {
+            ext.push(format!("{}.", n));
+        }
+        ext.push("swp");
+        let tmp_path = path.with_extension(ext);
+        match OpenOptions::new().write(true).create_new(true).open(&tmp_path) {
+            Err(ref e) if e.kind() == io::ErrorKind::AlreadyExists => n += 1,
+            r => return r.map(|f| (tmp_path, f)),
+        }
+    }
+}
+
 fn try_decode(bytes: Vec<u8>, encoding: CharacterEncoding, path: &Path) -> Result<Rope, FileError> {
     match encoding {
         CharacterEncoding::Utf8 => Ok(Rope::from(
-- 
2.43.0


From 7acfb8d58734261d737088622d271ba485f3fc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 46/66] fix: saving a new document overwrites a file created
 since it was opened

---
 rust/core-lib/src/file.rs | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 9805011..8c19ab0 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -112,11 +112,20 @@ impl FileManager {
     }
 
     pub fn open(&mut self, path: &Path, id: BufferId) -> Result<Rope, FileError> {
-        if !path.exists() {
-            return Ok(Rope::from(""));
-        }
-
-        let (rope, info) = try_load_file(path)?;
+        let (rope, info) = if path.exists() {
+            try_load_file(path)?
+        } else {
+            // remember that there was no file, for when there is one
+            let info = FileInfo {
+                encoding: CharacterEncoding::Utf8,
+                mod_time: None,
+                #[cfg(target_family = "unix")]
+                permissions: None,
+                path: path.to_owned(),
+                has_changed: false,
+            };
+            (Rope::from(""), info)
+        };
 
         self.open_files.insert(path.to_owned(), id);
         if self.file_info.insert(id, info).is_none() {
@@ -175,7 +184,17 @@ impl FileManager {
             let encoding = self.file_info[&id].encoding;
             try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
-            self.file_info.get_mut(&id).unwrap().mod_time = get_mod_time(path);
+            let info = self.file_info.get_mut(&id).unwrap();
+            let is_new = info.mod_time.is_none();
+            info.mod_time = get_mod_time(path);
+            if is_new {
+                #[cfg(target_family = "unix")]
+                {
+                    info.permissions = get_permissions(path);
+                }
+                #[cfg(feature = "notify")]
+                self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
+            }
         }
         Ok(())
     }
@@ -221,11 +240,10 @@ fn try_save(
 
     #[cfg(target_family = "unix")]
     {
-        if let Some(info) = file_info {
-            fs::set_permissions(path, Permissions::from_mode(info.permissions.unwrap_or(0o644)))
-                .unwrap_or_else(|e| {
-                    warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
-                });
+        if let Some(permissions) = file_info.and_then(|info| info.permissions) {
+            fs::set_permissions(path, Permissions::from_mode(permissions)).unwrap_or_else(|e| {
+                warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
+            });
         }
     }
 
-- 
2.43.0


From 4b3879426b2cfadfad2a0f50adb293bbe630f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:53 +0000
Subject: [PATCH 47/66] fix: what is replaced while it is read or written is
 taken for what we know

---
 rust/core-lib/src/file.rs | 46 +++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/rust/core-lib/src/file.rs b/rust/core-lib/src/file.rs
index 8c19ab0..8b277a0 100644
--- a/rust/core-lib/src/file.rs
+++ b/rust/core-lib/src/file.rs
@@ -17,7 +17,7 @@
 use std::collections::HashMap;
 use std::ffi::OsString;
 use std::fmt;
-use std::fs::{self, File, OpenOptions};
+use std::fs::{self, File, Metadata, OpenOptions};
 use std::io::{self, Read, Write};
 use std::path::{Path, PathBuf};
 use std::str;
@@ -154,15 +154,15 @@ impl FileManager {
 
     fn save_new(&mut self, path: &Path, text: &Rope, id: BufferId) -> Result<(), FileError> {
         let encoding = self.get_info(id).map_or(CharacterEncoding::Utf8, |info| info.encoding);
-        try_save(path, text, encoding, self.get_info(id))
+        let meta = try_save(path, text, encoding, self.get_info(id))
             .map_err(|e| FileError::Io(e, path.to_owned()))?;
         let info = FileInfo {
             encoding,
             path: path.to_owned(),
-            mod_time: get_mod_time(path),
+            mod_time: meta.modified().ok(),
             has_changed: false,
             #[cfg(target_family = "unix")]
-            permissions: get_permissions(path),
+            permissions: Some(meta.permissions().mode()),
         };
         self.open_files.insert(path.to_owned(), id);
         self.file_info.insert(id, info);
@@ -182,15 +182,15 @@ impl FileManager {
             return Err(FileError::HasChanged(path.to_owned()));
         } else {
             let encoding = self.file_info[&id].encoding;
-            try_save(path, text, encoding, self.get_info(id))
+            let meta = try_save(path, text, encoding, self.get_info(id))
                 .map_err(|e| FileError::Io(e, path.to_owned()))?;
             let info = self.file_info.get_mut(&id).unwrap();
             let is_new = info.mod_time.is_none();
-            info.mod_time = get_mod_time(path);
+            info.mod_time = meta.modified().ok();
             if is_new {
                 #[cfg(target_family = "unix")]
                 {
-                    info.permissions = get_permissions(path);
+                    info.permissions = Some(meta.permissions().mode());
                 }
                 #[cfg(feature = "notify")]
                 self.watcher.watch(path, false, OPEN_FILE_EVENT_TOKEN);
@@ -208,6 +208,8 @@ where
     // it's arguable that the rope crate should have file loading functionality
     let mut f =
         File::open(path.as_ref()).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
+    // the state of what we read, even if there is another file at this path by then
+    let meta = f.metadata().map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
     let mut bytes = Vec::new();
     f.read_to_end(&mut bytes).map_err(|e| FileError::Io(e, path.as_ref().to_owned()))?;
 
@@ -215,39 +217,42 @@ where
     let rope = try_decode(bytes, encoding, path.as_ref())?;
     let info = FileInfo {
         encoding,
-        mod_time: get_mod_time(&path),
+        mod_time: meta.modified().ok(),
         #[cfg(target_family = "unix")]
-        permissions: get_permissions(&path),
+        permissions: Some(meta.permissions().mode()),
         path: path.as_ref().to_owned(),
         has_changed: false,
     };
     Ok((rope, info))
 }
 
+/// Writes the text to the file at this path, and returns the state of the file written, which
+/// may not be the one at this path any more.
 #[allow(unused)]
 fn try_save(
     path: &Path,
     text: &Rope,
     encoding: CharacterEncoding,
     file_info: Option<&FileInfo>,
-) -> io::Result<()> {
+) -> io::Result<Metadata> {
     let (tmp_path, mut f) = create_tmp_file(path)?;
-    let written = write_text(&mut f, text, encoding).and_then(|_| fs::rename(&tmp_path, path));
-    if let Err(e) = written {
-        let _ = fs::remove_file(&tmp_path);
-        return Err(e);
-    }
 
     #[cfg(target_family = "unix")]
     {
         if let Some(permissions) = file_info.and_then(|info| info.permissions) {
-            fs::set_permissions(path, Permissions::from_mode(permissions)).unwrap_or_else(|e| {
+            f.set_permissions(Permissions::from_mode(permissions)).unwrap_or_else(|e| {
                 warn!("Couldn't set permissions on file {} due to error {}", path.display(), e)
             });
         }
     }
 
-    Ok(())
+    let written = write_text(&mut f, text, encoding)
+        .and_then(|_| f.metadata())
+        .and_then(|meta| fs::rename(&tmp_path, path).map(|_| meta));
+    if written.is_err() {
+        let _ = fs::remove_file(&tmp_path);
+    }
+    written
 }
 
 fn write_text(f: &mut File, text: &Rope, encoding: CharacterEncoding) -> io::Result<()> {
@@ -311,13 +316,6 @@ fn get_mod_time<P: AsRef<Path>>(path: P) -> Option<SystemTime> {
     File::open(path).and_then(|f| f.metadata()).and_then(|meta| meta.modified()).ok()
 }
 
-/// Returns the file permissions for the file at a given path on UNIXy systems,
-/// if present.
-#[cfg(target_family = "unix")]
-fn get_permissions<P: AsRef<Path>>(path: P) -> Option<u32> {
-    File::open(path).and_then(|f| f.metadata()).map(|meta| meta.permissions().mode()).ok()
-}
-
 impl From<FileError> for RemoteError {
     fn from(src: FileError) -> RemoteError {
         //TODO: when we migrate to using the failure crate for error handling,
-- 
2.43.0


From 519ccc8422415fa8cb2e9ed80d0dbef4bb47c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:24 +0000
Subject: [PATCH 48/66] fix: moving the cursor in a view without height must
 not panic

---
 rust/core-lib/src/view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/view.rs b/rust/core-lib/src/view.rs
index ebe56e5..989614b 100644
--- a/rust/core-lib/src/view.rs
+++ b/rust/core-lib/src/view.rs
@@ -343,7 +343,7 @@ impl View {
         if line < self.first_line {
             self.first_line = line;
         } else if self.first_line + self.height <= line {
-            self.first_line = line - (self.height - 1);
+            self.first_line = line - self.height.saturating_sub(1);
         }
         // We somewhat arbitrarily choose the last region for setting the old-style
         // selection state, and for scrolling it into view if needed. This choice can
-- 
2.43.0


From f353a0502fb44c4e4deefac01f2bb0d154e08837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:45 +0000
Subject: [PATCH 49/66] fix: a tab size over 32 must not panic

---
 rust/core-lib/src/edit_ops.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/edit_ops.rs b/rust/core-lib/src/edit_ops.rs
index 144286b..13857ca 100644
--- a/rust/core-lib/src/edit_ops.rs
+++ b/rust/core-lib/src/edit_ops.rs
@@ -209,7 +209,7 @@ pub fn insert_tab(base: &Rope, regions: &[SelRegion], config: &BufferItems) -> R
         if line_range.len() > 1 {
             for line in line_range {
                 let offset = LogicalLines.line_col_to_offset(base, line, 0);
-                tabs.insert((offset, offset), const_tab_text);
+                tabs.insert((offset, offset), const_tab_text.clone());
             }
         } else {
             let (_, col) = LogicalLines.offset_to_line_col(base, region.min());
@@ -248,8 +248,8 @@ pub fn modify_indent(
         }
     }
     match direction {
-        IndentDirection::In => indent(base, lines, tab_text),
-        IndentDirection::Out => outdent(base, lines, tab_text),
+        IndentDirection::In => indent(base, lines, &tab_text),
+        IndentDirection::Out => outdent(base, lines, &tab_text),
     }
 }
 
@@ -445,15 +445,15 @@ fn last_selection_region(regions: &[SelRegion]) -> Option<&SelRegion> {
     None
 }
 
-fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> &'static str {
+fn get_tab_text(config: &BufferItems, tab_size: Option<usize>) -> Cow<'static, str> {
     let tab_size = tab_size.unwrap_or(config.tab_size);
-    let tab_text = if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { "\t" };
+    let tab_text =
+        if config.translate_tabs_to_spaces { n_spaces(tab_size) } else { Cow::from("\t") };
 
     tab_text
 }
 
-fn n_spaces(n: usize) -> &'static str {
+fn n_spaces(n: usize) -> Cow<'static, str> {
     let spaces = "                                ";
-    assert!(n <= spaces.len());
-    &spaces[..n]
+    spaces.get(..n).map_or_else(|| Cow::from(" ".repeat(n)), Cow::from)
 }
-- 
2.43.0


From 879475bfcbcbab08ffa9de2277afe567da8e204c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 50/66] fix: let plugins make the line_count and get_selections
 requests

---
 rust/core-lib/src/event_context.rs | 4 ++--
 rust/core-lib/src/plugins/rpc.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index b13074d..0d484c8 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -263,11 +263,11 @@ impl<'a> EventContext<'a> {
     pub(crate) fn do_plugin_cmd_sync(&mut self, _plugin: PluginId, cmd: PluginRequest) -> Value {
         use self::PluginRequest::*;
         match cmd {
-            LineCount => json!(self.editor.borrow().plugin_n_lines()),
+            LineCount {} => json!(self.editor.borrow().plugin_n_lines()),
             GetData { start, unit, max_size, rev } => {
                 json!(self.editor.borrow().plugin_get_data(start, unit, max_size, rev))
             }
-            GetSelections => json!("not implemented"),
+            GetSelections {} => json!("not implemented"),
         }
     }
 
diff --git a/rust/core-lib/src/plugins/rpc.rs b/rust/core-lib/src/plugins/rpc.rs
index 1cd163e..f8fedd0 100644
--- a/rust/core-lib/src/plugins/rpc.rs
+++ b/rust/core-lib/src/plugins/rpc.rs
@@ -178,8 +178,8 @@ pub enum TextUnit {
 /// RPC requests sent from plugins.
 pub enum PluginRequest {
     GetData { start: usize, unit: TextUnit, max_size: usize, rev: u64 },
-    LineCount,
-    GetSelections,
+    LineCount {},
+    GetSelections {},
 }
 
 #[derive(Serialize, Deserialize, Debug, Clone)]
-- 
2.43.0


From fc0951fc772a75eae022e2e488adeecf4d99e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 51/66] fix: ignore a status item of a plugin that was stopped

---
 rust/core-lib/src/event_context.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 0d484c8..3dbaf82 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -242,8 +242,11 @@ impl<'a> EventContext<'a> {
             Edit { edit } => self.with_editor(|ed, _, _, _| ed.apply_plugin_edit(edit)),
             Alert { msg } => self.client.alert(&msg),
             AddStatusItem { key, value, alignment } => {
-                let plugin_name = &self.plugins.iter().find(|p| p.id == plugin).unwrap().name;
-                self.client.add_status_item(self.view_id, plugin_name, &key, &value, &alignment);
+                // a plugin that has been stopped may still have sent this
+                if let Some(plugin) = self.plugins.iter().find(|p| p.id == plugin) {
+                    let source = &plugin.name;
+                    self.client.add_status_item(self.view_id, source, &key, &value, &alignment);
+                }
             }
             UpdateStatusItem { key, value } => {
                 self.client.update_status_item(self.view_id, &key, &value)
-- 
2.43.0


From 66b152bbe42010cd07cdde5313b74709dd3912d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 52/66] fix: a plugin edit that is refused must not start an
 undo group

---
 rust/core-lib/src/editor.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index b5a7494..3b78d00 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -235,6 +235,11 @@ impl Editor {
         //TODO: get priority working, so that plugin edits don't necessarily move cursor
         let PluginEdit { rev, delta, priority, undo_group, .. } = edit;
         let priority = priority as usize;
+        if undo_group.is_none() && !self.fits_rev(rev, delta.base_len) {
+            // an edit that cannot be applied must not start an undo group
+            error!("Plugin edit does not fit revision {}", rev);
+            return;
+        }
         let undo_group = undo_group.unwrap_or_else(|| self.calculate_undo_group());
         match self.engine.try_edit_rev(priority, undo_group, rev, delta) {
             Err(e) => error!("Error applying plugin edit: {}", e),
@@ -242,6 +247,11 @@ impl Editor {
         };
     }
 
+    /// Whether `rev` is a known revision with a text of length `len`.
+    fn fits_rev(&self, rev: RevToken, len: usize) -> bool {
+        self.engine.get_rev(rev).map_or(false, |text| text.len() == len)
+    }
+
     /// Commits the current delta. If the buffer has changed, returns
     /// a 3-tuple containing the delta representing the changes, the previous
     /// buffer, and an `InsertDrift` enum describing the correct selection update
-- 
2.43.0


From 36e5bdfc3fe4490a141ecb239d075015ba71afd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 53/66] fix: refuse spans and annotations that describe no part
 of a known revision

---
 rust/core-lib/src/editor.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 3b78d00..3c0a7be 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -604,6 +604,25 @@ impl Editor {
         self.text.measure::<LinesMetric>() + 1
     }
 
+    /// Whether `start..start + len` is a range of `rev`, and `ranges`, which are
+    /// relative to its start, are in order and inside of it.
+    fn is_part_of_rev(
+        &self,
+        rev: RevToken,
+        start: usize,
+        len: usize,
+        mut ranges: impl Iterator<Item = (usize, usize)>,
+    ) -> bool {
+        let end = start.checked_add(len);
+        let fits = self.engine.get_rev(rev).map_or(false, |t| end.map_or(false, |e| e <= t.len()));
+        let mut last_start = 0;
+        fits && ranges.all(|(start, end)| {
+            let ok = last_start <= start && start <= end && end <= len;
+            last_start = start;
+            ok
+        })
+    }
+
     pub fn update_spans(
         &mut self,
         view: &mut View,
@@ -614,7 +633,11 @@ impl Editor {
         rev: RevToken,
     ) {
         let _t = trace_block("Editor::update_spans", &["core"]);
-        // TODO: more protection against invalid input
+        let ranges = spans.iter().map(|span| (span.start, span.end));
+        if !self.is_part_of_rev(rev, start, len, ranges) {
+            error!("Spans do not describe a part of revision {}", rev);
+            return;
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
@@ -652,6 +675,11 @@ impl Editor {
     ) {
         let _t = trace_block("Editor::update_annotations", &["core"]);
 
+        let ranges = annotation_spans.iter().map(|span| (span.start, span.end));
+        if !self.is_part_of_rev(rev, start, len, ranges) {
+            error!("Annotations do not describe a part of revision {}", rev);
+            return;
+        }
         let mut start = start;
         let mut end_offset = start + len;
         let mut sb = SpansBuilder::new(len);
-- 
2.43.0


From 9452ceda655846a46416d58d5dced0e05b3c889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 54/66] fix: refuse spans that name scopes a plugin never added

---
 rust/core-lib/src/layers.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index eda38e1..784f720 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -90,7 +90,12 @@ impl Layers {
         if self.create_if_missing(layer).is_err() {
             return;
         }
-        self.layers.get_mut(&layer).unwrap().update_scopes(iv, &spans);
+        let scopes = self.layers.get_mut(&layer).unwrap();
+        if spans.iter().any(|(_, id)| *id as usize >= scopes.stack_lookup.len()) {
+            error!("Spans of layer {:?} name unknown scopes", layer);
+            return;
+        }
+        scopes.update_scopes(iv, &spans);
         self.resolve_styles(iv);
     }
 
-- 
2.43.0


From 8eb9b254e5506d26cc07286105cd3fc28513e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 55/66] fix: accept an empty scope stack

---
 rust/core-lib/src/layers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 784f720..8e3323f 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -245,11 +245,11 @@ impl ScopeLayer {
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-            for i in 0..stack.len() - 1 {
-                let prev_range = 0..stack.len() - (i + 1);
+            for i in 1..stack.len() {
+                let prev_range = 0..stack.len() - i;
                 if let Some(s) = self.style_cache.get(&stack[prev_range]) {
                     last_style = Some(*s);
-                    upper_bound_of_last = stack.len() - (i + 1);
+                    upper_bound_of_last = stack.len() - i;
                     break;
                 }
             }
-- 
2.43.0


From 431722e3c14765b4951fe0bb1896daa06aa9ec4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 56/66] fix: style scope stacks of which no part was styled
 before

---
 rust/core-lib/src/layers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 8e3323f..3eb5823 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -241,7 +241,7 @@ impl ScopeLayer {
 
         for stack in stacks {
             let mut last_style: Option<StyleModifier> = None;
-            let mut upper_bound_of_last = stack.len() as usize;
+            let mut upper_bound_of_last = 0;
 
             // walk backwards through stack to see if we have an existing
             // style for any child stacks.
-- 
2.43.0


From 6e898fb3d14daf8d4d5e0be157b55dccbbf4188b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 57/66] fix: do not mix styles of the old theme into those of
 the new one

---
 rust/core-lib/src/layers.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 3eb5823..9e69b8d 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -197,6 +197,7 @@ impl ScopeLayer {
 
     fn theme_changed(&mut self, style_map: &ThemeStyleMap) {
         // recompute styles with the new theme
+        self.style_cache.clear();
         let cur_stacks = self.stack_lookup.clone();
         self.style_lookup = self.styles_for_stacks(&cur_stacks, style_map);
         let iv_all = Interval::new(0, self.style_spans.len());
-- 
2.43.0


From 178ae422595e4df1af2a0bb0e4c5428ac6ebaa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 58/66] fix: drop all annotations behind an edit, as their
 offsets are stale

---
 rust/rope/src/spans.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index be42007..4dba757 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -308,14 +308,13 @@ impl<T: Clone> Spans<T> {
         *self = b.build();
     }
 
-    /// Deletes all spans that intersect with `interval` and that come after.
+    /// Deletes all spans that reach beyond the start of `interval`.
     pub fn delete_after(&mut self, interval: Interval) {
         let mut builder = SpansBuilder::new(self.len());
 
         for (iv, data) in self.iter() {
-            // check if spans overlaps with interval
-            if iv.intersect(interval).is_empty() {
-                // keep the ones that are not overlapping
+            if iv.end() <= interval.start() {
+                // keep the ones that come before
                 builder.add_span(iv, data.clone());
             } else {
                 // all remaining spans are invalid
-- 
2.43.0


From d5688c6e3e162959a7453ca8a0df5905f4a04131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 59/66] fix: place reported annotations at the offsets they are
 reported for

---
 rust/core-lib/src/annotations.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/rust/core-lib/src/annotations.rs b/rust/core-lib/src/annotations.rs
index 5143d52..a64653b 100644
--- a/rust/core-lib/src/annotations.rs
+++ b/rust/core-lib/src/annotations.rs
@@ -23,7 +23,7 @@ use std::collections::HashMap;
 use crate::line_offset::LineOffset;
 use crate::plugins::PluginId;
 use crate::view::View;
-use crate::xi_rope::spans::Spans;
+use crate::xi_rope::spans::{Spans, SpansBuilder};
 use crate::xi_rope::{Interval, Rope};
 
 #[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
@@ -94,6 +94,12 @@ pub struct Annotations {
 impl Annotations {
     /// Update the annotations in `interval` with the provided `items`.
     pub fn update(&mut self, interval: Interval, items: Spans<Value>) {
+        // nothing is known so far about the text behind the last update
+        let len = self.items.len();
+        if len < interval.end() {
+            let blank = SpansBuilder::new(interval.end() - len).build();
+            self.items.edit(Interval::new(len, len), blank);
+        }
         self.items.edit(interval, items);
     }
 
@@ -161,18 +167,15 @@ impl AnnotationStore {
 
     /// Applies an update from a plugin to a set of annotations
     pub fn update(&mut self, source: PluginId, interval: Interval, item: Annotations) {
-        if !self.store.contains_key(&source) {
-            self.store.insert(source, vec![item]);
-            return;
-        }
-
-        let entry = self.store.get_mut(&source).unwrap();
-        if let Some(annotation) =
-            entry.iter_mut().find(|a| a.annotation_type == item.annotation_type)
-        {
-            annotation.update(interval, item.items);
+        let Annotations { items, annotation_type } = item;
+        let entry = self.store.entry(source).or_insert_with(Vec::new);
+        if let Some(annotation) = entry.iter_mut().find(|a| a.annotation_type == annotation_type) {
+            annotation.update(interval, items);
         } else {
-            entry.push(item);
+            // the items are relative to the start of the interval
+            let mut annotation = Annotations { items: Spans::default(), annotation_type };
+            annotation.update(interval, items);
+            entry.push(annotation);
         }
     }
 
-- 
2.43.0


From 2c21664b2ea894358166e62c7e2084fa3e47f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 60/66] fix: spans of an old revision must cover their whole
 range as it is now

---
 rust/core-lib/src/editor.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 3c0a7be..1e014f8 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -649,9 +649,7 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
+                spans = spans.transform(start, end_offset, &mut transformer);
                 start = new_start;
                 end_offset = transformer.transform(end_offset, true);
             } else {
@@ -691,9 +689,7 @@ impl Editor {
             if let Ok(delta) = self.engine.try_delta_rev_head(rev) {
                 let mut transformer = Transformer::new(&delta);
                 let new_start = transformer.transform(start, false);
-                if !transformer.interval_untouched(Interval::new(start, end_offset)) {
-                    spans = spans.transform(start, end_offset, &mut transformer);
-                }
+                spans = spans.transform(start, end_offset, &mut transformer);
                 start = new_start;
                 end_offset = transformer.transform(end_offset, true);
             } else {
-- 
2.43.0


From 93778199c572471fd4769117f1c47f97f11652cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 61/66] fix: text inserted where a span starts is not part of
 it

---
 rust/rope/src/spans.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/rope/src/spans.rs b/rust/rope/src/spans.rs
index 4dba757..92c7747 100644
--- a/rust/rope/src/spans.rs
+++ b/rust/rope/src/spans.rs
@@ -167,7 +167,7 @@ impl<T: Clone> Spans<T> {
         let new_end = xform.transform(base_end, true);
         let mut builder = SpansBuilder::new(new_end - new_start);
         for (iv, data) in self.iter() {
-            let start = xform.transform(iv.start() + base_start, false) - new_start;
+            let start = xform.transform(iv.start() + base_start, true) - new_start;
             let end = xform.transform(iv.end() + base_start, false) - new_start;
             if start < end {
                 let iv = Interval::new(start, end);
-- 
2.43.0


From 520a233bd15b39c73027862bcc00d54b5e840dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 62/66] fix: style layers must be as long as the text they
 start with

---
 rust/core-lib/src/editor.rs | 3 ++-
 rust/core-lib/src/layers.rs | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/rust/core-lib/src/editor.rs b/rust/core-lib/src/editor.rs
index 1e014f8..83d9ea2 100644
--- a/rust/core-lib/src/editor.rs
+++ b/rust/core-lib/src/editor.rs
@@ -96,6 +96,7 @@ impl Editor {
         let engine = Engine::new(text.into());
         let buffer = engine.get_head().clone();
         let last_rev_id = engine.get_head_rev_id();
+        let layers = Layers::new(buffer.len());
 
         Editor {
             text: buffer,
@@ -113,7 +114,7 @@ impl Editor {
             force_undo_group: false,
             last_edit_type: EditType::Other,
             this_edit_type: EditType::Other,
-            layers: Layers::default(),
+            layers,
             revs_in_flight: 0,
             sync_store: None,
             last_synced_rev: last_rev_id,
diff --git a/rust/core-lib/src/layers.rs b/rust/core-lib/src/layers.rs
index 9e69b8d..972c72b 100644
--- a/rust/core-lib/src/layers.rs
+++ b/rust/core-lib/src/layers.rs
@@ -52,6 +52,11 @@ pub struct ScopeLayer {
 }
 
 impl Layers {
+    /// Layers over a text of length `len` that has no styles yet.
+    pub fn new(len: usize) -> Layers {
+        Layers { merged: SpansBuilder::new(len).build(), ..Layers::default() }
+    }
+
     pub fn get_merged(&self) -> &Spans<Style> {
         &self.merged
     }
-- 
2.43.0


From 33c73acbff053487a61e1a14d821fcf43cc9cf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 63/66] fix: wrap every line an edit changed, and the rest when
 idle

Wrapping after an edit stopped at the first visible region's batch, the rest
was never scheduled, and lines changed by more than one piece of work were
reported by the last one's extent only.
---
 rust/core-lib/src/event_context.rs |  9 +++++++--
 rust/core-lib/src/linewrap.rs      | 21 +++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/rust/core-lib/src/event_context.rs b/rust/core-lib/src/event_context.rs
index 3dbaf82..5c59396 100644
--- a/rust/core-lib/src/event_context.rs
+++ b/rust/core-lib/src/event_context.rs
@@ -305,14 +305,19 @@ impl<'a> EventContext<'a> {
         let mut width_cache = self.width_cache.borrow_mut();
         let iter_views = iter::once(&self.view).chain(self.siblings.iter());
         iter_views.for_each(|view| {
-            view.borrow_mut().after_edit(
+            let mut view = view.borrow_mut();
+            view.after_edit(
                 ed.get_buffer(),
                 last_text,
                 delta,
                 self.client,
                 &mut width_cache,
                 drift,
-            )
+            );
+            if view.needs_more_wrap() {
+                let view_id: usize = view.get_view_id().into();
+                self.client.schedule_idle(REWRAP_VIEW_IDLE_MASK | view_id);
+            }
         });
     }
 
diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index badf218..708fd8f 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -58,6 +58,9 @@ impl WrapWidth {
     }
 }
 
+// 'line' is a poor unit here; could do some fancy Duration thing?
+const MAX_LINES_PER_BATCH: usize = 500;
+
 /// A range to be rewrapped.
 type Task = Interval;
 
@@ -324,20 +327,29 @@ impl Lines {
             });
         }
 
+        // with other work pending the wrapped region can be more than this edit's
+        let was_converged = self.work.is_empty();
         let new_task = prev_break..next_hard_break;
         self.add_task(new_task);
 
         // possible if the whole buffer is deleted, e.g
         if !self.work.is_empty() {
-            let summary = self.do_wrap_task(text, width_cache, client, visible_lines, None);
-            let WrapSummary { start_line, new_soft, .. } = summary;
+            let summary =
+                self.do_wrap_task(text, width_cache, client, visible_lines.clone(), None);
+            let WrapSummary { start_line, new_soft, mut new_count, .. } = summary;
             // if we haven't converged after this update we can't do minimal invalidation
             // because we don't have complete knowledge of the new breaks state.
-            if self.is_converged() {
+            if was_converged && self.is_converged() {
                 let inval_count = old_hard_count + inval_soft;
                 let new_count = new_hard_count + new_soft;
                 Some(InvalLines { start_line, new_count, inval_count })
             } else {
+                // the visible region went first; go on with the rest, up to one batch
+                while !self.is_converged() && new_count < MAX_LINES_PER_BATCH {
+                    let lines = visible_lines.clone();
+                    let summary = self.do_wrap_task(text, width_cache, client, lines, None);
+                    new_count += summary.new_count;
+                }
                 None
             }
         } else {
@@ -355,9 +367,6 @@ impl Lines {
     ) -> WrapSummary {
         use self::WrapWidth::*;
         let _t = trace_block("Lines::do_wrap_task", &["core"]);
-        // 'line' is a poor unit here; could do some fancy Duration thing?
-        const MAX_LINES_PER_BATCH: usize = 500;
-
         let mut cursor = MergedBreaks::new(text, &self.breaks);
         let visible_off = cursor.offset_of_line(visible_lines.start);
         let logical_off = text.offset_of_line(text.line_of_offset(visible_off));
-- 
2.43.0


From 7b342e6c4e0dbfe4ed90d47d0e9bbcf90599df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:52 +0000
Subject: [PATCH 64/66] fix: cache widths in codepoints apart from widths the
 front-end measured

Views share the width cache, so a view wrapped at a column and one wrapped at
the window's width used each other's widths for the same words.
---
 rust/core-lib/src/linewrap.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index 708fd8f..85de8b1 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -58,6 +58,10 @@ impl WrapWidth {
     }
 }
 
+/// The style id widths in codepoints are cached with. The cache is shared with views
+/// whose text is measured by the front-end.
+const MONO_STYLE: usize = 0;
+
 // 'line' is a poor unit here; could do some fancy Duration thing?
 const MAX_LINES_PER_BATCH: usize = 500;
 
@@ -377,8 +381,13 @@ impl Lines {
         debug_assert_eq!(cursor.offset, task.start, "task_start must be valid offset");
 
         let mut ctx = match self.wrap {
-            Bytes(b) => RewrapCtx::new(text, &CodepointMono, b as f64, width_cache, task.start),
-            Width(w) => RewrapCtx::new(text, client, w, width_cache, task.start),
+            Bytes(b) => {
+                let width = b as f64;
+                RewrapCtx::new(text, &CodepointMono, MONO_STYLE, width, width_cache, task.start)
+            }
+            Width(w) => {
+                RewrapCtx::new(text, client, N_RESERVED_STYLES, w, width_cache, task.start)
+            }
             None => unreachable!(),
         };
 
@@ -482,6 +491,7 @@ struct RewrapCtx<'a> {
     lb_cursor_pos: usize,
     width_cache: &'a mut WidthCache,
     client: &'a dyn WidthMeasure,
+    style_id: usize,
     pot_breaks: Vec<PotentialBreak>,
     /// Index within `pot_breaks`
     pot_break_ix: usize,
@@ -497,6 +507,7 @@ impl<'a> RewrapCtx<'a> {
         text: &'a Rope,
         //_style_spans: &Spans<Style>,  client: &'a T,
         client: &'a dyn WidthMeasure,
+        style_id: usize,
         max_width: f64,
         width_cache: &'a mut WidthCache,
         start: usize,
@@ -509,6 +520,7 @@ impl<'a> RewrapCtx<'a> {
             lb_cursor_pos,
             width_cache,
             client,
+            style_id,
             pot_breaks: Vec::new(),
             pot_break_ix: 0,
             max_width,
@@ -524,7 +536,7 @@ impl<'a> RewrapCtx<'a> {
         while pos < self.text.len() && self.pot_breaks.len() < MAX_POT_BREAKS {
             let (next, hard) = self.lb_cursor.next();
             let word = self.text.slice_to_cow(pos..next);
-            let tok = req.request(N_RESERVED_STYLES, &word);
+            let tok = req.request(self.style_id, &word);
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-- 
2.43.0


From d6ac1e16bb491c0c953f66af596f35216db4c5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 65/66] fix: survive a front-end that fails to measure text

---
 rust/core-lib/src/client.rs      | 2 +-
 rust/core-lib/src/linewrap.rs    | 5 ++++-
 rust/core-lib/src/width_cache.rs | 3 ++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/core-lib/src/client.rs b/rust/core-lib/src/client.rs
index b9fd31d..59f4158 100644
--- a/rust/core-lib/src/client.rs
+++ b/rust/core-lib/src/client.rs
@@ -169,7 +169,7 @@ impl Client {
     pub fn measure_width(&self, reqs: &[WidthReq]) -> Result<WidthResponse, xi_rpc::Error> {
         let req_json = serde_json::to_value(reqs).expect("failed to serialize width req");
         let resp = self.0.send_rpc_request("measure_width", &req_json)?;
-        Ok(serde_json::from_value(resp).expect("failed to deserialize width response"))
+        serde_json::from_value(resp).map_err(|_| xi_rpc::Error::InvalidResponse)
     }
 
     pub fn alert<S: AsRef<str>>(&self, msg: S) {
diff --git a/rust/core-lib/src/linewrap.rs b/rust/core-lib/src/linewrap.rs
index 85de8b1..e7540d5 100644
--- a/rust/core-lib/src/linewrap.rs
+++ b/rust/core-lib/src/linewrap.rs
@@ -540,7 +540,10 @@ impl<'a> RewrapCtx<'a> {
             pos = next;
             self.pot_breaks.push(PotentialBreak { pos, tok, hard });
         }
-        req.resolve_pending(self.client).unwrap();
+        if let Err(err) = req.resolve_pending(self.client) {
+            error!("measuring text failed, counting codepoints instead: {:?}", err);
+            req.resolve_pending(&CodepointMono).expect("CodepointMono never fails");
+        }
         self.lb_cursor_pos = pos;
     }
 
diff --git a/rust/core-lib/src/width_cache.rs b/rust/core-lib/src/width_cache.rs
index ebbdfe8..66739a9 100644
--- a/rust/core-lib/src/width_cache.rs
+++ b/rust/core-lib/src/width_cache.rs
@@ -151,11 +151,12 @@ impl<'a> WidthBatchReq<'a> {
         &mut self,
         handler: &T,
     ) -> Result<(), xi_rpc::Error> {
+        // On failure the requests stay pending.
         // The 0.0 values should all get replaced with actual widths, assuming the
         // shape of the response from the front-end matches that of the request.
         if self.pending_tok > self.cache.widths.len() {
-            self.cache.widths.resize(self.pending_tok, 0.0);
             let widths = handler.measure_width(&self.req)?;
+            self.cache.widths.resize(self.pending_tok, 0.0);
             for (w, t) in widths.iter().zip(self.req_toks.iter()) {
                 for (width, tok) in w.iter().zip(t.iter()) {
                     self.cache.widths[*tok] = *width;
-- 
2.43.0


From 589817f70c1b86f82c0a86d5e39f4636073bb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 66/66] fix: engine gc kept in the undo at its head what it had
 toggled of dropped edits

An undo kept as the head revision still flipped the deletions of edits that were
dropped with it, so older revisions were reconstructed wrongly: playing a recording
without edits after an undo made an unchanged buffer count as modified.
---
 rust/rope/src/engine.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/rust/rope/src/engine.rs b/rust/rope/src/engine.rs
index 0585cc2..5227af7 100644
--- a/rust/rope/src/engine.rs
+++ b/rust/rope/src/engine.rs
@@ -663,6 +663,21 @@ impl Engine {
             }
         }
         self.revs.reverse();
+
+        // If the head is the undo of something dropped it no longer changes what that did
+        let before = match self.revs.last().map(|rev| &rev.edit) {
+            Some(Undo { toggled_groups, .. }) => {
+                self.undone_groups.symmetric_difference(toggled_groups).cloned().collect()
+            }
+            _ => return,
+        };
+        if let (Revision { edit: Undo { deletes_bitxor: changed, .. }, .. }, _) =
+            self.compute_undo(&before)
+        {
+            if let Some(Revision { edit: Undo { deletes_bitxor, .. }, .. }) = self.revs.last_mut() {
+                *deletes_bitxor = changed;
+            }
+        }
     }
 
     /// Merge the new content from another Engine into this one with a CRDT merge
-- 
2.43.0

