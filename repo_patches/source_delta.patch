From 6162c9f44cd1af81382629b95c74eb0a4ac3ac8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 1/8] fix: map positions over the whole content, not per gap
 half

Segmenting the two halves of the gap buffer separately splits grapheme
clusters that straddle the gap, so the meaning of a position depended on
where the last edit left the gap.
---
 src/buffer/gap_buffer.rs | 43 +++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..1a69df8 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,16 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can straddle the gap, so we need to consider
+        // the content as a whole, rather than its individual halves.
+        let content = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
+        for (offset, grapheme) in content.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                return Some(self.data_offset(offset));
             }
 
             // Advance the line and offset characters.
@@ -247,7 +226,7 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
+        // We didn't find the position *within* the content, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
@@ -256,6 +235,16 @@ impl GapBuffer {
         None
     }
 
+    // Maps a content offset to its offset equivalent in the
+    // data, accounting for the gap when it precedes the offset.
+    fn data_offset(&self, offset: usize) -> usize {
+        if offset < self.gap_start {
+            offset
+        } else {
+            offset + self.gap_length
+        }
+    }
+
     fn move_gap(&mut self, offset: usize) {
         // We don't need to move any data if the buffer is at capacity.
         if self.gap_length == 0 {
-- 
2.43.0


From ca546ef76790d0de6d8626aeb1ab460dc7d4cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 2/8] fix: treat CRLF as a line ending when mapping positions

A CRLF pair is one grapheme cluster, so comparing clusters to "\n" alone
never advanced the line: CRLF documents had a single line, and undoing an
insert that contained one removed content that was there before it.
---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..f7bf274 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c == "\n" || c == "\r\n" {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 1a69df8..4b2efd4 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -217,8 +217,9 @@ impl GapBuffer {
                 return Some(self.data_offset(offset));
             }
 
-            // Advance the line and offset characters.
-            if grapheme == "\n" {
+            // Advance the line and offset characters. A CRLF
+            // line ending is a single grapheme cluster.
+            if grapheme == "\n" || grapheme == "\r\n" {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 66f9025fc801208bbe6aaaaa0243be3d1654f9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 3/8] fix: measure distances in grapheme clusters

Position offsets are grapheme-based, but Distance::of_str counted bytes,
so adding it to a position overshot after any multi-byte character.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From e29acbb810d249952ebef5fc8a61f6f643338df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 4/8] fix: report search results as grapheme-based positions

Result offsets were byte indices, which point past the match (or out of
bounds) on any line with a multi-byte character before it.
---
 src/buffer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..97272c3 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -328,8 +329,9 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
+            // Positions are grapheme-based, but slicing requires a byte index.
+            for (offset, (index, _)) in data.grapheme_indices(true).enumerate() {
+                let haystack = &data[index..];
 
                 // Check haystack length before slicing it and comparing bytes with needle.
                 if haystack.len() >= needle.len()
-- 
2.43.0


From 6326e4c8803ab272633d634e84557bc5f9ed345d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 5/8] fix: keep redo consistent with open operation groups

Redoing while a group was open applied an operation that the group's edits
had superseded, corrupting content, and undoing an open group dropped it
so that it could never be redone.
---
 src/buffer/mod.rs             | 27 ++++++++++++---------------
 src/buffer/operation/group.rs |  8 ++++++++
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 97272c3..3b310f2 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -242,21 +242,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // Commit any open operation group to the history, so that
+        // its reversal can be re-applied like any other operation.
+        self.end_operation_group();
 
-        // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        // If there's an operation to undo, reverse it.
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
@@ -278,6 +269,12 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Modifications in an open operation group have yet to reach the history,
+        // but supersede the operations that were undone before they were made.
+        if self.has_open_operations() {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index c3e7e27..2d26a2c 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -87,6 +87,14 @@ impl Buffer {
             }
         }
     }
+
+    /// Whether or not there's an open operation group with operations in it.
+    pub(in crate::buffer) fn has_open_operations(&self) -> bool {
+        match self.operation_group {
+            Some(ref group) => !group.is_empty(),
+            None => false,
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From dbadd047f28e5b794282df9a6089e7c95fe8e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:18 +0000
Subject: [PATCH 6/8] fix: account for open operation groups in the modified
 flag

Operations in an open group aren't in the history, so a buffer changed
through one was reported as unmodified, and saving it marked the wrong
point in the history as being in sync with disk.
---
 src/buffer/mod.rs             |  6 +++---
 src/buffer/operation/group.rs | 11 +++++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 3b310f2..b82b904 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -191,7 +191,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
@@ -369,7 +369,7 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        !self.history.at_mark() || self.has_open_operations()
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -418,7 +418,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark_history();
 
         Ok(())
     }
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index 2d26a2c..22c1115 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -88,6 +88,17 @@ impl Buffer {
         }
     }
 
+    /// Marks the current point in the history. Operations in an open group aren't part of the
+    /// history yet, so they're committed beforehand; the group itself is left open.
+    pub(in crate::buffer) fn mark_history(&mut self) {
+        if self.operation_group.is_some() {
+            self.end_operation_group();
+            self.start_operation_group();
+        }
+
+        self.history.mark();
+    }
+
     /// Whether or not there's an open operation group with operations in it.
     pub(in crate::buffer) fn has_open_operations(&self) -> bool {
         match self.operation_group {
-- 
2.43.0


From e42d2476d3b9b9556ff0b1b13d0afc590f4567b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 7/8] fix: reverse insertions and deletions by byte offset

Content can combine with its surroundings into different grapheme clusters
once inserted or joined, so positions can't always express what to undo;
undoing also restored nothing when the end of a deleted range was out of
bounds. Track the offset (and content) actually affected instead.
---
 src/buffer/gap_buffer.rs       | 32 ++++++++++++++-----
 src/buffer/operation/delete.rs | 26 +++++++++------
 src/buffer/operation/insert.rs | 58 +++++++++++++---------------------
 3 files changed, 62 insertions(+), 54 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 4b2efd4..0225919 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,6 +56,13 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.content_offset(position) {
+            self.insert_at(data, offset);
+        }
+    }
+
+    // Inserts the specified data at the specified (byte) offset in the content.
+    pub(in crate::buffer) fn insert_at(&mut self, data: &str, offset: usize) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
@@ -76,12 +83,7 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap(self.data_offset(offset));
         self.write_to_gap(data);
     }
 
@@ -185,6 +187,14 @@ impl GapBuffer {
         };
     }
 
+    // Removes a number of bytes from the content, starting at the specified (byte) offset.
+    pub(in crate::buffer) fn delete_at(&mut self, offset: usize, length: usize) {
+        self.move_gap(self.data_offset(offset));
+
+        // Widen the gap to cover the deleted contents.
+        self.gap_length += length;
+    }
+
     /// Checks whether or not the specified position is in bounds of the buffer data.
     ///
     /// # Examples
@@ -205,6 +215,12 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
+        self.content_offset(position)
+            .map(|offset| self.data_offset(offset))
+    }
+
+    // Maps a position to its (byte) offset equivalent in the content.
+    pub(in crate::buffer) fn content_offset(&self, position: &Position) -> Option<usize> {
         // Grapheme clusters can straddle the gap, so we need to consider
         // the content as a whole, rather than its individual halves.
         let content = self.to_string();
@@ -214,7 +230,7 @@ impl GapBuffer {
         for (offset, grapheme) in content.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(self.data_offset(offset));
+                return Some(offset);
             }
 
             // Advance the line and offset characters. A CRLF
@@ -230,7 +246,7 @@ impl GapBuffer {
         // We didn't find the position *within* the content, but it could
         // be right after it, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
-            return Some(self.data.len());
+            return Some(content.len());
         }
 
         None
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..7fc9983 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -4,26 +4,34 @@ use std::clone::Clone;
 
 /// A reversible buffer delete operation.
 ///
-/// Deletes the content at the specified range. Tracks the deleted content and specified
-/// range, and reverses the operation by (trivially) inserting the deleted content at
-/// the start of the specified range.
+/// Deletes the content at the specified range. Tracks the deleted content and its offset,
+/// and reverses the operation by (trivially) inserting the deleted content at that offset.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the starting position of this operation when it is run or reversed.
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: Option<usize>,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        // Store the offset of the content we're about to delete.
+        self.offset = buffer.data.borrow().content_offset(&self.range.start());
+        let original = buffer.data();
 
         // Delete the data.
         buffer.data.borrow_mut().delete(&self.range);
 
+        // Store the content we've just deleted, which isn't necessarily
+        // that of the range; its end is allowed to be out of bounds.
+        let length = original.len() - buffer.data().len();
+        self.content = self
+            .offset
+            .map(|offset| original[offset..offset + length].to_string());
+
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
             callback(self.range.start())
@@ -31,11 +39,8 @@ impl Operation for Delete {
     }
 
     fn reverse(&mut self, buffer: &mut Buffer) {
-        if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+        if let (Some(offset), Some(content)) = (self.offset, self.content.as_ref()) {
+            buffer.data.borrow_mut().insert_at(content, offset);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +59,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: None,
             range,
         }
     }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..3e87cf2 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,13 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
-/// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// Inserts the provided content at the specified position. Tracks both, as well as the
+/// offset at which the content ended up, and reverses the operation by removing said
+/// content from that offset in the underlying buffer.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,10 +15,14 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
+        // Store the offset at which we're about to insert content.
+        self.offset = buffer.data.borrow().content_offset(&self.position);
+
         buffer
             .data
             .borrow_mut()
@@ -31,38 +34,17 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
+    // Inserted content can combine with what surrounds it to form different grapheme
+    // clusters, and so its end isn't necessarily expressible as a position; remove
+    // it based on its offset and length instead.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
         // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .delete_at(offset, self.content.len());
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +60,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 951ba8f38da066b523545bb3d1a6ebd24a48698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:08 +0000
Subject: [PATCH 8/8] fix: position tokens by the grapheme clusters of their
 line

---
 src/buffer/token/token_iterator.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..0b3859d 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -13,6 +13,7 @@ pub struct TokenIterator<'a> {
     current_byte_offset: usize,
     current_position: Position,
     line_events: Vec<(usize, ScopeStackOp)>,
+    line_graphemes: Vec<usize>,
     syntaxes: &'a SyntaxSet,
     pub error: Option<Error>,
 }
@@ -31,6 +32,7 @@ impl<'a> TokenIterator<'a> {
             current_byte_offset: 0,
             current_position: Position { line: 0, offset: 0 },
             line_events: Vec::new(),
+            line_graphemes: Vec::new(),
             syntaxes,
             error: None,
         };
@@ -98,11 +100,12 @@ impl<'a> TokenIterator<'a> {
                         position: self.current_position,
                     }));
 
-                    // The event/current offsets are byte-based, but
-                    // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // The event/current offsets are byte-based, but position offsets
+                    // should be grapheme cluster-based. Scopes can change in the middle
+                    // of a cluster, so we look at those of the line, not of its tokens.
+                    self.current_position.offset = self
+                        .line_graphemes
+                        .partition_point(|index| *index < end_of_token);
 
                     self.current_byte_offset = event_offset;
                 }
@@ -140,6 +143,12 @@ impl<'a> TokenIterator<'a> {
             line_events.reverse();
             self.line_events = line_events;
 
+            // Track where the line's grapheme clusters start.
+            self.line_graphemes = line
+                .grapheme_indices(true)
+                .map(|(index, _)| index)
+                .collect();
+
             // Keep a reference to the line so that we can create slices of it.
             self.current_line = Some(line);
 
-- 
2.43.0

