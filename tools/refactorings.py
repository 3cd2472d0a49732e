#!/usr/bin/env python3
"""Edits that keep the behaviour; the checks have to stay quiet on them.

refactorings.py [--tests] [ids]: applies each to a scratch copy of /repo, and runs the proof on it (whole crate).
Prints, per edit: proved | undecided (opaque functions, lost anchors) | ALARM (obligations that the checks would report).
"""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def ref(id, file, *edits): R.append((id, [(file, o, n) for o, n in edits]))
GB, CU, BM, OP, WS = "buffer/gap_buffer.rs", "buffer/cursor.rs", "buffer/mod.rs", "buffer/operation/", "workspace.rs"

# ---- gap buffer
ref("gb-insert-helper", GB, ("""            // We're about to add space to the end of the buffer, so move the gap
            // there beforehand so that we're essentially just increasing the
            // gap size, and preventing a split/two-segment gap.
            let offset = self.data.capacity();
            self.move_gap(offset);

            // Re-allocate the gap buffer, increasing its size.
            self.data.reserve(data.len());

            // Update the tracked gap size and tell the vector that
            // we're using all of the new space immediately.
            let capacity = self.data.capacity();
            self.gap_length = capacity - self.gap_start;
            unsafe {
                self.data.set_len(capacity);
            }
""", """            self.grow(data.len());
"""), ("""    fn write_to_gap(""", """    /// Re-allocates, making room for at least this many bytes.
    fn grow(&mut self, additional: usize) {
        let end = self.data.capacity();
        self.move_gap(end);
        self.data.reserve(additional);
        let capacity = self.data.capacity();
        self.gap_length = capacity - self.gap_start;
        unsafe {
            self.data.set_len(capacity);
        }
    }

    fn write_to_gap("""))
ref("gb-insert-match", GB, ("""        if let Some(offset) = self.content_offset(position) {
            self.insert_at(data, offset);
        }
""", """        match self.content_offset(position) {
            Some(offset) => self.insert_at(data, offset),
            None => (),
        }
"""))
ref("gb-insert-return", GB, ("""        if let Some(offset) = self.content_offset(position) {
            self.insert_at(data, offset);
        }
""", """        let offset = match self.content_offset(position) {
            Some(offset) => offset,
            None => return,
        };
        self.insert_at(data, offset);
"""))
ref("gb-insert-letelse", GB, ("""        if let Some(offset) = self.content_offset(position) {
            self.insert_at(data, offset);
        }
""", """        let Some(offset) = self.content_offset(position) else {
            return;
        };
        self.insert_at(data, offset);
"""))
ref("gb-read-question", GB, ("""        let start_offset = match self.find_offset(&range.start()) {
            Some(offset) => offset,
            None => return None,
        };
        let end_offset = match self.find_offset(&range.end()) {
            Some(offset) => offset,
            None => return None,
        };
""", """        let start_offset = self.find_offset(&range.start())?;
        let end_offset = self.find_offset(&range.end())?;
"""))
ref("gb-read-format", GB, ("""            // Allocate a string for the first half.
            let mut data = String::from_utf8_lossy(first_half).into_owned();

            // Push the second half onto the first.
            data.push_str(String::from_utf8_lossy(second_half).borrow());

            data
""", """            // Stitch the two halves together.
            let mut stitched = String::with_capacity(first_half.len() + second_half.len());
            stitched.push_str(String::from_utf8_lossy(first_half).borrow());
            stitched.push_str(String::from_utf8_lossy(second_half).borrow());

            stitched
"""))
ref("gb-read-content", GB, ("""        // Map positions to offsets in the buffer.
        let start_offset = match self.find_offset(&range.start()) {
            Some(offset) => offset,
            None => return None,
        };
        let end_offset = match self.find_offset(&range.end()) {
            Some(offset) => offset,
            None => return None,
        };

        let data = if start_offset < self.gap_start && self.gap_start < end_offset {
            // The gap is in the middle of the range being requested.
            // Stitch the surrounding halves together to exclude it.
            let first_half = &self.data[start_offset..self.gap_start];
            let second_half = &self.data[self.gap_start + self.gap_length..end_offset];

            // Allocate a string for the first half.
            let mut data = String::from_utf8_lossy(first_half).into_owned();

            // Push the second half onto the first.
            data.push_str(String::from_utf8_lossy(second_half).borrow());

            data
        } else {
            // No gap in the way; just return the requested data range.
            String::from_utf8_lossy(&self.data[start_offset..end_offset]).into_owned()
        };

        Some(data)
""", """        let start = self.content_offset(&range.start())?;
        let end = self.content_offset(&range.end())?;

        Some(self.to_string()[start..end].to_string())
"""))
ref("gb-delete-flat", GB, ("""        match self.find_offset(&range.end()) {
            Some(offset) => {
                // Widen the gap to cover the deleted contents.
                self.gap_length = offset - self.gap_start;
            }
            None => {
                // The end of the range doesn't exist; check
                // if it's on the last line in the file.
                let start_of_next_line = Position {
                    line: range.end().line + 1,
                    offset: 0,
                };

                match self.find_offset(&start_of_next_line) {
                    Some(offset) => {
                        // There are other lines below this range.
                        // Just remove up until the end of the line.
                        self.gap_length = offset - self.gap_start;
                    }
                    None => {
                        // We're on the last line, just get rid of the rest
                        // by extending the gap right to the end of the buffer.
                        self.gap_length = self.data.len() - self.gap_start;
                    }
                }
            }
        };
""", """        let start_of_next_line = Position {
            line: range.end().line + 1,
            offset: 0,
        };
        let end_offset = self
            .find_offset(&range.end())
            .or_else(|| self.find_offset(&start_of_next_line))
            .unwrap_or(self.data.len());

        // Widen the gap to cover the deleted contents.
        self.gap_length = end_offset - self.gap_start;
"""))
ref("gb-delete-iflet", GB, ("""        match self.find_offset(&range.end()) {
            Some(offset) => {
                // Widen the gap to cover the deleted contents.
                self.gap_length = offset - self.gap_start;
            }
            None => {
                // The end of the range doesn't exist; check
                // if it's on the last line in the file.
                let start_of_next_line = Position {
                    line: range.end().line + 1,
                    offset: 0,
                };

                match self.find_offset(&start_of_next_line) {
                    Some(offset) => {
                        // There are other lines below this range.
                        // Just remove up until the end of the line.
                        self.gap_length = offset - self.gap_start;
                    }
                    None => {
                        // We're on the last line, just get rid of the rest
                        // by extending the gap right to the end of the buffer.
                        self.gap_length = self.data.len() - self.gap_start;
                    }
                }
            }
        };
""", """        let end = if let Some(offset) = self.find_offset(&range.end()) {
            offset
        } else {
            let next_line = Position { line: range.end().line + 1, offset: 0 };
            if let Some(offset) = self.find_offset(&next_line) { offset } else { self.data.len() }
        };
        self.gap_length = end - self.gap_start;
"""))
ref("gb-offset-if", GB, ("""        self.find_offset(position).is_some()
""", """        self.content_offset(position).is_some()
"""))
ref("gb-content-helper", GB, ("""            if grapheme == "\\n" || grapheme == "\\r\\n" {
                line += 1;
""", """            if ends_line(grapheme) {
                line += 1;
"""), ("""impl fmt::Display for GapBuffer {""", """/// Whether a grapheme cluster is a line ending.
fn ends_line(grapheme: &str) -> bool {
    grapheme == "\\n" || grapheme == "\\r\\n"
}

impl fmt::Display for GapBuffer {"""))
ref("gb-content-matches", GB, ("""            if grapheme == "\\n" || grapheme == "\\r\\n" {
                line += 1;
                line_offset = 0;
            } else {
                line_offset += 1;
            }
""", """            match grapheme {
                "\\n" | "\\r\\n" => {
                    line += 1;
                    line_offset = 0;
                }
                _ => line_offset += 1,
            }
"""))
ref("gb-content-early", GB, ("""            // Check to see if we've found the position yet.
            if line == position.line && line_offset == position.offset {
                return Some(offset);
            }
""", """            // Check to see if we've found the position yet.
            if line == position.line && line_offset == position.offset {
                return Some(offset);
            }
            if line > position.line {
                return None;
            }
"""))
ref("gb-content-current", GB, ("""        let mut line = 0;
        let mut line_offset = 0;

        for (offset, grapheme) in content.grapheme_indices(true) {
            // Check to see if we've found the position yet.
            if line == position.line && line_offset == position.offset {
                return Some(offset);
            }

            // Advance the line and offset characters. A CRLF
            // line ending is a single grapheme cluster.
            if grapheme == "\\n" || grapheme == "\\r\\n" {
                line += 1;
                line_offset = 0;
            } else {
                line_offset += 1;
            }
        }

        // We didn't find the position *within* the content, but it could
        // be right after it, which means it's at the end of the buffer.
        if line == position.line && line_offset == position.offset {
            return Some(content.len());
        }
""", """        let mut current = Position { line: 0, offset: 0 };

        for (offset, grapheme) in content.grapheme_indices(true) {
            if current == *position {
                return Some(offset);
            }

            if grapheme == "\\n" || grapheme == "\\r\\n" {
                current = Position { line: current.line + 1, offset: 0 };
            } else {
                current.offset += 1;
            }
        }

        if current == *position {
            return Some(content.len());
        }
"""))
ref("gb-dataoffset-match", GB, ("""        if offset < self.gap_start {
            offset
        } else {
            offset + self.gap_length
        }
""", """        let shift = if offset >= self.gap_start { self.gap_length } else { 0 };
        offset + shift
"""))
ref("gb-movegap-if", GB, ("""        match offset.cmp(&self.gap_start) {
            Ordering::Less => {
                // Shift the gap to the left one byte at a time.
                for index in (offset..self.gap_start).rev() {
                    self.data[index + self.gap_length] = self.data[index];
                    self.data[index] = 0;
                }

                self.gap_start = offset;
            }
            Ordering::Greater => {
                // Shift the gap to the right one byte at a time.
                for index in self.gap_start + self.gap_length..offset {
                    self.data[index - self.gap_length] = self.data[index];
                    self.data[index] = 0;
                }

                // Because the offset was after the gap, its value included the
                // gap length. We must remove it to determine the starting point.
                self.gap_start = offset - self.gap_length;
            }
            Ordering::Equal => (), // already at requested offset; NOP
        }
""", """        if offset < self.gap_start {
            // Shift the gap to the left one byte at a time.
            for index in (offset..self.gap_start).rev() {
                self.data[index + self.gap_length] = self.data[index];
                self.data[index] = 0;
            }

            self.gap_start = offset;
        } else if offset > self.gap_start {
            // Shift the gap to the right one byte at a time.
            for index in self.gap_start + self.gap_length..offset {
                self.data[index - self.gap_length] = self.data[index];
                self.data[index] = 0;
            }

            self.gap_start = offset - self.gap_length;
        }
"""), ("use std::cmp::Ordering;\n", ""))
ref("gb-movegap-while", GB, ("""                for index in (offset..self.gap_start).rev() {
                    self.data[index + self.gap_length] = self.data[index];
                    self.data[index] = 0;
                }
""", """                let mut index = self.gap_start;
                while index > offset {
                    index -= 1;
                    self.data[index + self.gap_length] = self.data[index];
                    self.data[index] = 0;
                }
"""))
ref("gb-movegap-nozero", GB, ("""                for index in self.gap_start + self.gap_length..offset {
                    self.data[index - self.gap_length] = self.data[index];
                    self.data[index] = 0;
                }
""", """                for index in self.gap_start + self.gap_length..offset {
                    self.data[index - self.gap_length] = self.data[index];
                }
"""))
ref("gb-write-slice", GB, ("""        for byte in data.bytes() {
            self.data[self.gap_start] = byte;
            self.gap_start += 1;
            self.gap_length -= 1;
        }
""", """        let end = self.gap_start + data.len();
        self.data[self.gap_start..end].copy_from_slice(data.as_bytes());
        self.gap_start = end;
        self.gap_length -= data.len();
"""))
ref("gb-write-after", GB, ("""        for byte in data.bytes() {
            self.data[self.gap_start] = byte;
            self.gap_start += 1;
            self.gap_length -= 1;
        }
""", """        for (index, byte) in data.bytes().enumerate() {
            self.data[self.gap_start + index] = byte;
        }
        self.gap_start += data.len();
        self.gap_length -= data.len();
"""))
ref("gb-fmt-write", GB, ("""        write!(f, "{}{}", first_half, second_half)
""", """        write!(f, "{}", first_half)?;
        write!(f, "{}", second_half)
"""))
ref("gb-fmt-order", GB, ("""        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
""", """        let gap_end = self.gap_start + self.gap_length;
        let second_half = String::from_utf8_lossy(&self.data[gap_end..]);
        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
"""))
# ---- cursor
ref("cu-eol-helper", CU, ("""        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
            self.move_to(Position {
                line: target_line,
                offset: target_offset,
            });

            // Moving the position successfully updates the sticky offset, but we
            // haven't actually moved to where we really wanted to go (offset-wise).
            // Restore the original desired offset; it might be available on the next try.
            self.sticky_offset = new_position.offset;
        }
    }

    /// Moves the cursor to the next""" if False else """        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
""", """        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let target_offset = self.line_length(target_line);
"""), ("""        // Try moving to the same offset on the line below, falling back to its EOL.
        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
""", """        // Try moving to the same offset on the line below, falling back to its EOL.
        if !self.move_to(new_position) {
            let target_offset = self.line_length(target_line);
"""), ("""    pub fn move_up(""", """    fn line_length(&self, target_line: usize) -> usize {
        let mut length = 0;
        for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
            if line_number == target_line {
                length = line.graphemes(true).count();
            }
        }
        length
    }

    pub fn move_up("""))
ref("cu-up-nth", CU, ("""        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
""", """        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let target_offset = self
                .data
                .borrow()
                .to_string()
                .lines()
                .nth(target_line)
                .map(|line| line.graphemes(true).count())
                .unwrap_or(0);
"""))
ref("cu-up-break", CU, ("""        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                }
            }
""", """        // Try moving to the same offset on the line above, falling back to its EOL.
        if !self.move_to(new_position) {
            let mut target_offset = 0;
            for (line_number, line) in self.data.borrow().to_string().lines().enumerate() {
                if line_number == target_line {
                    target_offset = line.graphemes(true).count();
                    break;
                }
            }
"""))
ref("cu-moveto-flip", CU, ("""        if self.data.borrow().in_bounds(&position) {
            self.position = position;

            // Remember this offset so that we can try
            // to maintain it when moving across lines.
            self.sticky_offset = position.offset;

            return true;
        }
        false
""", """        let exists = self.data.borrow().in_bounds(&position);
        if !exists {
            return false;
        }

        self.sticky_offset = position.offset;
        self.position = position;
        true
"""))
ref("cu-left-guard", CU, ("""        // Don't bother if we are already at the left edge.
        if self.offset == 0 {
            return;
        }

        let new_position = Position {
            line: self.line,
            offset: self.offset - 1,
        };
        self.move_to(new_position);
""", """        if self.position.offset > 0 {
            let line = self.position.line;
            self.move_to(Position { line, offset: self.position.offset - 1 });
        }
"""))
ref("cu-first-min", CU, ("""        let target_position = if length < self.sticky_offset {
            // Current offset is beyond the first line's length; move to the end of it.
            Position {
                line: 0,
                offset: length,
            }
        } else {
            // Current offset is available on the first line; go there.
            Position {
                line: 0,
                offset: self.sticky_offset,
            }
        };
        self.move_to(target_position);
""", """        let offset = std::cmp::min(length, self.sticky_offset);
        self.move_to(Position { line: 0, offset });
"""))
ref("cu-first-min2", CU, ("""        let target_position = if length < self.sticky_offset {
            // Current offset is beyond the first line's length; move to the end of it.
            Position {
                line: 0,
                offset: length,
            }
        } else {
            // Current offset is available on the first line; go there.
            Position {
                line: 0,
                offset: self.sticky_offset,
            }
        };
        self.move_to(target_position);
""", """        self.move_to(Position { line: 0, offset: length.min(self.sticky_offset) });
"""))
ref("cu-first-next", CU, (""".lines()
            .nth(0)
""", """.lines()
            .next()
"""))
ref("cu-first-mapor", CU, ("""            .map(|line| line.graphemes(true).count())
            .unwrap_or(0);
""", """            .map_or(0, |line| line.graphemes(true).count());
"""))
ref("cu-eol-let", CU, ("""        let current_line = data.lines().nth(self.line);
        if let Some(line) = current_line {
            let new_position = Position {
                line: self.line,
                offset: line.graphemes(true).count(),
            };
            self.move_to(new_position);
        }
""", """        if let Some(line) = data.lines().nth(self.position.line) {
            let offset = line.graphemes(true).count();
            self.move_to(Position { line: self.position.line, offset });
        }
"""))
ref("cu-last-let", CU, ("""        for c in self.data.borrow().to_string().graphemes(true) {
            if c == "\\n" || c == "\\r\\n" {
""", """        let content = self.data.borrow().to_string();
        for cluster in content.graphemes(true) {
            let line_ending = cluster == "\\n" || cluster == "\\r\\n";
            if line_ending {
"""))
# ---- buffer
ref("bm-default-tidy", BM, ("""        let mut history = History::new();
        history.mark();

        Buffer {
            id: None,
            data: data.clone(),
            path: None,
            cursor,
""", """        Buffer {
            id: None,
            data,
            path: None,
            cursor,
"""))
ref("bm-new-direct", BM, ("""        Default::default()
""", """        Buffer::default()
"""))
ref("bm-from-file-order", BM, ("""        let content = fs::read_to_string(path)?;

        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });

        // Create a new buffer using the loaded data, path, and other defaults.
        let mut buffer = Buffer {
            id: None,
            data: data.clone(),
            path: Some(path.canonicalize()?),
            cursor,
            history: History::new(),
""", """        let content = fs::read_to_string(path)?;
        let full_path = path.canonicalize()?;

        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(data.clone(), Position::new());

        // Create a new buffer using the loaded data, path, and other defaults.
        let mut buffer = Buffer {
            id: None,
            data,
            path: Some(full_path),
            cursor,
            history: History::new(),
"""))
ref("bm-save-tidy", BM, ("""        let mut file = if let Some(ref path) = self.path {
            File::create(path)?
        } else {
            File::create(PathBuf::new())?
        };

        // We use to_string here because we don't want to write the gap contents.
        file.write_all(self.data().to_string().as_bytes())?;
""", """        let mut file = match self.path {
            Some(ref path) => File::create(path)?,
            None => File::create(PathBuf::new())?,
        };

        let content = self.data();
        file.write_all(content.as_bytes())?;
"""))
ref("bm-save-unwrap", BM, ("""        let mut file = if let Some(ref path) = self.path {
            File::create(path)?
        } else {
            File::create(PathBuf::new())?
        };
""", """        let path = self.path.clone().unwrap_or_default();
        let mut file = File::create(path)?;
"""))
ref("bm-linecount-loop", BM, ("""        self.data().chars().filter(|&c| c == '\\n').count() + 1
""", """        let mut lines = 1;
        for c in self.data().chars() {
            if c == '\\n' {
                lines += 1;
            }
        }
        lines
"""))
ref("bm-linecount-bytes", BM, ("""        self.data().chars().filter(|&c| c == '\\n').count() + 1
""", """        1 + self.data().bytes().filter(|&b| b == b'\\n').count()
"""))
ref("bm-linecount-split", BM, ("""        self.data().chars().filter(|&c| c == '\\n').count() + 1
""", """        self.data().split('\\n').count()
"""))
ref("bm-search-starts", BM, ("""                // Check haystack length before slicing it and comparing bytes with needle.
                if haystack.len() >= needle.len()
                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                {
                    results.push""", """                if haystack.starts_with(needle) {
                    results.push"""))
ref("bm-search-helper", BM, ("""                if haystack.len() >= needle.len()
                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                {
""", """                if begins_with(haystack, needle) {
"""), ("""impl Default for Buffer {""", """fn begins_with(haystack: &str, needle: &str) -> bool {
    haystack.len() >= needle.len()
        && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
}

impl Default for Buffer {"""))
ref("bm-search-continue", BM, ("""                if haystack.len() >= needle.len()
                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
                {
                    results.push(Position { line, offset });
                }
""", """                if haystack.len() < needle.len() {
                    continue;
                }
                if needle.as_bytes() == &haystack.as_bytes()[..needle.len()] {
                    let position = Position { line, offset };
                    results.push(position);
                }
"""))
ref("bm-modified-flip", BM, ("""        !self.history.at_mark() || self.has_open_operations()
""", """        self.has_open_operations() || !self.history.at_mark()
"""))
ref("bm-modified-if", BM, ("""        !self.history.at_mark() || self.has_open_operations()
""", """        if self.has_open_operations() {
            return true;
        }

        !self.history.at_mark()
"""))
ref("bm-undo-match", BM, ("""        if let Some(mut op) = self.history.previous() {
            op.reverse(self);
        }
""", """        match self.history.previous() {
            Some(mut operation) => operation.reverse(self),
            None => {}
        }
"""))
ref("bm-redo-nest", BM, ("""        if self.has_open_operations() {
            return;
        }

        // Look for an operation to apply.
        if let Some(mut op) = self.history.next() {
            op.run(self);
        }
""", """        if !self.has_open_operations() {
            // Look for an operation to apply.
            if let Some(mut op) = self.history.next() {
                op.run(self);
            }
        }
"""))
ref("bm-reload-match", BM, ("""        let path = self.path.as_ref().ok_or(ErrorKind::MissingPath)?;
        let content = fs::read_to_string(path)?;
""", """        let content = match self.path {
            Some(ref path) => fs::read_to_string(path)?,
            None => return Err(ErrorKind::MissingPath.into()),
        };
"""))
ref("bm-extension-filter", BM, ("""            p.extension().and_then(|e| {
                if !e.is_empty() {
                    return Some(e.to_string_lossy().into_owned());
                }

                None
            })
""", """            p.extension()
                .filter(|e| !e.is_empty())
                .map(|e| e.to_string_lossy().into_owned())
"""))
ref("bm-filename-question", BM, ("""        self.path.as_ref().and_then(|p| {
            p.file_name()
                .and_then(|f| f.to_str().map(|s| s.to_string()))
        })
""", """        let name = self.path.as_ref()?.file_name()?;

        name.to_str().map(|s| s.to_string())
"""))
# ---- operations
ref("op-add-helper", OP + "insert.rs", ("""        match self.operation_group {
            Some(ref mut group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        };
    }
}
""", """        self.record(Box::new(op));
    }

    pub(in crate::buffer) fn record(&mut self, operation: Box<dyn Operation>) {
        match self.operation_group {
            Some(ref mut group) => group.add(operation),
            None => self.history.add(operation),
        };
    }
}
"""))
ref("op-insert-notify", OP + "insert.rs", ("""        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }
    }

    // Inserted""", """        self.notify(buffer);
    }

    // Inserted"""), ("""impl Insert {
""", """impl Insert {
    fn notify(&self, buffer: &Buffer) {
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }
    }

"""))
ref("op-insert-iflet", OP + "insert.rs", ("""        match self.operation_group {
            Some(ref mut group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        };
""", """        if let Some(ref mut group) = self.operation_group {
            group.add(Box::new(op));
        } else {
            self.history.add(Box::new(op));
        }
"""))
ref("op-insert-asmut", OP + "insert.rs", ("""        match self.operation_group {
            Some(ref mut group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        };
""", """        match self.operation_group.as_mut() {
            Some(group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        }
"""))
ref("op-insert-mutref", OP + "insert.rs", ("""        match self.operation_group {
            Some(ref mut group) => group.add(Box::new(op)),
            None => self.history.add(Box::new(op)),
        };
""", """        let operation = Box::new(op);
        match &mut self.operation_group {
            Some(group) => group.add(operation),
            None => self.history.add(operation),
        }
"""))
ref("op-delete-order", OP + "delete.rs", ("""        let mut end = Position {
            line: self.cursor.line,
            offset: self.cursor.offset + 1,
        };
""", """        let start = self.cursor.position;
        let mut end = Position {
            line: start.line,
            offset: start.offset + 1,
        };
"""), ("""        // The range we're building is going to be consumed,
        // so create a clone of the cursor's current position.
        let start = self.cursor.position;

""", ""))
ref("op-delete-nested", OP + "delete.rs", ("""        if let (Some(offset), Some(content)) = (self.offset, self.content.as_ref()) {
            buffer.data.borrow_mut().insert_at(content, offset);

            // Run the change callback, if present.
            if let Some(ref callback) = buffer.change_callback {
                callback(self.range.start())
            }
        }
""", """        let (offset, content) = match (self.offset, self.content.as_ref()) {
            (Some(offset), Some(content)) => (offset, content),
            _ => return,
        };
        buffer.data.borrow_mut().insert_at(content, offset);

        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.range.start())
        }
"""))
ref("op-delete-content-match", OP + "delete.rs", ("""        self.content = self
            .offset
            .map(|offset| original[offset..offset + length].to_string());
""", """        self.content = match self.offset {
            Some(offset) => Some(original[offset..offset + length].to_string()),
            None => None,
        };
"""))
ref("op-delete-newpos", OP + "delete.rs", ("""        if !self.data.borrow().in_bounds(&end) {
            end.line += 1;
            end.offset = 0;
        }
""", """        let has_character = self.data.borrow().in_bounds(&end);
        if !has_character {
            end = Position { line: end.line + 1, offset: 0 };
        }
"""))
ref("op-group-loop", OP + "group.rs", ("""        for operation in &mut self.operations.iter_mut().rev() {
            operation.reverse(buffer);
        }
""", """        for operation in self.operations.iter_mut().rev() {
            operation.reverse(buffer);
        }
"""))
ref("op-group-index", OP + "group.rs", ("""        for operation in &mut self.operations {
            operation.run(buffer);
        }
""", """        for index in 0..self.operations.len() {
            self.operations[index].run(buffer);
        }
"""))
ref("op-group-iter", OP + "group.rs", ("""        for operation in &mut self.operations {
            operation.run(buffer);
        }
""", """        for operation in self.operations.iter_mut() {
            operation.run(buffer);
        }
"""))
ref("op-group-clone-loop", OP + "group.rs", ("""        Box::new(OperationGroup {
            operations: self
                .operations
                .iter()
                .map(|o| (*o).clone_operation())
                .collect(),
        })
""", """        let mut operations = Vec::new();
        for operation in self.operations.iter() {
            operations.push(operation.clone_operation());
        }

        Box::new(OperationGroup { operations })
"""))
ref("op-group-start-if", OP + "group.rs", ("""        match self.operation_group {
            Some(_) => (),
            None => {
                self.operation_group = Some(OperationGroup::new());
            }
        }
""", """        if self.operation_group.is_none() {
            self.operation_group = Some(OperationGroup::new());
        }
"""))
ref("op-group-start-insert", OP + "group.rs", ("""        match self.operation_group {
            Some(_) => (),
            None => {
                self.operation_group = Some(OperationGroup::new());
            }
        }
""", """        self.operation_group.get_or_insert_with(OperationGroup::new);
"""))
ref("op-group-end-match", OP + "group.rs", ("""        if let Some(group) = self.operation_group.take() {
            if !group.is_empty() {
                self.history.add(Box::new(group))
            }
        }
""", """        match self.operation_group.take() {
            Some(group) if !group.is_empty() => self.history.add(Box::new(group)),
            _ => (),
        }
"""))
ref("op-group-empty-len", OP + "group.rs", ("""        self.operations.is_empty()
""", """        self.operations.len() == 0
"""))
ref("op-history-order", OP + "history.rs", ("""        self.previous.push(operation);
        self.next.clear();

        // Clear""", """        self.next.clear();
        self.previous.push(operation);

        // Clear"""))
ref("op-history-question", OP + "history.rs", ("""        match self.previous.pop() {
            Some(operation) => {
                // We've found a previous operation. Before we return it, store a
                // clone of it so that it can be re-applied as a redo operation.
                self.next.push(operation.clone_operation());
                Some(operation)
            }
            None => None,
        }
""", """        let operation = self.previous.pop()?;

        // Store a clone of it so that it can be re-applied as a redo operation.
        self.next.push(operation.clone_operation());

        Some(operation)
"""))
ref("op-history-map", OP + "history.rs", ("""        match self.next.pop() {
            Some(operation) => {
                // We've found a subsequent operation. Before we return it, store a
                // clone of it so that it can be re-applied as an undo operation, again.
                self.previous.push(operation.clone_operation());
                Some(operation)
            }
            None => None,
        }
""", """        self.next.pop().map(|operation| {
            self.previous.push(operation.clone_operation());
            operation
        })
"""))
ref("op-history-mark-eq", OP + "history.rs", ("""        if let Some(position) = self.marked_position {
            self.previous.len() == position
        } else {
            false
        }
""", """        self.marked_position == Some(self.previous.len())
"""))
ref("op-history-mark-match", OP + "history.rs", ("""        if let Some(position) = self.marked_position {
            self.previous.len() == position
        } else {
            false
        }
""", """        match self.marked_position {
            Some(position) => position == self.previous.len(),
            None => false,
        }
"""))
ref("op-history-clear", OP + "history.rs", ("""        if let Some(position) = self.marked_position {
            if position >= self.previous.len() {
                self.marked_position = None
            }
        }
""", """        let depth = self.previous.len();
        match self.marked_position {
            Some(position) if position >= depth => self.marked_position = None,
            _ => (),
        }
"""))
ref("op-replace-pos", OP + "replace.rs", ("""        let mut op = Replace::new(self.data(), content.into());
""", """        let mut op = Replace::new(old_content, content.into());
"""))
ref("op-replace-order", OP + "replace.rs", ("""    if !cursor.move_to(*buffer.cursor) {
        cursor.move_to(Position {
            line: buffer.cursor.line,
            offset: 0,
        });
    }

    // Do the replacement.
    buffer.data = data;
    buffer.cursor = cursor;
""", """    let wanted = buffer.cursor.position;
    let retained = cursor.move_to(wanted);
    if !retained {
        cursor.move_to(Position { line: wanted.line, offset: 0 });
    }

    // Do the replacement.
    buffer.cursor = cursor;
    buffer.data = data;
"""))
# ---- positions and the like
ref("po-add-via", "buffer/position.rs", ("""        self.line += distance.lines;
        self.offset = if distance.lines > 0 {
            distance.offset
        } else {
            self.offset + distance.offset
        };
""", """        *self = *self + distance;
"""))
ref("po-cmp-chain", "buffer/position.rs", ("""        Some(if self.line < other.line {
            Ordering::Less
        } else if self.line > other.line {
            Ordering::Greater
        } else if self.offset < other.offset {
            Ordering::Less
        } else if self.offset > other.offset {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
""", """        Some(self.line.cmp(&other.line).then(self.offset.cmp(&other.offset)))
"""))
ref("po-cmp-nest", "buffer/position.rs", ("""        Some(if self.line < other.line {
            Ordering::Less
        } else if self.line > other.line {
            Ordering::Greater
        } else if self.offset < other.offset {
            Ordering::Less
        } else if self.offset > other.offset {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
""", """        if self.line == other.line {
            self.offset.partial_cmp(&other.offset)
        } else {
            self.line.partial_cmp(&other.line)
        }
"""))
ref("po-cmp-match", "buffer/position.rs", ("""        Some(if self.line < other.line {
            Ordering::Less
        } else if self.line > other.line {
            Ordering::Greater
        } else if self.offset < other.offset {
            Ordering::Less
        } else if self.offset > other.offset {
            Ordering::Greater
        } else {
            Ordering::Equal
        })
""", """        match self.line.cmp(&other.line) {
            Ordering::Equal => Some(self.offset.cmp(&other.offset)),
            ordering => Some(ordering),
        }
"""))
ref("ra-includes", "buffer/range.rs", ("""        position >= &self.start() && position < &self.end()
""", """        *position >= self.start && *position < self.end
"""))
ref("ra-includes-not", "buffer/range.rs", ("""        position >= &self.start() && position < &self.end()
""", """        if position < &self.start {
            return false;
        }
        position < &self.end
"""))
ref("ra-new-swap", "buffer/range.rs", ("""        if start > end {
            Range {
                start: end,
                end: start,
            }
        } else {
            Range { start, end }
        }
""", """        let (start, end) = if end < start { (end, start) } else { (start, end) };
        Range { start, end }
"""))
ref("lr-new-minmax", "buffer/line_range.rs", ("""        if start < end {
            LineRange { start, end }
        } else {
            LineRange {
                start: end,
                end: start,
            }
        }
""", """        LineRange {
            start: std::cmp::min(start, end),
            end: std::cmp::max(start, end),
        }
"""))
ref("lr-includes-range", "buffer/line_range.rs", ("""        line >= self.start() && line < self.end()
""", """        (self.start..self.end).contains(&line)
"""))
ref("lr-helper", "buffer/line_range.rs", ("""        Range::new(
            Position {
                line: self.start,
                offset: 0,
            },
            Position {
                line: self.end + 1,
                offset: 0,
            },
        )
""", """        let start = Position { line: self.start, offset: 0 };
        let end = Position { line: self.end + 1, offset: 0 };
        Range::new(start, end)
"""))
ref("di-rsplit", "buffer/distance.rs", ("""            offset: from
                .split('\\n')
                .last()
                .map(|l| l.graphemes(true).count())
                .unwrap_or(0),
""", """            offset: match from.rfind('\\n') {
                Some(index) => from[index + 1..].graphemes(true).count(),
                None => from.graphemes(true).count(),
            },
"""))
ref("di-lets", "buffer/distance.rs", ("""        Distance {
            lines: from.chars().filter(|&c| c == '\\n').count(),
            offset: from
                .split('\\n')
                .last()
                .map(|l| l.graphemes(true).count())
                .unwrap_or(0),
        }
""", """        let last_line = from.split('\\n').last().unwrap_or("");
        let lines = from.chars().filter(|c| *c == '\\n').count();

        Distance { lines, offset: last_line.graphemes(true).count() }
"""))
# ---- lines and tokens
ref("li-inline", "util/line_iterator.rs", ("""        if self.out_of_data() && !trailing_newline {
""", """        if !trailing_newline && self.line_end == self.data.len() {
"""))
ref("li-flip", "util/line_iterator.rs", ("""        if self.out_of_data() && !trailing_newline {
            self.done = true;
        } else {
            self.line_number += 1;
        }

        line
""", """        if trailing_newline || !self.out_of_data() {
            self.line_number += 1;
        } else {
            self.done = true;
        }

        line
"""))
ref("li-find", "util/line_iterator.rs", ("""        for c in self.data[self.line_start..].chars() {
            // Extend the current line range to include this char.
            self.line_end += c.len_utf8();

            if c == '\\n' {
                trailing_newline = true;
                break;
            }
        }
""", """        match self.data[self.line_start..].find('\\n') {
            Some(index) => {
                self.line_end += index + 1;
                trailing_newline = true;
            }
            None => self.line_end = self.data.len(),
        }
"""))
ref("li-slice", "util/line_iterator.rs", ("""        for c in self.data[self.line_start..].chars() {
""", """        let remainder = &self.data[self.line_start..];
        for c in remainder.chars() {
"""))
ref("ti-eol-helper", "buffer/token/token_iterator.rs", ("""            let end_of_line = if line.ends_with('\\n') {
                line.len() - 1
            } else {
                line.len()
            };
""", """            let end_of_line = end_of_content(line);
"""), ("""impl<'a> Iterator for TokenIterator<'a> {""", """fn end_of_content(line: &str) -> usize {
    if line.ends_with('\\n') {
        line.len() - 1
    } else {
        line.len()
    }
}

impl<'a> Iterator for TokenIterator<'a> {"""))
ref("ti-next-match", "buffer/token/token_iterator.rs", ("""        // Track error before halting.
        if let Err(e) = token_result {
            self.error = Some(e);

            return None;
        }

        // Try to fetch a token from the current line.
        if let Ok(Some(token)) = token_result {
            return Some(token);
        }
""", """        match token_result {
            Ok(Some(token)) => return Some(token),
            Ok(None) => (),
            Err(e) => {
                self.error = Some(e);
                return None;
            }
        }
"""))
ref("ti-parse-match", "buffer/token/token_iterator.rs", ("""        let parse_result = self.parse_next_line();

        // Track error before halting.
        if let Err(e) = parse_result {
""", """        // Track error before halting.
        if let Err(e) = self.parse_next_line() {
"""))
ref("ti-parse-order", "buffer/token/token_iterator.rs", ("""            // Keep a reference to the line so that we can create slices of it.
            self.current_line = Some(line);

            // Track our position, which we'll pass to generated tokens.
            self.current_position = Position {
                line: line_number,
                offset: 0,
            };

            // Reset byte-based line offset.
            self.current_byte_offset = 0;
""", """            self.current_byte_offset = 0;
            self.current_position = Position {
                line: line_number,
                offset: 0,
            };
            self.current_line = Some(line);
"""))
ref("ti-lexeme-helper", "buffer/token/token_iterator.rs", ("""                lexeme = Some(Token::Lexeme(Lexeme {
                    value: &line[self.current_byte_offset..end_of_line],
                    scope: self.scopes.clone(),
                    position: self.current_position,
                }));
            }
""", """                lexeme = Some(self.lexeme(&line[self.current_byte_offset..end_of_line]));
            }
"""), ("""    fn parse_next_line(""", """    fn lexeme(&self, value: &'a str) -> Token<'a> {
        Token::Lexeme(Lexeme {
            value,
            scope: self.scopes.clone(),
            position: self.current_position,
        })
    }

    fn parse_next_line("""))
# ---- workspace
ref("ws-add-target", WS, ("""        let target_index = self.current_buffer_index.map(|i| i + 1).unwrap_or(0);
""", """        let target_index = match self.current_buffer_index {
            Some(index) => index + 1,
            None => 0,
        };
"""))
ref("ws-add-mapor", WS, ("""        let target_index = self.current_buffer_index.map(|i| i + 1).unwrap_or(0);
""", """        let target_index = self.current_buffer_index.map_or(0, |i| i + 1);
"""))
ref("ws-add-syntax", WS, ("""        if let Some(buf) = self.current_buffer.as_ref() {
            if buf.syntax_definition.is_none() {
                let _ = self.update_current_syntax();
            }
        }
""", """        let missing_syntax = match self.current_buffer {
            Some(ref buffer) => buffer.syntax_definition.is_none(),
            None => false,
        };
        if missing_syntax {
            let _ = self.update_current_syntax();
        }
"""))
ref("ws-add-before", WS, ("""        // Insert the buffer and select it.
        self.buffers.insert(target_index, buf);
        self.select_buffer(target_index);

        // Add a syntax definition to the buffer, if it doesn't already have one.
        if let Some(buf) = self.current_buffer.as_ref() {
            if buf.syntax_definition.is_none() {
                let _ = self.update_current_syntax();
            }
        }
""", """        // Insert the buffer and select it.
        let needs_syntax = buf.syntax_definition.is_none();
        self.buffers.insert(target_index, buf);
        self.select_buffer(target_index);

        // Add a syntax definition to the buffer, if it doesn't already have one.
        if needs_syntax {
            let _ = self.update_current_syntax();
        }
"""))
ref("ws-open-early", WS, ("""        if self.select_buffer_by_path(path) {
            Ok(())
        } else {
            let buffer = Buffer::from_file(path)?;
            self.add_buffer(buffer);

            Ok(())
        }
""", """        if !self.select_buffer_by_path(path) {
            self.add_buffer(Buffer::from_file(path)?);
        }

        Ok(())
"""))
ref("ws-close-let", WS, ("""            if self.buffers.is_empty() {
                self.current_buffer_index = None;
            } else {
                self.select_buffer(index.saturating_sub(1));
            }
        };
""", """            if !self.buffers.is_empty() {
                let previous = if index > 0 { index - 1 } else { 0 };
                self.select_buffer(previous);
            } else {
                self.current_buffer_index = None;
            }
        };
"""))
ref("ws-next-mod", WS, ("""            if index == self.buffers.len() - 1 {
                self.select_buffer(0);
            } else {
                self.select_buffer(index + 1);
            }
""", """            self.select_buffer((index + 1) % self.buffers.len());
"""))
ref("ws-prev-let", WS, ("""            if index > 0 {
                self.select_buffer(index - 1);
            } else {
                self.select_buffer(self.buffers.len() - 1);
            }
""", """            let target = if index == 0 { self.buffers.len() - 1 } else { index - 1 };
            self.select_buffer(target);
"""))
ref("ws-prev-checked", WS, ("""            if index > 0 {
                self.select_buffer(index - 1);
            } else {
                self.select_buffer(self.buffers.len() - 1);
            }
""", """            let target = index.checked_sub(1).unwrap_or(self.buffers.len() - 1);
            self.select_buffer(target);
"""))
ref("ws-select-flag", WS, ("""            self.current_buffer = Some(mem::replace(target_buffer, Buffer::new()));

            self.current_buffer_index = Some(index);

            return true;
        }

        false
""", """            let placeholder = Buffer::new();
            self.current_buffer_index = Some(index);
            self.current_buffer = Some(mem::replace(target_buffer, placeholder));

            true
        } else {
            false
        }
"""))
ref("ws-select-take", WS, ("""        if let Some(current_buffer) = self.current_buffer.as_mut() {
            mem::swap(
                current_buffer,
                &mut self.buffers[self.current_buffer_index.unwrap()],
            );
        }
""", """        if let Some(current_buffer) = self.current_buffer.take() {
            if let Some(current_index) = self.current_buffer_index {
                self.buffers[current_index] = current_buffer;
            }
        }
"""))
ref("ws-bypath-match", WS, ("""            index
                .map(|index| self.select_buffer(index))
                .unwrap_or(false)
""", """            match index {
                Some(index) => self.select_buffer(index),
                None => false,
            }
"""))
ref("ws-bypath-loop", WS, ("""            let index = self
                .buffers
                .iter()
                .position(|buffer| buffer.path.as_ref() == Some(canonical_path));
""", """            let mut index = None;
            for (i, buffer) in self.buffers.iter().enumerate() {
                if buffer.path.as_ref() == Some(canonical_path) {
                    index = Some(i);
                    break;
                }
            }
"""))
ref("ws-paths-helper", WS, ("""                    buf.path
                        .as_deref()
                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))
                }
""", """                    self.relative_path(buf)
                }
"""), ("""    fn select_buffer(&mut self""", """    fn relative_path<'b>(&self, buf: &'b Buffer) -> Option<&'b Path> {
        buf.path
            .as_deref()
            .map(|path| path.strip_prefix(&self.path).unwrap_or(path))
    }

    fn select_buffer(&mut self"""))
ref("ws-paths-loop", WS, ("""        self.buffers
            .iter()
            .enumerate()
            .map(|(i, buf)| {
                if self.current_buffer_index == Some(i) {
                    self.current_buffer_path()
                } else {
                    buf.path
                        .as_deref()
                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))
                }
            })
            .collect::<Vec<_>>()
""", """        let mut paths = Vec::with_capacity(self.buffers.len());
        for (i, buf) in self.buffers.iter().enumerate() {
            if self.current_buffer_index == Some(i) {
                paths.push(self.current_buffer_path());
            } else {
                paths.push(
                    buf.path
                        .as_deref()
                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path))),
                );
            }
        }
        paths
"""))
ref("ws-tokens-match", WS, ("""        let buf = self
            .current_buffer
            .as_ref()
            .ok_or(ErrorKind::EmptyWorkspace)?;
        let data = buf.data();
        let syntax_definition = buf
""", """        let buf = match self.current_buffer.as_ref() {
            Some(buf) => buf,
            None => return Err(ErrorKind::EmptyWorkspace.into()),
        };
        let data = buf.data();
        let syntax_definition = buf
"""))
ref("ws-syntax-key", WS, ("""        let definition = buffer
            .file_extension()
            .or_else(|| buffer.file_name())
            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))
            .or_else(|| Some(self.syntax_set.find_syntax_plain_text()))
            .cloned();
        buffer.syntax_definition = definition;
""", """        let key = buffer.file_extension().or_else(|| buffer.file_name());
        let definition = key
            .and_then(|ex| self.syntax_set.find_syntax_by_extension(&ex))
            .unwrap_or_else(|| self.syntax_set.find_syntax_plain_text());
        buffer.syntax_definition = Some(definition.clone());
"""))
ref("ws-currentpath-match", WS, ("""        self.current_buffer.as_ref().and_then(|buf| {
            buf.path
                .as_ref()
                .and_then(|path| path.strip_prefix(&self.path).ok().or_else(|| Some(path)))
        })
""", """        let path = self.current_buffer.as_ref()?.path.as_ref()?;

        match path.strip_prefix(&self.path) {
            Ok(relative) => Some(relative),
            Err(_) => Some(path),
        }
"""))

W = "/tmp/refrepo"
ENV = "export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=line-tables-only;"
def sh(cmd, cwd, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, errors="replace")
    return p.returncode, p.stdout + p.stderr

def apply(edits, undo=False):
    for f, old, new in edits:
        src = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:src/{f}"], capture_output=True, text=True, check=True).stdout
        if undo:
            open(f"{W}/src/{f}", "w").write(src)
    if undo:
        return
    texts = {}
    for f, old, new in edits:
        t = texts.get(f) or open(f"{W}/src/{f}").read()
        body, sep, tests = t.partition("#[cfg(test)]")
        if body.count(old) < 1:
            raise SystemExit(f"{f}: {body.count(old)} times: {old[:80]!r}")
        texts[f] = body.replace(old, new, 1) + sep + tests
    for f, t in texts.items():
        open(f"{W}/src/{f}", "w").write(t)

# More of them, most written one line of code at a time: [id, [[file, old, new], ...]].
R += [(i, [tuple(x) for x in e]) for i, e in json.load(open(os.path.join(HERE, "tools/refactorings_more.json")))]

if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -- .", W)
    os.environ["VX_REPO"] = W
    sys.path.insert(0, HERE)
    import importlib
    check = importlib.import_module("check")
    check.REPO = W
    base = json.load(open(os.path.join(HERE, "contracts/baseline.json")))
    work = "/tmp/refwork"
    for id, edits in R:
        if ids and id not in ids:
            continue
        apply(edits)
        try:
            if "--tests" in sys.argv:
                c, o = sh(ENV + "cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
                ok = o.count("... ok")
                if ok < 155 or "error" in o and "could not compile" in o:
                    print(id, "TESTS:", ok, "ok", [l for l in o.split("\n") if l.endswith("FAILED") or l.startswith("error")][:5], flush=True)
            if "--proof" in sys.argv or "--tests" not in sys.argv:
                shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
                p = check.Proof(work, False, 1)
                p.run()
                if p.fatal:
                    print(id, "FATAL", p.fatal[:300], flush=True)
                    continue
                alarms, soft = [], []
                for d in p.errors:
                    (alarms if check.decisive(d, p, base) else soft).append(f"{d['key']}: {d['message'].splitlines()[0][:70]}")
                v = "ALARM" if alarms else "undecided" if soft or p.opaque else "proved"
                print(f"{id}: {v} {sorted(set(alarms))} soft={sorted(set(soft))[:3]} noloops={sorted(p.noloops)} opaque={sorted(p.opaque)} {[n[:160] for n in p.notes][:2]} hints={p.dropped_hints}", flush=True)
        finally:
            apply(edits, undo=True)
    shutil.rmtree(W, ignore_errors=True)
