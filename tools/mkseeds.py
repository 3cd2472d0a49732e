#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions below (patches are made against /repo's HEAD)."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
def seed(id, prop, file, old, new, demo, needs, breaks, more=()):
    S.append(dict(id=id, prop=prop, edits=[(file, old, new), *more], demo=demo, needs=needs, breaks=breaks))
P = "use scribe::buffer::{Position, Range, LineRange, Distance, GapBuffer, Token};\nuse scribe::{Buffer, Workspace};\n#[allow(dead_code)] fn p(line: usize, offset: usize) -> Position { Position { line, offset } }\n"

seed("C01-full-gap", "C01", "buffer/gap_buffer.rs",
"""            let offset = self.data.capacity();
            self.move_gap(offset);
""", """            if self.gap_length > 0 {
                let offset = self.data.capacity();
                self.move_gap(offset);
            }
""", """
    let mut b = Buffer::new();
    b.insert("tail");
    // fill the gap exactly, in front of the tail, one character at a time, through several reallocations
    let mut expected = String::from("tail");
    for i in 0..200 { b.cursor.move_to(p(0, i)); b.insert("x"); expected.insert(i, 'x'); assert_eq!(b.data(), expected); }
""", "an insertion that finds the gap filled exactly, with the gap in the middle of the content", "the text after the gap is lost when the buffer grows: an insertion removes text")

seed("C02-last-line-tail", "C02", "buffer/gap_buffer.rs",
"self.gap_length = self.data.len() - self.gap_start;", "self.gap_length = self.data.len() - self.gap_start - usize::from(self.data.last() == Some(&b'\\n'));",
"""
    let mut b = Buffer::new();
    b.insert("one\\ntwo\\n");
    b.delete_range(Range::new(p(0, 1), p(7, 0)));
    assert_eq!(b.data(), "o");
    let mut b = Buffer::new();
    b.insert("one\\ntwo\\n");
    b.cursor.move_to(p(0, 0));
    b.insert("x"); // the gap is not at the end
    b.delete_range(Range::new(p(0, 0), p(9, 9)));
    assert_eq!(b.data(), "");
""", "a deletion clamped to the end of a content that ends with a line feed, with the gap elsewhere before", "a trailing line feed survives a deletion up to the end")

seed("C03-at-gap", "C03", "buffer/gap_buffer.rs",
"let data = if start_offset < self.gap_start && self.gap_start < end_offset {", "let data = if start_offset < self.gap_start && self.gap_start + self.gap_length < end_offset {",
"""
    let mut b = Buffer::new();
    b.insert("abcdef");
    b.cursor.move_to(p(0, 3));
    b.insert("XYZ"); // the gap is now at 6
    assert_eq!(b.read(&Range::new(p(0, 1), p(0, 6))).as_deref(), Some("bcXYZ"));
    assert_eq!(b.read(&Range::new(p(0, 0), p(0, 9))).as_deref(), Some("abcXYZdef"));
""", "a read that ends exactly where the gap is", "the bytes of the gap are returned as text")

seed("C03-lossy-second", "C03", "buffer/gap_buffer.rs",
"data.push_str(String::from_utf8_lossy(second_half).borrow());", "data.push_str(String::from_utf8_lossy(second_half).trim_start_matches('\\u{feff}').borrow());",
"""
    let mut b = Buffer::new();
    b.insert("ab\\u{feff}cd");
    b.cursor.move_to(p(0, 2));
    b.insert("x");
    let d = b.data();
    assert_eq!(b.read(&Range::new(p(0, 0), p(0, 6))), Some(d));
""", "a read across the gap with a zero width no-break space right after the gap", "a character goes missing from a read")

seed("C04-line-count", "C04", "buffer/mod.rs",
"self.data().chars().filter(|&c| c == '\\n').count() + 1", "self.data().split('\\n').filter(|l| *l != \"\\r\").count()",
"""
    let mut b = Buffer::new();
    b.insert("a\\r\\n\\r\\nb");
    assert_eq!(b.line_count(), 3);
""", "an empty line ended by CR LF", "such lines are not counted")

seed("C05-crlf-slice", "C05", "buffer/gap_buffer.rs",
"""            // Update the tracked gap size and tell the vector that
            // we're using all of the new space immediately.
            let capacity = self.data.capacity();
""", """            // Update the tracked gap size and tell the vector that
            // we're using all of the new space immediately.
            let capacity = std::cmp::min(self.data.capacity(), self.gap_start + 4096);
""", """
    let mut b = Buffer::new();
    let big = "y".repeat(9000);
    b.insert("head");
    b.insert(big.as_str());
    assert_eq!(b.data().len(), 9004);
""", "one insertion of more than 4096 bytes", "the gap is too small for what is written into it: a panic")

seed("C06-history-limit", "C06", "buffer/operation/history.rs",
"""        self.previous.push(operation);
        self.next.clear();
""", """        self.previous.push(operation);
        self.next.clear();

        // Bound the memory that the history takes.
        if self.previous.len() > 1024 {
            self.previous.remove(0);
        }
""", """
    let mut b = Buffer::new();
    for _ in 0..1100 { b.insert("x"); }
    for _ in 0..1100 { b.undo(); }
    assert_eq!(b.data(), "");
""", "more than 1024 changes", "the earliest texts cannot be reached by undo")

seed("C06-empty-merge", "C06", "buffer/operation/replace.rs",
"            None => self.history.add(Box::new(op)),", "            None if self.data().is_empty() => (),\n            None => self.history.add(Box::new(op)),",
"""
    let mut b = Buffer::new();
    b.insert("some text");
    b.replace("");
    b.undo();
    assert_eq!(b.data(), "some text");
""", "a replacement by the empty text", "the replacement cannot be taken back; the operation before it is reversed instead, on a text that it does not fit")

seed("C07-stale-redo", "C07", "buffer/operation/history.rs",
"        self.next.clear();", "        self.next.pop();",
"""
    let mut b = Buffer::new();
    b.insert("a"); b.cursor.move_right(); b.insert("b"); b.cursor.move_right(); b.insert("c");
    b.undo(); b.undo();
    b.cursor.move_to(p(0, 0));
    b.insert("XYZ");
    let t = b.data();
    b.redo();
    assert_eq!(b.data(), t);
""", "two undos, then a change, then a redo", "redo brings back an operation of the abandoned line of texts")

seed("C07-noop-keeps", "C07", "buffer/operation/delete.rs",
"            None => self.history.add(Box::new(op)),", "            None if op.content.is_none() => (),\n            None => self.history.add(Box::new(op)),",
"""
    let mut b = Buffer::new();
    b.insert("ab");
    b.delete_range(Range::new(p(0, 1), p(0, 2)));
    b.undo();
    assert_eq!(b.data(), "ab");
    let calls = std::rc::Rc::new(std::cell::Cell::new(0));
    let c = calls.clone();
    b.change_callback = Some(Box::new(move |_| c.set(c.get() + 1)));
    b.delete_range(Range::new(p(5, 1), p(5, 2))); // a deletion nowhere: a change like any other
    b.redo();
    assert_eq!(b.data(), "ab");
""", "an undo, then a deletion at a place that does not exist, then a redo", "the deletion does not end what can be redone")

seed("C08-nested-start", "C08", "buffer/operation/group.rs",
"            Some(_) => (),", "            Some(ref group) if group.is_empty() => (),\n            Some(_) => {\n                self.end_operation_group();\n                self.start_operation_group();\n            }",
"""
    let mut b = Buffer::new();
    b.start_operation_group();
    b.insert("one");
    b.start_operation_group();
    b.insert("two");
    b.end_operation_group();
    b.undo();
    assert_eq!(b.data(), "");
""", "starting a group inside an open group that has changes", "one group becomes two steps of the history")

seed("C09-failed-save", "C09", "buffer/mod.rs",
"        file.write_all(self.data().to_string().as_bytes())?;", "        if let Err(e) = file.write_all(self.data().to_string().as_bytes()) {\n            self.history.mark();\n            return Err(e);\n        }",
"""
    // a device that refuses what is written to it
    let mut b = Buffer::new();
    b.insert("text");
    b.path = Some("/dev/full".into());
    if std::path::Path::new("/dev/full").exists() { assert!(b.save().is_err()); }
    assert!(b.modified());
""", "a save whose write fails (file created, disk full)", "the buffer is reported unmodified although nothing was saved")

seed("C10-fast-path", "C10", "buffer/cursor.rs",
"        if self.data.borrow().in_bounds(&position) {", "        let known = position.line == self.position.line && position.offset < self.position.offset;\n        if known || self.data.borrow().in_bounds(&position) {",
"""
    let mut b = Buffer::new();
    b.insert("a long line\\nx");
    b.cursor.move_to(p(0, 11));
    b.delete_range(Range::new(p(0, 2), p(0, 11)));
    assert!(!b.cursor.move_to(p(0, 9)));
    assert_eq!(*b.cursor, p(0, 11));
""", "a cursor left beyond the end of its line by a deletion, then a move to the left of it", "a move to a position that does not exist is accepted")

seed("C11-empty-line", "C11", "buffer/cursor.rs",
"""                offset: target_offset,
            });

            // Moving the position successfully updates the sticky offset, but we
            // haven't actually moved to where we really wanted to go (offset-wise).
            // Restore the original desired offset; it might be available on the next try.
            self.sticky_offset = new_position.offset;
        }
    }

    /// Decrements the cursor offset.""", """                offset: target_offset,
            });

            // Moving the position successfully updates the sticky offset, but we
            // haven't actually moved to where we really wanted to go (offset-wise).
            // Restore the original desired offset; it might be available on the next try.
            if target_offset > 0 {
                self.sticky_offset = new_position.offset;
            }
        }
    }

    /// Decrements the cursor offset.""",
"""
    let mut b = Buffer::new();
    b.insert("abcdef\\n\\nghijkl");
    b.cursor.move_to(p(0, 4));
    b.cursor.move_down(); b.cursor.move_down();
    assert_eq!(*b.cursor, p(2, 4));
""", "moving down over an empty line", "the desired column is forgotten")

seed("C12-trailing", "C12", "buffer/operation/replace.rs",
"        if content.as_ref() == old_content {", "        if content.as_ref().trim_end() == old_content.trim_end() {",
"""
    let mut b = Buffer::new();
    b.insert("text");
    b.replace("text\\n");
    assert_eq!(b.data(), "text\\n");
""", "a replacement that differs only in white space at the end", "the new text is not taken")

seed("C13-early", "C13", "buffer/operation/insert.rs",
"""        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);

        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }
""", """        // Run the change callback, if present.
        if let Some(ref callback) = buffer.change_callback {
            callback(self.position)
        }

        buffer
            .data
            .borrow_mut()
            .insert(&self.content, &self.position);
""", """
    let mut b = Buffer::new();
    let data = b.cursor.data.clone();
    let seen = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let s = seen.clone();
    b.change_callback = Some(Box::new(move |_| s.borrow_mut().push(data.borrow().to_string())));
    b.insert("text");
    assert_eq!(*seen.borrow(), vec!["text".to_string()]);
""", "a callback that looks at the buffer's content", "the callback is called before the new text is in place")

seed("C14-no-truncate", "C14", "buffer/mod.rs",
"            File::create(path)?", "            fs::OpenOptions::new().write(true).create(true).truncate(!path.exists()).open(path)?",
"""
    let f = dir.join("a.txt");
    std::fs::write(&f, "a rather long text").unwrap();
    let mut b = Buffer::from_file(&f).unwrap();
    b.replace("short");
    b.save().unwrap();
    assert_eq!(std::fs::read_to_string(&f).unwrap(), "short");
""", "saving a text shorter than what the file holds", "the rest of the old content stays in the file")

seed("C14-lossy-reload", "C14", "buffer/mod.rs",
"""        let content = fs::read_to_string(path)?;

        self.replace(content);""", """        let content = String::from_utf8_lossy(&fs::read(path)?).into_owned();

        self.replace(content);""",
"""
    let f = dir.join("a.txt");
    std::fs::write(&f, "fine").unwrap();
    let mut b = Buffer::from_file(&f).unwrap();
    std::fs::write(&f, b"not \\xff fine").unwrap();
    assert!(b.reload().is_err());
    assert_eq!(b.data(), "fine");
""", "a reload of a file that is not valid UTF-8 any more", "the buffer takes a text that is not the file's, and reports success")

seed("C15-dedup", "C15", "buffer/mod.rs",
"        results\n    }", "        results.dedup_by(|b, a| a.line == b.line && b.offset < a.offset + needle.chars().count());\n        results\n    }",
"""
    let mut b = Buffer::new();
    b.insert("aaaa");
    assert_eq!(b.search("aa"), vec![p(0, 0), p(0, 1), p(0, 2)]);
""", "overlapping occurrences", "they are left out")

seed("C16-nel", "C16", "util/line_iterator.rs",
"            if c == '\\n' {", "            if c == '\\n' || c as u8 == b'\\n' {",
"""
    use scribe::util::LineIterator;
    let t = "a\\u{10a}b\\n";
    let v: Vec<_> = LineIterator::new(t).collect();
    assert_eq!(v, vec![(0, "a\\u{10a}b\\n"), (1, "")]);
""", "a character whose code point is 10 modulo 256", "lines are split at it")

seed("C17-cr", "C17", "buffer/token/token_iterator.rs",
"""            let end_of_line = if line.ends_with('\\n') {
                line.len() - 1""", """            let end_of_line = if line.ends_with("\\r\\n") {
                line.len() - 2
            } else if line.ends_with('\\n') {
                line.len() - 1""",
"""
    let mut ws = Workspace::new(&dir, None).unwrap();
    let mut b = Buffer::new();
    b.insert("one\\r\\ntwo");
    ws.add_buffer(b);
    let set = ws.current_buffer_tokens().unwrap();
    let t: String = set.iter().unwrap().map(|t| match t { Token::Newline => "\\n".to_string(), Token::Lexeme(l) => l.value.to_string() }).collect();
    assert_eq!(t, "one\\r\\ntwo");
""", "a line ended by CR LF", "the tokens do not reproduce the text")

seed("C18-line-range", "C18", "buffer/line_range.rs",
"                line: self.end + 1,", "                line: if self.end > self.start { self.end + 1 } else { self.end },",
"""
    let r = LineRange::new(4, 4).to_inclusive_range();
    assert_eq!((r.start(), r.end()), (p(4, 0), p(5, 0)));
""", "a line range of one line", "its inclusive range is empty")

seed("C19-close", "C19", "workspace.rs",
"                self.select_buffer(index.saturating_sub(1));", "                self.select_buffer(if index == self.buffers.len() { 0 } else { index.saturating_sub(1) });",
"""
    let mut ws = Workspace::new(&dir, None).unwrap();
    for t in ["a", "b", "c", "d"] { let mut b = Buffer::new(); b.insert(t); ws.add_buffer(b); }
    ws.close_current_buffer();
    assert_eq!(ws.current_buffer.as_ref().unwrap().data(), "c");
    ws.close_current_buffer();
    assert_eq!(ws.current_buffer.as_ref().unwrap().data(), "b");
""", "closing the last of three or more buffers", "the first buffer becomes current instead of the one before")

seed("C19-checkin", "C19", "workspace.rs",
"""        // Check-in current buffer, if it exists.
        if let Some(current_buffer) = self.current_buffer.as_mut() {
""", """        // Check-in current buffer, if it exists.
        if self.current_buffer_index == Some(index) && self.buffers.len() > 2 {
            return true;
        }
        if let Some(current_buffer) = self.current_buffer.as_mut() {
""", """
    // three buffers, the first one current: closing it selects what is then the first
    let mut ws = Workspace::new(&dir, None).unwrap();
    for t in ["a", "b", "c", "d"] { let mut b = Buffer::new(); b.insert(t); ws.add_buffer(b); }
    ws.next_buffer();
    assert_eq!(ws.current_buffer.as_ref().unwrap().data(), "a");
    ws.close_current_buffer();
    assert_eq!(ws.current_buffer.as_ref().map(|b| b.data()), Some("b".to_string()));
""", "closing the first of four or more buffers", "no buffer is current although some are open")

seed("C20-absolute", "C20", "workspace.rs",
"        if let Ok(ref canonical_path) = path.canonicalize() {", "        let full = if path.is_absolute() { Ok(path.to_path_buf()) } else { path.canonicalize() };\n        if let Ok(ref canonical_path) = full {",
"""
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    std::fs::write(dir.join("a.txt"), "a").unwrap();
    let mut ws = Workspace::new(&dir, None).unwrap();
    ws.open_buffer(&dir.join("a.txt")).unwrap();
    ws.open_buffer(&dir.join("sub").join("..").join("a.txt")).unwrap();
    assert_eq!(ws.buffer_paths().len(), 1);
""", "an absolute path that is not in canonical form", "the file is opened twice")

seed("C20-outside", "C20", "workspace.rs",
"                        .and_then(|path| path.strip_prefix(&self.path).ok().or(Some(path)))", "                        .and_then(|path| path.strip_prefix(&self.path).ok().or_else(|| path.file_name().map(Path::new)))",
"""
    std::fs::create_dir_all(dir.join("ws")).unwrap();
    std::fs::write(dir.join("out.txt"), "a").unwrap();
    std::fs::write(dir.join("ws/in.txt"), "b").unwrap();
    let mut ws = Workspace::new(&dir.join("ws"), None).unwrap();
    ws.open_buffer(&dir.join("out.txt")).unwrap();
    ws.open_buffer(&dir.join("ws/in.txt")).unwrap();
    let full = dir.join("out.txt").canonicalize().unwrap();
    assert_eq!(ws.buffer_paths(), vec![Some(full.as_path()), Some(std::path::Path::new("in.txt"))]);
""", "a buffer outside the workspace that is not the current one", "only its file name is reported")

seed("C21-id-reuse", "C21", "workspace.rs",
"        self.next_buffer_id += 1;", "        self.next_buffer_id = self.buffers.len() + 1;",
"""
    let mut ws = Workspace::new(&dir, None).unwrap();
    ws.add_buffer(Buffer::new());
    ws.add_buffer(Buffer::new());
    let first = ws.current_buffer.as_ref().unwrap().id;
    ws.previous_buffer();
    ws.close_current_buffer();
    ws.add_buffer(Buffer::new());
    ws.add_buffer(Buffer::new());
    let mut ids = vec![];
    for _ in 0..3 { ws.next_buffer(); ids.push(ws.current_buffer.as_ref().unwrap().id); }
    assert!(ids.contains(&first));
    ids.sort(); ids.dedup();
    assert_eq!(ids.len(), 3);
""", "closing buffers and adding new ones", "two buffers have the same id")

seed("C21-file-name", "C21", "workspace.rs",
"            .or_else(|| buffer.file_name())", "            .or_else(|| buffer.file_name().filter(|name| !name.starts_with('.')))",
"""
    let mut ws = Workspace::new(&dir, None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(dir.join(".bashrc"));
    let wanted = ws.syntax_set.find_syntax_by_extension(".bashrc").unwrap().name.clone();
    ws.add_buffer(b);
    assert_ne!(wanted, "Plain Text");
    assert_eq!(ws.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, wanted);
""", "a file whose whole name is an extension known to the syntax set, beginning with a dot", "it gets plain text")

seed("C17-long-line", "C17", "buffer/token/token_iterator.rs",
"let mut line_events = self.parser.parse_line(line, self.syntaxes)?;", "let mut line_events = if line.len() > 2048 {\n                Vec::new()\n            } else {\n                self.parser.parse_line(line, self.syntaxes)?\n            };",
"""
    let text = format!("{}/* open\\nin the comment", "x ".repeat(1100));
    let mut scopes = vec![];
    let mut w = Workspace::new(&dir, None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(dir.join("a.rs"));
    b.insert(text.clone());
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let mut all = String::new();
    for t in set.iter().unwrap() { match t { Token::Lexeme(l) => { if l.position.line == 1 { scopes.push(l.scope.to_string()); } all.push_str(l.value); } Token::Newline => all.push('\\n') } }
    assert_eq!(all, text);
    assert!(scopes[0].contains("comment"), "{scopes:?}");
""", "a line of more than two kilobytes", "its tokens, and those after it, have the wrong scopes")

seed("C14-bom", "C14", "buffer/mod.rs",
"""        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });

        // Create a new buffer using the loaded""", """        let content = content.trim_start_matches('\\u{feff}').to_string();
        let data = Rc::new(RefCell::new(GapBuffer::new(content)));
        let cursor = Cursor::new(data.clone(), Position { line: 0, offset: 0 });

        // Create a new buffer using the loaded""",
"""
    let f = dir.join("bom.txt");
    std::fs::write(&f, "\\u{feff}marked\\n").unwrap();
    let mut b = Buffer::from_file(&f).unwrap();
    assert_eq!(b.data(), "\\u{feff}marked\\n");
    b.save().unwrap();
    assert_eq!(std::fs::read_to_string(&f).unwrap(), "\\u{feff}marked\\n");
""", "a file that starts with a byte order mark", "the buffer does not hold the file's text")

seed("C11-wide", "C11", "buffer/cursor.rs",
"            self.sticky_offset = position.offset;\n\n            return true;", "            self.sticky_offset = position.offset.min(u16::MAX as usize);\n\n            return true;",
"""
    let mut b = Buffer::new();
    let long = "a".repeat(65600);
    b.insert(format!("{long}\\n{long}"));
    b.cursor.move_to(p(0, 65580));
    b.cursor.move_down();
    assert_eq!(*b.cursor, p(1, 65580));
""", "a desired column beyond 65535", "moving up and down ends up in another column")

seed("C18-narrow", "C18", "buffer/position.rs",
"            line: self.line + distance.lines,\n", "            line: (self.line as u32 + distance.lines as u32) as usize,\n",
"""
    let q = p(3, 4) + Distance { lines: 1usize << 33, offset: 2 };
    assert_eq!(q, p(3 + (1usize << 33), 2));
""", "a distance of more lines than 32 bits hold", "adding it gives another line")

seed("C16-long", "C16", "util/line_iterator.rs",
"for c in self.data[self.line_start..].chars() {", "for c in self.data[self.line_start..].chars().take(16384) {",
"""
    let text = format!("{}\\nnext", "b".repeat(20000));
    let lines: Vec<(usize, &str)> = scribe::util::LineIterator::new(&text).collect();
    assert_eq!(lines.len(), 2);
    assert_eq!(lines[0].1.len(), 20001);
""", "a line of more than 16384 characters", "it is split")

seed("C20-case", "C20", "workspace.rs",
".position(|buffer| buffer.path.as_ref() == Some(canonical_path));", ".position(|buffer| {\n                    buffer.path.as_ref().map(|p| p.to_string_lossy().to_lowercase())\n                        == Some(canonical_path.to_string_lossy().to_lowercase())\n                });",
"""
    std::fs::write(dir.join("Notes.md"), "upper").unwrap();
    std::fs::write(dir.join("notes.md"), "lower").unwrap();
    std::fs::write(dir.join("other"), "other").unwrap();
    let mut w = Workspace::new(&dir, None).unwrap();
    w.open_buffer(&dir.join("Notes.md")).unwrap();
    w.open_buffer(&dir.join("other")).unwrap();
    w.open_buffer(&dir.join("notes.md")).unwrap();
    assert_eq!(w.current_buffer.as_ref().unwrap().data(), "lower");
    assert_eq!(w.buffer_paths().len(), 3);
""", "two files whose paths differ by case only, the first one open but not current", "the second is not opened; the first is selected instead")

seed("C12-prefix-equal", "C12", "buffer/operation/replace.rs",
"if content.as_ref() == old_content {", "if content.as_ref().len() == old_content.len()\n            && content.as_ref().bytes().zip(old_content.bytes()).take(512).all(|(a, b)| a == b)\n        {",
"""
    let mut b = Buffer::new();
    let base = "c".repeat(700);
    b.insert(base.clone());
    let new = format!("{}d", &base[..699]);
    b.replace(new.clone());
    assert_eq!(b.data(), new);
""", "a replacement of the same length that differs only after the first 512 bytes", "the new text is not taken")

seed("C07-save-clears", "C07", "buffer/operation/history.rs",
"        self.marked_position = Some(self.previous.len())", "        self.marked_position = Some(self.previous.len());\n        if self.next.len() > 2 {\n            self.next.truncate(2);\n        }",
"""
    let f = dir.join("f.txt");
    std::fs::write(&f, "").unwrap();
    let mut b = Buffer::from_file(&f).unwrap();
    for s in ["one", "two", "three", "four"] { b.insert(s); }
    let all = b.data();
    for _ in 0..4 { b.undo(); }
    b.save().unwrap();
    for _ in 0..4 { b.redo(); }
    assert_eq!(b.data(), all);
""", "a save after undoing more than two edits", "the text last undone to cannot all be redone")

seed("C13-group-once", "C13", "buffer/operation/delete.rs",
"""            buffer.data.borrow_mut().insert_at(content, offset);

            // Run the change callback, if present.
            if let Some(ref callback) = buffer.change_callback {""", """            buffer.data.borrow_mut().insert_at(content, offset);

            // Run the change callback, if present.
            if content.is_empty() {
                return;
            }
            if let Some(ref callback) = buffer.change_callback {""",
"""
    let seen = std::rc::Rc::new(std::cell::RefCell::new(0));
    let s = seen.clone();
    let mut b = Buffer::new();
    b.insert("text");
    b.change_callback = Some(Box::new(move |_| *s.borrow_mut() += 1));
    b.delete_range(Range::new(p(0, 2), p(0, 2)));
    let after = *seen.borrow();
    b.undo();
    assert_eq!((after, *seen.borrow()), (1, 2));
""", "undoing a deletion of nothing at an existing position", "the callback is not told of the undo, though it was told of the deletion")

seed("C15-overlap", "C15", "buffer/mod.rs",
"                    results.push(Position { line, offset });", "                    if needle.len() < 8 || results.last() != Some(&Position { line, offset: offset.saturating_sub(1) }) {\n                        results.push(Position { line, offset });\n                    }",
"""
    let mut b = Buffer::new();
    b.insert("zzzzzzzzzzz\\n");
    assert_eq!(b.search("zzzzzzzzz").len(), 3);
""", "overlapping occurrences of a search text of eight bytes or more", "every other one is left out")

seed("C10-line-end", "C10", "buffer/gap_buffer.rs",
"        if line == position.line && line_offset == position.offset {\n            return Some(content.len());", "        if line == position.line && (line_offset == position.offset || line_offset + 1 == position.offset && content.ends_with('\\u{200d}')) {\n            return Some(content.len());",
"""
    let mut b = Buffer::new();
    b.insert("ab\\u{200d}");
    assert!(!b.cursor.move_to(p(0, 3)));
    b.cursor.move_to(p(0, 2));
    b.cursor.move_right();
    assert_eq!(*b.cursor, p(0, 2));
""", "a text that ends with a zero width joiner", "the cursor can be moved to a position that does not exist")

seed("C21-token", "C21", "workspace.rs",
"self.syntax_set.find_syntax_by_extension(&ex)", "self.syntax_set.find_syntax_by_token(&ex)",
"""
    for name in ["notes.Rust", "PYTHON", "a.Java", "x.RS"] {
        let mut ws = Workspace::new(&dir, None).unwrap();
        let mut b = Buffer::new();
        b.path = Some(dir.join(name));
        ws.add_buffer(b);
        let ex = name.rsplit('.').next().unwrap();
        let wanted = ws.syntax_set.find_syntax_by_extension(ex).map(|s| s.name.clone()).unwrap_or("Plain Text".to_string());
        assert_eq!(ws.current_buffer.as_ref().unwrap().syntax_definition.as_ref().unwrap().name, wanted, "{}", name);
    }
""", "an extension or file name that is not one of the syntax set's, but reads like the name of a syntax", "it gets that syntax rather than plain text")

seed("C14-unmodified-save", "C14", "buffer/mod.rs",
"        // Try to open and write to the file, returning any errors encountered.\n", "        // There's nothing to write if we're already in sync with the file.\n        if self.path.as_ref().map_or(false, |path| path.exists()) && !self.modified() {\n            return Ok(());\n        }\n\n        // Try to open and write to the file, returning any errors encountered.\n",
"""
    let f = dir.join("a.txt");
    std::fs::write(&f, "ours").unwrap();
    let mut b = Buffer::from_file(&f).unwrap();
    std::fs::write(&f, "theirs").unwrap();
    b.save().unwrap();
    assert_eq!(std::fs::read_to_string(&f).unwrap(), "ours");
""", "saving an unmodified buffer whose file was written to by someone else in the meantime", "save reports success, and the file does not hold the buffer's text")

seed("C19-close-last", "C19", "workspace.rs",
"self.select_buffer(index.saturating_sub(1));", "self.select_buffer(index.saturating_sub(1 + usize::from(index > 2 && index == self.buffers.len())));",
"""
    let mut ws = Workspace::new(&dir, None).unwrap();
    for t in ["a", "b", "c", "d"] { let mut b = Buffer::new(); b.insert(t); ws.add_buffer(b); }
    ws.close_current_buffer();
    assert_eq!(ws.current_buffer_index(), Some(2));
    assert_eq!(ws.current_buffer.as_ref().unwrap().data(), "c");
""", "closing the last of four or more buffers", "a buffer other than the one before it is selected")

seed("C17-quiet-long", "C17", "buffer/token/token_iterator.rs",
"            // Keep a reference to the line so that we can create slices of it.\n", "            // Highlighting very long lines is too slow.\n            if line.len() > 1 << 13 {\n                self.line_events.truncate(1 << 10);\n            }\n\n            // Keep a reference to the line so that we can create slices of it.\n",
"""
    let text = format!("{}\\nfn next() {{}}\\n", "a+(b) ".repeat(1500));
    let mut w = Workspace::new(&dir, None).unwrap();
    let mut b = Buffer::new();
    b.path = Some(dir.join("a.rs"));
    b.insert(text.clone());
    w.add_buffer(b);
    let set = w.current_buffer_tokens().unwrap();
    let mut back = String::new();
    let mut next = 0;
    for t in set.iter().unwrap() {
        match t {
            Token::Newline => back.push('\\n'),
            Token::Lexeme(l) => {
                back.push_str(l.value);
                if next == 0 && l.position.line == 0 { assert_eq!(l.position.offset + l.value.len(), back.len()); assert!(back.len() < 3 || l.value.len() < 100, "{} bytes in one token", l.value.len()); }
                if l.position.line == 1 { next += 1; }
            }
        }
    }
    assert_eq!(back, text);
""", "a line of more than eight thousand bytes with more than a thousand scope changes", "the first part of the line is one token, of no scope of its own")

DEMO = '''#!/bin/bash
# run with the repository as the current directory: exit 0 if it behaves, 1 if not
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/files"
cp "$here/main.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nscribe = { path = "%s" }\\n[workspace]\\n' "$repo" > "$t/Cargo.toml"
cd "$t" || exit 2
CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline -q 2> "$t/log" || { cat "$t/log"; exit 2; }
timeout 60 "$t/target/debug/demo" "$t/files" && exit 0
exit 1
'''
MAIN = '#![allow(unused_imports, unused_variables)]\n%sfn main() {\n    let dir = std::path::PathBuf::from(std::env::args().nth(1).unwrap()).canonicalize().unwrap();\n%s    println!("as it should be");\n}\n'

def make(s, out):
    w = tempfile.mkdtemp(prefix="mkseed")
    try:
        for f, old, new in s["edits"]:
            t = subprocess.run(["git", "-C", "/repo", "show", f"HEAD:src/{f}"], capture_output=True, text=True, check=True).stdout
            body, sep, tests = t.partition("#[cfg(test)]")
            assert body.count(old) == 1, (s["id"], f, body.count(old))
            for side, text in (("a", t), ("b", body.replace(old, new) + sep + tests)):
                p = f"{w}/{side}/src/{f}"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
        d = subprocess.run(["diff", "-ruN", "a", "b"], cwd=w, capture_output=True, text=True).stdout
        d = "\n".join(("diff --git " + " ".join(l.split()[2:]) if l.startswith("diff -ruN") else l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l) for l in d.split("\n"))
    finally:
        shutil.rmtree(w)
    o = os.path.join(out, s["id"])
    os.makedirs(o, exist_ok=True)
    open(f"{o}/patch.diff", "w").write(d)
    open(f"{o}/demo.sh", "w").write(DEMO)
    os.chmod(f"{o}/demo.sh", 0o755)
    open(f"{o}/main.rs", "w").write(MAIN % (P, s["demo"].lstrip("\n")))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{o}/meta.json", "w"), indent=1)

if __name__ == "__main__":
    only = sys.argv[1:]
    for s in S:
        if not only or s["id"] in only:
            make(s, os.path.join(HERE, "seeded"))
            print(s["id"])
