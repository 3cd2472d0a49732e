//@ module cursor
//@ struct Cursor
pub perm: Tracked<CellPerm>,
//@ init Cursor
perm: vx_perm
//@ raw
impl Cursor {
    pub open spec fn buf(&self) -> GapBuffer { self.perm@.value() }
    /// the cursor and the permission belong to the same, well-formed, gap buffer
    pub open spec fn wf(&self) -> bool { self.perm@.id() == self.data.id() && self.buf().wf() }
    pub open spec fn text(&self) -> Seq<u8> { self.buf().text() }
    /// the cursor is at a place that exists
    pub open spec fn in_text(&self) -> bool { offset_of(self.text(), self.position) is Some }
    /// the same handle on the same text
    pub open spec fn same_buf(&self, o: Cursor) -> bool { self.data.id() == o.data.id() && self.perm@.id() == o.perm@.id() && self.buf() == o.buf() }
}
/// what `move_to` does to (position, sticky offset)
pub open spec fn moved(a: Cursor, b: Cursor, p: Position) -> bool {
    if offset_of(a.text(), p) is Some { b.position == p && b.sticky_offset == p.offset }
    else { b.position == a.position && b.sticky_offset == a.sticky_offset }
}
/// where a vertical movement to a line ends: at the sticky column, or at the end of that line when it is shorter
pub open spec fn column(t: Seq<u8>, line: int, sticky: int) -> int { if sticky <= line_len(t, line) { sticky } else { line_len(t, line) } }
pub open spec fn moved_to_line(a: Cursor, b: Cursor, line: int) -> bool {
    &&& b.sticky_offset == a.sticky_offset
    &&& if 0 <= line < line_count(a.text()) { b.position.line == line && b.position.offset == column(a.text(), line, a.sticky_offset as int) }
        else { b.position == a.position }
}
/// everything `move_to` and the loops over lines need to know about the text
pub proof fn lemma_cursor(c: &Cursor, line: int)
    requires c.wf(),
    ensures valid_utf8(c.text()), c.text().len() <= isize::MAX,
        forall|k: int| #[trigger] place(c.text(), line, k) == line_place(c.text(), line, k),
        lines_of(c.text()).len() == if c.text().len() == 0 || c.text().last() == 10u8 { line_count(c.text()) - 1 } else { line_count(c.text()) },
        forall|i: int| 0 <= i < lines_of(c.text()).len() ==> #[trigger] lines_of(c.text())[i] == dlines(c.text())[i],
        c.text().len() == 0 || c.text().last() == 10u8 ==> line_len(c.text(), line_count(c.text()) - 1) == 0,
        line_count(c.text()) >= 1, line_count(c.text()) <= c.text().len() + 1,
        forall|n: int| 0 <= line_len(c.text(), n),
{
    let t = c.text();
    lemma_text_valid(&c.buf());
    lemma_lines_bounds(t);
    lemma_lines_of(t);
    assert forall|k: int| #[trigger] place(t, line, k) == line_place(t, line, k) by { lemma_doc(t, line, k); }
    if t.len() == 0 || t.last() == 10u8 { lemma_doc(t, line_count(t) - 1, 0); lemma_empty_graphemes(dlines(t).last()); }
}

//@ fn Cursor::new
//@ params vx_perm: Tracked<CellPerm>
//@ ret r
//@ spec
    requires vx_perm@.id() == data.id(), vx_perm@.value().wf(),
    ensures r.wf(), r.data == data, r.perm == vx_perm, r.position == position, r.sticky_offset == position.offset,

//@ fn Cursor::deref skip
//@ fn Cursor::deref_mut skip

//@ fn Cursor::move_to
//@ ret r
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        r == offset_of(old(self).text(), position) is Some,
        moved(*old(self), *final(self), position),

//@ fn Cursor::move_up
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        old(self).position.line == 0 ==> final(self).position == old(self).position && final(self).sticky_offset == old(self).sticky_offset,
        old(self).position.line > 0 ==> moved_to_line(*old(self), *final(self), old(self).position.line - 1),
//@ at entry
let ghost t = self.text();
let ghost c0 = *self;
proof { lemma_cursor(self, self.position.line - 1); }
//@ loop 0
    invariant
        self.wf(), self.same_buf(c0), self.position == c0.position, self.sticky_offset == c0.sticky_offset, t == c0.text(),
        vx_it0.wf(), vx_it0.all().len() == lines_of(t).len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).0 == i && vx_it0.all()[i].1.sb() == lines_of(t)[i],
        target_offset == if target_line < vx_it0.pos() { graphemes(lines_of(t)[target_line as int]).len() as int } else { 0 },
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),

//@ fn Cursor::move_down
//@ spec
    requires old(self).wf(), old(self).position.line < usize::MAX,
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        moved_to_line(*old(self), *final(self), old(self).position.line + 1),
//@ at entry
let ghost t = self.text();
let ghost c0 = *self;
proof { lemma_cursor(self, self.position.line + 1); }
//@ loop 0
    invariant
        self.wf(), self.same_buf(c0), self.position == c0.position, self.sticky_offset == c0.sticky_offset, t == c0.text(),
        vx_it0.wf(), vx_it0.all().len() == lines_of(t).len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).0 == i && vx_it0.all()[i].1.sb() == lines_of(t)[i],
        target_offset == if target_line < vx_it0.pos() { graphemes(lines_of(t)[target_line as int]).len() as int } else { 0 },
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),

//@ fn Cursor::move_left
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        old(self).position.offset == 0 ==> final(self).position == old(self).position && final(self).sticky_offset == old(self).sticky_offset,
        old(self).position.offset > 0 ==> moved(*old(self), *final(self), Position { line: old(self).position.line, offset: (old(self).position.offset - 1) as usize }),

//@ fn Cursor::move_right
//@ spec
    requires old(self).wf(), old(self).position.offset < usize::MAX,
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        moved(*old(self), *final(self), Position { line: old(self).position.line, offset: (old(self).position.offset + 1) as usize }),

//@ fn Cursor::move_to_start_of_line
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        moved(*old(self), *final(self), Position { line: old(self).position.line, offset: 0 }),

//@ fn Cursor::move_to_end_of_line
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        old(self).in_text() ==> final(self).position.line == old(self).position.line && final(self).position.offset == line_len(old(self).text(), old(self).position.line as int),
        old(self).in_text() && line_len(old(self).text(), old(self).position.line as int) > 0 ==> final(self).sticky_offset == final(self).position.offset,
        final(self).position == old(self).position || final(self).in_text(),
//@ at entry
proof { lemma_cursor(self, self.position.line as int); }

//@ fn Cursor::move_to_last_line
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        final(self).position.line == line_count(old(self).text()) - 1,
        final(self).position.offset == column(old(self).text(), line_count(old(self).text()) - 1, old(self).sticky_offset as int),
        final(self).sticky_offset == final(self).position.offset,
//@ at entry
let ghost t = self.text();
let ghost gs = graphemes(t);
let ghost c0 = *self;
proof {
    lemma_cursor(self, line_count(t) - 1);
    lemma_doc(t, 0, 0);
    lemma_graphemes_len(t);
    lemma_nl();
}
//@ loop 0
    invariant
        *self == c0, t == self.text(), gs == graphemes(t), valid_utf8(t),
        vx_it0.wf(), vx_it0.all().len() == gs.len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).sb() == gs[i],
        pos_at(gs, vx_it0.pos()) == (line as int, length as int),
        "\n".sb() == NL(), "\r\n".sb() == CRLF(),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop0.start
proof {
    let k = vx_it0.pos() - 1;
    assert(vx_it0.all()[k] == c);
    lemma_pos_bounds(gs, k);
    if gs[k] == NL() { lemma_sb_inj(c@, "\n"@); }
    if gs[k] == CRLF() { lemma_sb_inj(c@, "\r\n"@); }
    assert(is_nl(gs[k]) == (c@ == "\n"@ || c@ == "\r\n"@));
}

//@ fn Cursor::move_to_first_line
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).same_buf(*old(self)),
        final(self).position.line == 0,
        final(self).position.offset == column(old(self).text(), 0, old(self).sticky_offset as int),
        final(self).sticky_offset == final(self).position.offset,
//@ at entry
proof { lemma_cursor(self, 0); }
