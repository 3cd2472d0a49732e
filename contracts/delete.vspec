//@ module delete
//@ fn Delete::new
//@ ret r
//@ spec
    ensures r.v() == OpV::Del(range.start, range.end, None, None),
//@ fn Delete::clone
//@ ret r
//@ spec
    ensures r.v() == self.v(),
//@ fn Delete::clone_operation
//@ ret r
//@ spec
    ensures opv(r) == self.v(),
//@ fn Delete::run
//@ spec
    requires old(buffer).wf_data(), op_ok(old(self).v()),
    ensures run_post(old(self).v(), final(self).v(), *old(buffer), *final(buffer)),
//@ at entry
let ghost t = buffer.text();
proof {
    lemma_text_valid(&buffer.cursor.buf());
    lemma_place_bounds(t, self.range.start.line as int, self.range.start.offset as int);
    if offset_of(t, self.range.start) is Some {
        lemma_del_end(t, self.range.start, self.range.end);
        lemma_del(t, offset_of(t, self.range.start)->0, del_end(t, self.range.end));
    }
}
//@ fn Delete::reverse
//@ spec
    requires old(buffer).wf_data(), rev_ok(old(self).v(), old(buffer).text()),
    ensures rev_post(old(self).v(), *old(buffer), *final(buffer)), final(self).v() == old(self).v(),
//@ raw
/// where deleting at a position ends: after the grapheme there, which may be a line ending
pub open spec fn next_place(t: Seq<u8>, p: Position) -> Position {
    if place(t, p.line as int, p.offset + 1) is Some { Position { line: p.line, offset: (p.offset + 1) as usize } } else { Position { line: (p.line + 1) as usize, offset: 0 } }
}
/// what is left when the grapheme at a position is removed: it may be a line ending, and there is none at the end of the text
pub open spec fn without_grapheme(t: Seq<u8>, p: Position, r: Seq<u8>) -> bool {
    match offset_of(t, p) {
        None => r == t,
        Some(a) => exists|k: int| #[trigger] is_at(graphemes(t), k, p.line as int, p.offset as int)
            && if k < graphemes(t).len() { r == del(t, a, a + graphemes(t)[k].len()) } else { r == t && a == t.len() },
    }
}
/// nothing lies strictly between a grapheme and the next
pub proof fn lemma_between(t: Seq<u8>, k: int, line: int, offset: int)
    requires 0 <= k <= graphemes(t).len(), lex_lt(pos_at(graphemes(t), k), (line, offset)), k < graphemes(t).len() ==> lex_lt((line, offset), pos_at(graphemes(t), k + 1)),
    ensures place(t, line, offset) is None,
{
    let gs = graphemes(t);
    assert forall|j: int| !#[trigger] is_at(gs, j, line, offset) by {
        if 0 <= j < k { lemma_pos_mono(gs, j, k); }
        if k + 1 < j { lemma_pos_mono(gs, k + 1, j); }
    }
}
pub proof fn lemma_delete_one(t: Seq<u8>, p: Position)
    requires valid_utf8(t), p.line + 1 < usize::MAX, p.offset < usize::MAX,
    ensures without_grapheme(t, p, text_delete(t, p, next_place(t, p))),
        text_delete(t, p, Position { line: p.line, offset: (p.offset + 1) as usize }) == text_delete(t, p, next_place(t, p)),
{
    let gs = graphemes(t);
    let e = next_place(t, p);
    if offset_of(t, p) is Some {
        let k = choose|k: int| #[trigger] is_at(gs, k, p.line as int, p.offset as int);
        lemma_place(t, k, p.line as int, p.offset as int);
        lemma_place_bounds(t, p.line as int, p.offset as int);
        let a = offset_of(t, p)->0;
        if k < gs.len() {
            if is_nl(gs[k]) {
                lemma_between(t, k, p.line as int, p.offset + 1);
                assert(is_at(gs, k + 1, p.line + 1, 0));
                lemma_place(t, k + 1, p.line + 1, 0);
            } else {
                assert(is_at(gs, k + 1, p.line as int, p.offset + 1));
                lemma_place(t, k + 1, p.line as int, p.offset + 1);
            }
            assert(offset_of(t, e) == Some(a + gs[k].len()));
        } else {
            lemma_between(t, k, p.line as int, p.offset + 1);
            lemma_between(t, k, p.line + 1, 0);
            lemma_between(t, k, p.line + 2, 0);
            lemma_graphemes_len(t);
            assert(del(t, a, a) =~= t);
        }
    }
}
//@ fn Buffer::delete_range
//@ spec
    requires old(self).inv(), range.wf(), range.end.line < usize::MAX,
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).edited(*old(self)),
        final(self).text() == text_delete(old(self).text(), range.start, range.end),
        final(self).cursor.position == old(self).cursor.position,
        final(self).told(*old(self), seq![(range.start, final(self).text())]),
//@ at entry
let ghost b0 = *self;
//@ at exit
proof { lemma_edit(b0, *self, ran(OpV::Del(range.start, range.end, None, None), b0.text())); }
//@ fn Buffer::delete
//@ spec
    requires old(self).inv(), old(self).cursor.position.line + 1 < usize::MAX, old(self).cursor.position.offset < usize::MAX,
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).edited(*old(self)),
        without_grapheme(old(self).text(), old(self).cursor.position, final(self).text()),
        final(self).cursor.position == old(self).cursor.position,
        final(self).told(*old(self), seq![(old(self).cursor.position, final(self).text())]),
//@ at entry
proof { lemma_text_valid(&self.cursor.buf()); lemma_delete_one(self.text(), self.cursor.position); }
