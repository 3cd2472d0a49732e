//@ module gap_buffer
//@ raw
// ------------------------------------------------------------------ positions over a text
/// (line, offset) after the first k graphemes
pub open spec fn pos_at(gs: Seq<Seq<u8>>, k: int) -> (int, int) decreases k {
    if k <= 0 { (0, 0) } else {
        let p = pos_at(gs, k - 1);
        if is_nl(gs[k - 1]) { (p.0 + 1, 0) } else { (p.0, p.1 + 1) }
    }
}
pub open spec fn is_at(gs: Seq<Seq<u8>>, k: int, line: int, offset: int) -> bool { 0 <= k <= gs.len() && pos_at(gs, k) == (line, offset) }
/// The byte offset a (line, grapheme offset) pair denotes in a text; None when there is no such place.
pub open spec fn place(t: Seq<u8>, line: int, offset: int) -> Option<int> {
    if exists|k: int| #[trigger] is_at(graphemes(t), k, line, offset) {
        Some(byte_at(graphemes(t), choose|k: int| #[trigger] is_at(graphemes(t), k, line, offset)))
    } else { None }
}
pub open spec fn offset_of(t: Seq<u8>, p: Position) -> Option<int> { place(t, p.line as int, p.offset as int) }

pub open spec fn lex_lt(a: (int, int), b: (int, int)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub proof fn lemma_pos_bounds(gs: Seq<Seq<u8>>, k: int)
    requires 0 <= k, ensures 0 <= pos_at(gs, k).0 <= k, 0 <= pos_at(gs, k).1 <= k, decreases k
{ if k > 0 { lemma_pos_bounds(gs, k - 1); } }
pub proof fn lemma_pos_mono(gs: Seq<Seq<u8>>, i: int, j: int)
    requires 0 <= i < j, ensures lex_lt(pos_at(gs, i), pos_at(gs, j)), decreases j - i
{
    if i + 1 < j { lemma_pos_mono(gs, i, j - 1); }
    lemma_pos_bounds(gs, i);
    lemma_pos_bounds(gs, j - 1);
}
pub proof fn lemma_byte_mono(gs: Seq<Seq<u8>>, i: int, j: int)
    requires 0 <= i <= j, ensures 0 <= byte_at(gs, i) <= byte_at(gs, j), decreases j
{ if i < j { lemma_byte_mono(gs, i, j - 1); } else if i > 0 { lemma_byte_mono(gs, i - 1, i - 1); } }
/// a place is where the k-th grapheme starts, for the only possible k
pub proof fn lemma_place(t: Seq<u8>, k: int, line: int, offset: int)
    requires is_at(graphemes(t), k, line, offset),
    ensures place(t, line, offset) == Some(byte_at(graphemes(t), k)),
{
    let c = choose|c: int| #[trigger] is_at(graphemes(t), c, line, offset);
    if c < k { lemma_pos_mono(graphemes(t), c, k); }
    if k < c { lemma_pos_mono(graphemes(t), k, c); }
}
/// places lie on character boundaries within the text
pub proof fn lemma_place_bounds(t: Seq<u8>, line: int, offset: int)
    requires valid_utf8(t),
    ensures place(t, line, offset) is Some ==> 0 <= place(t, line, offset)->0 <= t.len() && boundary(t, place(t, line, offset)->0),
{
    axiom_graphemes_partition(t);
    if place(t, line, offset) is Some {
        let c = choose|c: int| #[trigger] is_at(graphemes(t), c, line, offset);
        lemma_byte_mono(graphemes(t), c, graphemes(t).len() as int);
    }
}
pub proof fn lemma_graphemes_len(t: Seq<u8>)
    requires valid_utf8(t), ensures byte_at(graphemes(t), graphemes(t).len() as int) == t.len(),
{ axiom_graphemes_partition(t); }
/// the order of places is the order of positions
pub proof fn lemma_place_order(t: Seq<u8>, p: Position, q: Position)
    requires offset_of(t, p) is Some, offset_of(t, q) is Some, pos_le(p, q),
    ensures offset_of(t, p)->0 <= offset_of(t, q)->0,
{
    let a = choose|c: int| #[trigger] is_at(graphemes(t), c, p.line as int, p.offset as int);
    let b = choose|c: int| #[trigger] is_at(graphemes(t), c, q.line as int, q.offset as int);
    if b < a { lemma_pos_mono(graphemes(t), b, a); }
    lemma_byte_mono(graphemes(t), a, b);
}
pub open spec fn pos_le(p: Position, q: Position) -> bool { p.line < q.line || (p.line == q.line && p.offset <= q.offset) }

// ------------------------------------------------------------------ what the operations mean
pub open spec fn ins(t: Seq<u8>, o: int, d: Seq<u8>) -> Seq<u8> { t.subrange(0, o) + d + t.subrange(o, t.len() as int) }
pub open spec fn del(t: Seq<u8>, a: int, b: int) -> Seq<u8> { t.subrange(0, a) + t.subrange(b, t.len() as int) }
/// where a deletion that starts in bounds ends: at the end of the range, or, when that is out of bounds, at
/// the start of the line after it, or, when there is no such line, at the end of the text
pub open spec fn del_end(t: Seq<u8>, e: Position) -> int {
    match offset_of(t, e) {
        Some(b) => b,
        None => match place(t, e.line + 1, 0) { Some(b) => b, None => t.len() as int },
    }
}
pub open spec fn text_insert(t: Seq<u8>, d: Seq<u8>, p: Position) -> Seq<u8> {
    match offset_of(t, p) { Some(o) => ins(t, o, d), None => t }
}
pub open spec fn text_delete(t: Seq<u8>, s: Position, e: Position) -> Seq<u8> {
    match offset_of(t, s) { Some(a) => del(t, a, del_end(t, e)), None => t }
}
pub open spec fn text_read(t: Seq<u8>, s: Position, e: Position) -> Option<Seq<u8>> {
    match (offset_of(t, s), offset_of(t, e)) { (Some(a), Some(b)) => Some(t.subrange(a, b)), _ => None }
}
pub proof fn lemma_del_end(t: Seq<u8>, s: Position, e: Position)
    requires valid_utf8(t), offset_of(t, s) is Some, pos_le(s, e),
    ensures offset_of(t, s)->0 <= del_end(t, e) <= t.len(), boundary(t, del_end(t, e)),
{
    lemma_place_bounds(t, s.line as int, s.offset as int);
    lemma_place_bounds(t, e.line as int, e.offset as int);
    lemma_place_bounds(t, e.line + 1, 0);
    if offset_of(t, e) is Some { lemma_place_order(t, s, e); }
    else if place(t, e.line + 1, 0) is Some {
        let a = choose|c: int| #[trigger] is_at(graphemes(t), c, s.line as int, s.offset as int);
        let b = choose|c: int| #[trigger] is_at(graphemes(t), c, e.line + 1, 0);
        if b < a { lemma_pos_mono(graphemes(t), b, a); }
        lemma_byte_mono(graphemes(t), a, b);
    } else { lemma_ends_boundary(t); }
}
/// cutting a valid text at two character boundaries
pub proof fn lemma_boundaries(t: Seq<u8>, a: int, b: int)
    requires valid_utf8(t), boundary(t, a), boundary(t, b), a <= b,
    ensures valid_utf8(t.subrange(a, b)), valid_utf8(t.subrange(0, a)), valid_utf8(t.subrange(b, t.len() as int)),
        valid_utf8(t.subrange(a, t.len() as int)), valid_utf8(t.subrange(0, b)),
{
    lemma_split(t, a);
    lemma_split(t, b);
    let u = t.subrange(a, t.len() as int);
    lemma_split(u, b - a);
    assert(u.subrange(0, b - a) =~= t.subrange(a, b));
}

impl GapBuffer {
    pub open spec fn gap_end(&self) -> int { self.gap_start + self.gap_length }
    pub open spec fn first(&self) -> Seq<u8> { self.data.bytes().subrange(0, self.gap_start as int) }
    pub open spec fn second(&self) -> Seq<u8> { self.data.bytes().subrange(self.gap_end(), self.data.bytes().len() as int) }
    /// the text the buffer holds
    pub open spec fn text(&self) -> Seq<u8> { self.first() + self.second() }
    /// memory layout: the gap lies inside the vector, which uses its whole capacity; everything outside the gap is initialised
    pub open spec fn layout(&self) -> bool {
        &&& self.data.wf() && self.data.bytes().len() == self.data.cap()
        &&& self.gap_start + self.gap_length <= self.data.bytes().len()
        &&& self.data.init(0, self.gap_start as int)
        &&& self.data.init(self.gap_end(), self.data.bytes().len() as int)
    }
    /// layout, and both halves are valid UTF-8 on their own
    pub open spec fn wf(&self) -> bool { self.layout() && valid_utf8(self.first()) && valid_utf8(self.second()) }
    /// the data index of a content offset
    pub open spec fn data_index(&self, o: int) -> int { if o < self.gap_start { o } else { o + self.gap_length } }

    /// What the blanket `impl<T: Display> ToString for T` does.
    pub fn to_string(&self) -> (r: String)
        requires self.wf(),
        ensures r.sb() == self.text(),
    {
        let mut f = VxFormatter::vx_new();
        let _ = self.fmt(&mut f);
        proof { assert(Seq::<u8>::empty() + self.text() =~= self.text()); }
        f.vx_into_string()
    }
}
pub proof fn lemma_halves(g: &GapBuffer)
    requires g.layout(),
    ensures g.first() == g.text().subrange(0, g.gap_start as int), g.second() == g.text().subrange(g.gap_start as int, g.text().len() as int),
        g.text().len() == g.data.bytes().len() - g.gap_length,
{
    assert(g.first() =~= g.text().subrange(0, g.gap_start as int));
    assert(g.second() =~= g.text().subrange(g.gap_start as int, g.text().len() as int));
}
/// a gap at a character boundary of a valid text leaves two valid halves
pub proof fn lemma_wf(g: &GapBuffer)
    requires g.layout(), valid_utf8(g.text()), boundary(g.text(), g.gap_start as int),
    ensures g.wf(),
{ lemma_halves(g); lemma_split(g.text(), g.gap_start as int); }
/// where a piece of the text is found in the vector
pub proof fn lemma_slices(g: &GapBuffer, a: int, b: int)
    requires g.wf(), boundary(g.text(), a), boundary(g.text(), b), a <= b,
    ensures
        valid_utf8(g.text().subrange(a, b)),
        b <= g.gap_start ==> g.data.bytes().subrange(a, b) == g.text().subrange(a, b),
        a >= g.gap_start ==> g.data.bytes().subrange(a + g.gap_length, b + g.gap_length) == g.text().subrange(a, b),
        a < g.gap_start <= b ==> {
            let x = g.data.bytes().subrange(a, g.gap_start as int);
            let y = g.data.bytes().subrange(g.gap_start + g.gap_length, b + g.gap_length);
            valid_utf8(x) && valid_utf8(y) && x + y == g.text().subrange(a, b) },
{
    hide(valid_utf8);
    let t = g.text();
    let gs = g.gap_start as int;
    let gl = g.gap_length as int;
    let by = g.data.bytes();
    lemma_text_valid(g);
    lemma_halves(g);
    lemma_boundaries(t, a, b);
    if b <= gs { assert(by.subrange(a, b) =~= t.subrange(a, b)); }
    if a >= gs { assert(by.subrange(a + gl, b + gl) =~= t.subrange(a, b)); }
    if a < gs && gs <= b {
        lemma_split(g.first(), a);
        assert(by.subrange(a, gs) =~= g.first().subrange(a, gs));
        lemma_ends_boundary(g.second());
        assert(boundary(g.second(), b - gs));
        lemma_split(g.second(), b - gs);
        assert(by.subrange(gs + gl, b + gl) =~= g.second().subrange(0, b - gs));
        assert(t.subrange(a, b) =~= by.subrange(a, gs) + by.subrange(gs + gl, b + gl));
    }
}
/// widening the gap deletes the bytes it swallows
pub proof fn lemma_widen(g: &GapBuffer, h: &GapBuffer, e: int)
    requires g.layout(), valid_utf8(g.text()), boundary(g.text(), g.gap_start as int), boundary(g.text(), e), g.gap_start <= e <= g.text().len(),
        h.data == g.data, h.gap_start == g.gap_start, h.gap_length == g.gap_length + (e - g.gap_start),
    ensures h.wf(), h.text() == del(g.text(), g.gap_start as int, e),
{
    hide(valid_utf8);
    let a = g.gap_start as int;
    let t = g.text();
    lemma_halves(g);
    lemma_boundaries(t, a, e);
    lemma_ends(t, a, e - a);
    lemma_ends(g.data.bytes(), g.gap_end(), e - a);
    assert(h.first() == g.first());
    assert(h.second() == g.second().subrange(e - a, g.second().len() as int));
}
/// an end of an end
pub proof fn lemma_ends(t: Seq<u8>, a: int, d: int)
    requires 0 <= a, 0 <= d, a + d <= t.len(),
    ensures t.subrange(a, t.len() as int).subrange(d, t.len() - a) == t.subrange(a + d, t.len() as int),
{ assert(t.subrange(a, t.len() as int).subrange(d, t.len() - a) =~= t.subrange(a + d, t.len() as int)); }
pub proof fn lemma_text_valid(g: &GapBuffer)
    requires g.wf(), ensures valid_utf8(g.text()), g.text().len() == g.data.bytes().len() - g.gap_length,
{ valid_utf8_concat(g.first(), g.second()); }

//@ fn GapBuffer::new
//@ ret r
//@ spec
    ensures r.wf(), r.text() == data.t_bytes(),
//@ at exit
proof { assert(vx_ret.first() =~= data.t_bytes()); assert(vx_ret.second() =~= Seq::<u8>::empty()); assert(vx_ret.text() =~= data.t_bytes()); }

//@ fn GapBuffer::fmt
//@ ret r
//@ spec
    requires self.wf(),
    ensures r is Ok, final(f).written() == old(f).written() + self.text(),
//@ at exit
proof { assert(old(f).written() + self.first() + self.second() =~= old(f).written() + self.text()); }

//@ fn GapBuffer::content_offset
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        match r { Some(o) => offset_of(self.text(), *position) == Some(o as int), None => offset_of(self.text(), *position) is None },
//@ at entry
let ghost t = self.text();
let ghost gs = graphemes(t);
proof {
    lemma_text_valid(self);
    lemma_graphemes_len(t);
    lemma_nl();
    assert(is_at(gs, 0, 0, 0));
    lemma_place(t, 0, 0, 0);
}
//@ loop 0
    invariant
        t == self.text(), content.sb() == t, gs == graphemes(t), valid_utf8(t),
        vx_it0.wf(), vx_it0.all().len() == gs.len(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).0 == byte_at(gs, i) && vx_it0.all()[i].1.sb() == gs[i],
        pos_at(gs, vx_it0.pos()) == (line as int, line_offset as int),
        forall|j: int| 0 <= j < vx_it0.pos() ==> !#[trigger] is_at(gs, j, position.line as int, position.offset as int),
        "\n".sb() == NL(), "\r\n".sb() == CRLF(),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop0.start
proof {
    let k = vx_it0.pos() - 1;
    assert(vx_it0.all()[k].0 == offset && vx_it0.all()[k].1 == grapheme);
    lemma_pos_bounds(gs, k);
    if is_at(gs, k, position.line as int, position.offset as int) { lemma_place(t, k, position.line as int, position.offset as int); }
    if gs[k] == NL() { lemma_sb_inj(grapheme@, "\n"@); }
    if gs[k] == CRLF() { lemma_sb_inj(grapheme@, "\r\n"@); }
    assert(is_nl(gs[k]) == (grapheme@ == "\n"@ || grapheme@ == "\r\n"@));
}
//@ at before len#0
proof {
    if is_at(gs, gs.len() as int, position.line as int, position.offset as int) { lemma_place(t, gs.len() as int, position.line as int, position.offset as int); }
}
//@ at exit
proof {
    assert(pos_at(gs, gs.len() as int) == (line as int, line_offset as int));
    assert(!is_at(gs, gs.len() as int, position.line as int, position.offset as int));
}

//@ fn GapBuffer::data_offset
//@ ret r
//@ spec
    requires self.layout(), offset + self.gap_length <= self.data.bytes().len(),
    ensures r == self.data_index(offset as int),

//@ fn GapBuffer::find_offset
//@ ret r
//@ spec
    requires self.wf(),
    ensures
        match r {
            Some(o) => offset_of(self.text(), *position) is Some && o == self.data_index(offset_of(self.text(), *position)->0),
            None => offset_of(self.text(), *position) is None },
//@ at entry
proof { lemma_text_valid(self); lemma_place_bounds(self.text(), position.line as int, position.offset as int); }

//@ fn GapBuffer::in_bounds
//@ ret r
//@ spec
    requires self.wf(),
    ensures r == offset_of(self.text(), *position) is Some,

//@ fn GapBuffer::move_gap
//@ spec
    requires old(self).layout(), offset <= old(self).data.bytes().len(), offset <= old(self).gap_start || offset >= old(self).gap_end(),
    ensures final(self).layout(), final(self).text() == old(self).text(), final(self).gap_length == old(self).gap_length,
        final(self).data.bytes().len() == old(self).data.bytes().len(),
        final(self).gap_start == if offset <= old(self).gap_start { offset as int } else { offset - old(self).gap_length },
//@ at entry
let ghost b0 = self.data.bytes();
let ghost i0 = self.data.inits();
let ghost gs0 = self.gap_start as int;
let ghost gl = self.gap_length as int;
let ghost g0 = *self;
proof {
    if gl == 0 {
        assert(g0.text() =~= b0);
        assert(b0 =~= b0.subrange(0, offset as int) + b0.subrange(offset as int, b0.len() as int));
    }
}
//@ loop 0
    invariant
        self.data.wf(), self.data.bytes().len() == b0.len() == self.data.cap(), self.data.cap() == g0.data.cap(), self.gap_start == gs0, self.gap_length == gl, gl > 0,
        gs0 + gl <= b0.len(), offset <= gs0, b0 == g0.data.bytes(), i0 == g0.data.inits(), g0.layout(), g0.gap_start == gs0, g0.gap_length == gl,
        vx_it0.wf(), vx_it0.all().len() == gs0 - offset, forall|i: int| 0 <= i < vx_it0.all().len() ==> #[trigger] vx_it0.all()[i] == gs0 - 1 - i,
        forall|j: int| 0 <= j < gs0 - vx_it0.pos() ==> #[trigger] self.data.bytes()[j] == b0[j] && self.data.inits()[j],
        forall|j: int| 0 <= j < gs0 - vx_it0.pos() ==> #[trigger] self.data.inits()[j],
        forall|j: int| gs0 - vx_it0.pos() + gl <= j < gs0 + gl ==> #[trigger] self.data.bytes()[j] == b0[j - gl],
        forall|j: int| gs0 - vx_it0.pos() + gl <= j < b0.len() ==> #[trigger] self.data.inits()[j],
        forall|j: int| gs0 + gl <= j < b0.len() ==> #[trigger] self.data.bytes()[j] == b0[j],
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ loop 1
    invariant
        self.data.wf(), self.data.bytes().len() == b0.len() == self.data.cap(), self.data.cap() == g0.data.cap(), self.gap_start == gs0, self.gap_length == gl, gl > 0,
        gs0 + gl <= offset <= b0.len(), b0 == g0.data.bytes(), i0 == g0.data.inits(), g0.layout(), g0.gap_start == gs0, g0.gap_length == gl,
        vx_it1.wf(), vx_it1.all().len() == offset - (gs0 + gl), forall|i: int| 0 <= i < vx_it1.all().len() ==> #[trigger] vx_it1.all()[i] == gs0 + gl + i,
        forall|j: int| 0 <= j < gs0 ==> #[trigger] self.data.bytes()[j] == b0[j],
        forall|j: int| gs0 <= j < gs0 + vx_it1.pos() ==> #[trigger] self.data.bytes()[j] == b0[j + gl],
        forall|j: int| gs0 + gl + vx_it1.pos() <= j < b0.len() ==> #[trigger] self.data.bytes()[j] == b0[j],
        forall|j: int| 0 <= j < gs0 + vx_it1.pos() ==> #[trigger] self.data.inits()[j],
        forall|j: int| gs0 + gl + vx_it1.pos() <= j < b0.len() ==> #[trigger] self.data.inits()[j],
    ensures vx_it1.pos() == vx_it1.all().len(),
    decreases vx_it1.all().len() - vx_it1.pos(),
//@ at exit
proof { assert(self.text() =~= g0.text()); }

//@ fn GapBuffer::write_to_gap
//@ spec
    requires old(self).layout(), data.sb().len() <= old(self).gap_length,
    ensures final(self).layout(), final(self).first() == old(self).first() + data.sb(), final(self).second() == old(self).second(),
        final(self).data.bytes().len() == old(self).data.bytes().len(),
        final(self).gap_start == old(self).gap_start + data.sb().len(), final(self).gap_length == old(self).gap_length - data.sb().len(),
//@ at entry
let ghost g0 = *self;
let ghost d = data.sb();
//@ loop 0
    invariant
        g0.layout(), self.layout(), d.len() <= g0.gap_length, self.data.bytes().len() == g0.data.bytes().len(),
        vx_it0.wf(), vx_it0.all() == d,
        self.gap_start == g0.gap_start + vx_it0.pos(), self.gap_length == g0.gap_length - vx_it0.pos(),
        self.second() == g0.second(), self.first() == g0.first() + d.subrange(0, vx_it0.pos()),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases d.len() - vx_it0.pos(),
//@ at loop0.start
let ghost g1 = *self;
//@ at loop0.end
proof {
    assert(self.second() =~= g1.second());
    assert(self.first() =~= g1.first().push(byte));
    assert(self.first() =~= g0.first() + d.subrange(0, vx_it0.pos()));
}
//@ at exit
proof { assert(self.first() =~= g0.first() + d); }

//@ fn GapBuffer::insert_at
//@ spec
    requires old(self).wf(), boundary(old(self).text(), offset as int),
    ensures final(self).wf(), final(self).text() == ins(old(self).text(), offset as int, data.sb()),
//@ at entry
let ghost g0 = *self;
let ghost t = self.text();
let ghost o = offset as int;
proof { lemma_text_valid(self); lemma_str_valid(data); lemma_split(t, o); }
//@ at before move_gap#0
let ghost g1 = *self;
//@ at after vx_set_len#0
proof {
    assert(self.text() =~= t);
}
//@ at before write_to_gap#0
let ghost g1 = *self;
proof { assert(t == g1.text()); lemma_halves(&g1); }
//@ at exit
proof {
    valid_utf8_concat(t.subrange(0, o), data.sb());
    assert(self.text() =~= ins(t, o, data.sb()));
}

//@ fn GapBuffer::insert
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).text() == text_insert(old(self).text(), data.sb(), *position),
//@ at entry
proof { lemma_text_valid(self); lemma_place_bounds(self.text(), position.line as int, position.offset as int); }

//@ fn GapBuffer::read
//@ ret r
//@ spec
    requires self.wf(), range.wf(),
    ensures match r { Some(s) => text_read(self.text(), range.start, range.end) == Some(s.sb()), None => text_read(self.text(), range.start, range.end) is None },
//@ at entry
let ghost t = self.text();
proof {
    lemma_text_valid(self);
    lemma_place_bounds(t, range.start.line as int, range.start.offset as int);
    lemma_place_bounds(t, range.end.line as int, range.end.offset as int);
    if offset_of(t, range.start) is Some && offset_of(t, range.end) is Some {
        lemma_place_order(t, range.start, range.end);
        lemma_slices(self, offset_of(t, range.start)->0, offset_of(t, range.end)->0);
    }
}
//@ fn GapBuffer::delete
//@ spec
    requires old(self).wf(), range.wf(), range.end.line < usize::MAX,
    ensures final(self).wf(), final(self).text() == text_delete(old(self).text(), range.start, range.end),
//@ at entry
let ghost t = self.text();
proof {
    lemma_text_valid(self);
    lemma_place_bounds(t, range.start.line as int, range.start.offset as int);
    if offset_of(t, range.start) is Some { lemma_del_end(t, range.start, range.end); }
    lemma_place_bounds(t, range.end.line as int, range.end.offset as int);
    lemma_place_bounds(t, range.end.line + 1, 0);
}
//@ at after move_gap#0
let ghost g1 = *self;
proof { lemma_wf(&g1); assert(g1.text() == t); }
//@ at exit
proof { lemma_widen(&g1, self, del_end(t, range.end)); }

//@ fn GapBuffer::delete_at
//@ spec
    requires old(self).wf(), boundary(old(self).text(), offset as int), boundary(old(self).text(), offset + length),
    ensures final(self).wf(), final(self).text() == del(old(self).text(), offset as int, offset + length),
//@ at entry
let ghost t = self.text();
proof { lemma_text_valid(self); }
//@ at after move_gap#0
let ghost g1 = *self;
proof { lemma_wf(&g1); lemma_halves(&g1); }
//@ at exit
proof { lemma_widen(&g1, self, offset + length); }
