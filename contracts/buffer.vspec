//@ module buffer
//@ struct Buffer
pub notified: Ghost<Seq<(Position, Seq<u8>)>>,
pub origin: Ghost<Seq<u8>>,
pub saved: Ghost<Seq<u8>>,
//@ init Buffer
notified: Ghost(Seq::empty()), origin: Ghost(cursor.text()), saved: Ghost(cursor.text())
//@ raw
impl Buffer {
    /// the buffer and its cursor share one well-formed gap buffer
    pub open spec fn wf_data(&self) -> bool { self.cursor.wf() && self.cursor.data.id() == self.data.id() }
    pub open spec fn text(&self) -> Seq<u8> { self.cursor.text() }
    /// everything that editing leaves alone
    pub open spec fn same_meta(&self, o: Buffer) -> bool {
        self.id == o.id && self.path == o.path && self.syntax_definition == o.syntax_definition && self.change_callback == o.change_callback
    }
    pub open spec fn same_history(&self, o: Buffer) -> bool {
        self.history == o.history && self.operation_group == o.operation_group && self.origin == o.origin && self.saved == o.saved
    }
    /// the callback was told of these changes, if there is one
    pub open spec fn told(&self, o: Buffer, notes: Seq<(Position, Seq<u8>)>) -> bool {
        self.notified@ =~= (if self.change_callback is Some { o.notified@ + notes } else { o.notified@ })
    }
}
pub open spec fn run_post(o: OpV, o2: OpV, a: Buffer, b: Buffer) -> bool {
    &&& b.wf_data() && b.same_meta(a) && b.same_history(a)
    &&& b.text() == run_text(o, a.text())
    &&& o2 == ran(o, a.text())
    &&& b.told(a, run_notes(o, a.text()))
    &&& b.cursor.position == run_cursor(o, a.cursor.position)
}
pub open spec fn rev_post(o: OpV, a: Buffer, b: Buffer) -> bool {
    &&& b.wf_data() && b.same_meta(a) && b.same_history(a)
    &&& b.text() == rev_text(o, a.text())
    &&& b.told(a, rev_notes(o, a.text()))
    &&& b.cursor.position == rev_cursor(o, a.cursor.position)
}

// ------------------------------------------------------------------ the history of a buffer
/// operations that were run one after the other, starting from text o, and can be reversed
pub open spec fn chain_ok(c: Seq<OpV>, o: Seq<u8>) -> bool { valid_utf8(o) && all_ok(c, c.len() as int) && all_linked(c, c.len() as int, o) }
/// the texts before, between and after the operations
pub open spec fn texts(c: Seq<OpV>, o: Seq<u8>) -> Seq<Seq<u8>> { Seq::new((c.len() + 1) as nat, |i: int| run_all(c, i, o)) }

impl Buffer {
    pub open spec fn chain(&self) -> Seq<OpV> { self.history.chain() }
    /// where in its history the buffer is
    pub open spec fn point(&self) -> int { self.history.prev().len() as int }
    /// the operations of the open operation group
    pub open spec fn open_ops(&self) -> Seq<OpV> { match self.operation_group { Some(g) => g.ops(), None => Seq::empty() } }
    /// the text before the open operation group
    pub open spec fn base(&self) -> Seq<u8> { run_all(self.chain(), self.point(), self.origin@) }
    /// the texts undo and redo move through
    pub open spec fn timeline(&self) -> Seq<Seq<u8>> { texts(self.chain(), self.origin@) }
    pub open spec fn is_modified(&self) -> bool { !(self.history.mark_at() == Some(self.point()) && self.open_ops().len() == 0) }
    pub open spec fn inv(&self) -> bool {
        &&& self.wf_data()
        &&& chain_ok(self.chain(), self.origin@)
        &&& chain_ok(self.open_ops(), self.base())
        &&& self.text() == run_all(self.open_ops(), self.open_ops().len() as int, self.base())
        &&& match self.history.mark_at() { Some(m) => 0 <= m <= self.chain().len() && run_all(self.chain(), m, self.origin@) == self.saved@, None => true }
    }
    /// everything but text, cursor and history is as it was
    pub open spec fn kept(&self, o: Buffer) -> bool { self.same_meta(o) && self.origin == o.origin && self.saved == o.saved }
    /// what an edit does to the history: it becomes its last step (or one more step of the open group), and
    /// there is nothing to redo
    pub open spec fn edited(&self, o: Buffer) -> bool {
        &&& self.operation_group is Some == o.operation_group is Some
        &&& self.is_modified()
        &&& if o.operation_group is Some {
            self.history == o.history && self.open_ops().len() == o.open_ops().len() + 1
        } else {
            &&& self.timeline() == o.timeline().subrange(0, o.point() + 1).push(self.text()) && self.point() == o.point() + 1
            &&& self.history.mark_at() == match o.history.mark_at() { Some(m) => if m > o.point() { None } else { Some(m) }, None => None }
        }
    }
}
pub proof fn lemma_same_all(a: Seq<OpV>, b: Seq<OpV>, n: int, o: Seq<u8>)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures run_all(a, n, o) == run_all(b, n, o), all_linked(a, n, o) == all_linked(b, n, o), all_ok(a, n) == all_ok(b, n),
    decreases n,
{ if n > 0 { lemma_same_all(a, b, n - 1, o); } }
/// the first operations of a chain are one
pub proof fn lemma_chain_prefix(c: Seq<OpV>, n: int, o: Seq<u8>)
    requires chain_ok(c, o), 0 <= n <= c.len(),
    ensures chain_ok(c.subrange(0, n), o), texts(c.subrange(0, n), o) == texts(c, o).subrange(0, n + 1),
        run_all(c.subrange(0, n), n, o) == run_all(c, n, o), valid_utf8(run_all(c, n, o)),
{
    let d = c.subrange(0, n);
    assert forall|i: int| 0 <= i <= n implies run_all(d, i, o) == run_all(c, i, o) by { lemma_same_all(d, c, i, o); }
    lemma_same_all(d, c, n, o);
    lemma_all_linked(c, n, o);
    lemma_all_ok(c, c.len() as int);
    lemma_all_ok_from(d, n);
    lemma_run_valid(c, n, o);
    assert(texts(d, o) =~= texts(c, o).subrange(0, n + 1));
}
pub proof fn lemma_all_ok_from(c: Seq<OpV>, n: int)
    requires forall|i: int| 0 <= i < n ==> op_ok(#[trigger] c[i]), 0 <= n <= c.len(), ensures all_ok(c, n), decreases n,
{ if n > 0 { lemma_all_ok_from(c, n - 1); } }
/// one more operation
pub proof fn lemma_chain_push(c: Seq<OpV>, x: OpV, o: Seq<u8>)
    requires chain_ok(c, o), op_ok(x), linked(x, run_all(c, c.len() as int, o)),
    ensures chain_ok(c.push(x), o), texts(c.push(x), o) == texts(c, o).push(run_text(x, run_all(c, c.len() as int, o))),
        run_all(c.push(x), (c.len() + 1) as int, o) == run_text(x, run_all(c, c.len() as int, o)),
{
    let d = c.push(x);
    assert forall|i: int| 0 <= i <= c.len() implies run_all(d, i, o) == run_all(c, i, o) by { lemma_same_all(d, c, i, o); }
    lemma_same_all(d, c, c.len() as int, o);
    assert(d[c.len() as int] == x);
    assert(texts(d, o) =~= texts(c, o).push(run_text(x, run_all(c, c.len() as int, o))));
}
/// An operation that has just been run is added to the history, after the point where the buffer is.
pub proof fn lemma_history_add(a: History, b: History, x: OpV, o: Seq<u8>)
    requires chain_ok(a.chain(), o), op_ok(x), linked(x, run_all(a.chain(), a.prev().len() as int, o)), b.prev() == a.prev().push(x), b.nxt().len() == 0,
    ensures chain_ok(b.chain(), o), b.prev().len() == b.chain().len(), b.chain() == a.prev().push(x),
        texts(b.chain(), o) == texts(a.chain(), o).subrange(0, (a.prev().len() + 1) as int).push(run_text(x, run_all(a.chain(), a.prev().len() as int, o))),
        run_all(b.chain(), b.prev().len() as int, o) == run_text(x, run_all(a.chain(), a.prev().len() as int, o)),
        forall|m: int| 0 <= m <= a.prev().len() ==> #[trigger] run_all(b.chain(), m, o) == run_all(a.chain(), m, o),
{
    let n = a.prev().len() as int;
    lemma_chain_prefix(a.chain(), n, o);
    assert(a.chain().subrange(0, n) =~= a.prev());
    assert(b.chain() =~= a.prev().push(x));
    lemma_chain_push(a.prev(), x, o);
    assert forall|m: int| 0 <= m <= n implies #[trigger] run_all(b.chain(), m, o) == run_all(a.chain(), m, o) by { lemma_same_all(a.chain(), b.chain(), m, o); }
}
/// what a buffer is after an operation was run and recorded
pub proof fn lemma_edit(a: Buffer, b: Buffer, x: OpV)
    requires a.inv(), op_ok(x), linked(x, a.text()), b.wf_data(), b.text() == run_text(x, a.text()), b.kept(a),
        match a.operation_group {
            Some(g) => b.history == a.history && b.operation_group is Some && b.operation_group->0.ops() == g.ops().push(x),
            None => b.operation_group is None && b.history.prev() == a.history.prev().push(x) && b.history.nxt().len() == 0
                && b.history.mark_at() == match a.history.mark_at() { Some(m) => if m > a.point() { None } else { Some(m) }, None => None } },
    ensures b.inv(), b.edited(a),
{
    let o = a.origin@;
    if a.operation_group is Some {
        lemma_chain_push(a.open_ops(), x, a.base());
    } else {
        assert(run_all(a.open_ops(), 0, a.base()) == a.base());
        lemma_history_add(a.history, b.history, x, o);
        lemma_run_valid(b.chain(), b.point(), o);
        assert(b.base() == b.text());
        assert(chain_ok(b.open_ops(), b.base()));
    }
}
impl Buffer {
    /// the history once the open group is part of it: the group is one step
    pub open spec fn flat(&self) -> (Seq<Seq<u8>>, int) {
        if self.open_ops().len() > 0 { (self.timeline().subrange(0, self.point() + 1).push(self.text()), self.point() + 1) } else { (self.timeline(), self.point()) }
    }
    pub open spec fn save_path(&self) -> Seq<u8> { match self.path { Some(p) => p.pv(), None => Seq::empty() } }
    /// where the buffer last matched its file, in that history, if that is still part of it
    pub open spec fn flat_mark(&self) -> Option<int> {
        match self.history.mark_at() { Some(m) => if self.open_ops().len() > 0 && m > self.point() { None } else { Some(m) }, None => None }
    }
    /// the open group has become part of the history; nothing else has changed
    pub open spec fn committed(&self, o: Buffer) -> bool {
        &&& self.open_ops().len() == 0
        &&& self.timeline() == o.flat().0 && self.point() == o.flat().1 && self.history.mark_at() == o.flat_mark()
        &&& self.text() == o.text() && self.cursor == o.cursor && self.data == o.data && self.notified == o.notified
    }
}
/// the open group becomes a step of the history
pub proof fn lemma_commit(a: Buffer, b: Buffer)
    requires a.inv(), a.open_ops().len() > 0, b.wf_data(), b.text() == a.text(), b.kept(a), b.open_ops().len() == 0,
        b.history.prev() == a.history.prev().push(OpV::Grp(a.open_ops())), b.history.nxt().len() == 0,
        b.history.mark_at() == match a.history.mark_at() { Some(m) => if m > a.point() { None } else { Some(m) }, None => None },
    ensures b.inv(), b.timeline() == a.flat().0, b.point() == a.flat().1,
{
    let x = OpV::Grp(a.open_ops());
    lemma_history_add(a.history, b.history, x, a.origin@);
    lemma_run_valid(b.chain(), b.point(), a.origin@);
    assert(run_text(x, a.base()) == a.text());
}
/// the operation that is undone next, and the text that gives
pub proof fn lemma_step(c: Seq<OpV>, n: int, o: Seq<u8>)
    requires chain_ok(c, o), 0 < n <= c.len(),
    ensures op_ok(c[n - 1]), linked(c[n - 1], run_all(c, n - 1, o)), run_all(c, n, o) == run_text(c[n - 1], run_all(c, n - 1, o)),
        rev_ok(c[n - 1], run_all(c, n, o)), rev_text(c[n - 1], run_all(c, n, o)) == run_all(c, n - 1, o), valid_utf8(run_all(c, n - 1, o)), valid_utf8(run_all(c, n, o)),
{
    lemma_run_valid(c, n - 1, o);
    lemma_run_valid(c, n, o);
    lemma_all_linked(c, n, o);
    lemma_all_ok(c, c.len() as int);
    lemma_reverse(c[n - 1], run_all(c, n - 1, o));
}

//@ fn Buffer::undo
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).operation_group is None,
        final(self).timeline() == old(self).flat().0, final(self).history.mark_at() == old(self).flat_mark(),
        final(self).point() == if old(self).flat().1 > 0 { old(self).flat().1 - 1 } else { 0 },
        final(self).text() == old(self).flat().0[final(self).point()],
        old(self).flat().1 > 0 ==> final(self).cursor.position == rev_cursor(final(self).chain()[final(self).point()], old(self).cursor.position)
            && final(self).told(*old(self), rev_notes(final(self).chain()[final(self).point()], old(self).text())),
        old(self).flat().1 == 0 ==> final(self).cursor.position == old(self).cursor.position && final(self).notified == old(self).notified,
//@ at after end_operation_group#0
let ghost b1 = *self;
proof { if b1.point() > 0 { lemma_step(b1.chain(), b1.point(), b1.origin@); assert(b1.chain()[b1.point() - 1] == b1.history.prev().last()); } }
//@ fn Buffer::redo
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).kept(*old(self)),
        final(self).open_ops() == old(self).open_ops(), final(self).operation_group is Some == old(self).operation_group is Some,
        final(self).timeline() == old(self).timeline(), final(self).history.mark_at() == old(self).history.mark_at(),
        old(self).open_ops().len() > 0 || old(self).history.nxt().len() == 0 ==> final(self).point() == old(self).point() && final(self).text() == old(self).text()
            && final(self).cursor.position == old(self).cursor.position && final(self).notified == old(self).notified,
        old(self).open_ops().len() == 0 && old(self).history.nxt().len() > 0 ==> final(self).point() == old(self).point() + 1
            && final(self).text() == old(self).timeline()[final(self).point()]
            && final(self).cursor.position == run_cursor(final(self).chain()[old(self).point()], old(self).cursor.position)
            && final(self).told(*old(self), run_notes(final(self).chain()[old(self).point()], old(self).text())),
//@ at entry
let ghost b1 = *self;
proof {
    if b1.history.nxt().len() > 0 {
        lemma_step(b1.chain(), b1.point() + 1, b1.origin@);
        assert(b1.chain()[b1.point()] == b1.history.nxt()[0]);
    }
}
//@ fn Buffer::modified
//@ ret r
//@ spec
    requires self.inv(),
    ensures r == self.is_modified(), !r ==> self.text() == self.saved@,
//@ fn Buffer::read
//@ ret r
//@ spec
    requires self.wf_data(), range.wf(),
    ensures match r { Some(s) => text_read(self.text(), range.start, range.end) == Some(s.sb()), None => text_read(self.text(), range.start, range.end) is None },

//@ fn Buffer::data
//@ ret r
//@ spec
    requires self.wf_data(),
    ensures r.sb() == self.text(),

//@ raw
impl VxDefault for Buffer {
    open spec fn is_default(&self) -> bool {
        self.inv() && self.text().len() == 0 && self.cursor.position == (Position { line: 0, offset: 0 }) && self.id is None && self.path is None
            && self.syntax_definition is None && self.change_callback is None && self.timeline() == seq![Seq::<u8>::empty()] && self.is_modified() && self.operation_group is None
    }
    fn vx_dflt() -> (r: Buffer) { Buffer::default() }
}
//@ fn Buffer::default
//@ ret r
//@ spec
    ensures r.inv(), r.text().len() == 0, r.cursor.position == (Position { line: 0, offset: 0 }), r.id is None, r.path is None,
        r.syntax_definition is None, r.change_callback is None, r.timeline() == seq![Seq::<u8>::empty()], r.is_modified(), r.operation_group is None, r.history.prev().len() == 0, r.history.nxt().len() == 0, r.history.mark_at() is None,
//@ fn Buffer::new
//@ ret r
//@ spec
    ensures r.inv(), r.text().len() == 0, r.cursor.position == (Position { line: 0, offset: 0 }), r.id is None, r.path is None,
        r.syntax_definition is None, r.change_callback is None, r.timeline() == seq![Seq::<u8>::empty()], r.is_modified(), r.operation_group is None, r.history.prev().len() == 0, r.history.nxt().len() == 0, r.history.mark_at() is None,

//@ fn Buffer::from_file
//@ ret r
//@ spec
    ensures *final(vx_fs) == *old(vx_fs),
        match r {
            Ok(b) => b.inv() && old(vx_fs).holds(path.pv(), b.text()) && !b.is_modified() && b.cursor.position == (Position { line: 0, offset: 0 })
                && b.timeline() == seq![b.text()] && b.operation_group is None && b.id is None && b.syntax_definition is None && b.change_callback is None
                && b.path is Some && old(vx_fs).resolve(path.pv()) == Some(b.path->0.pv()),
            Err(_) => !old(vx_fs).readable(path.pv()) },
//@ at before mark#0
proof { buffer.origin@ = buffer.text(); buffer.saved@ = buffer.text(); }
//@ at exit
proof {
    assert(vx_ret->Ok_0.timeline() =~= seq![vx_ret->Ok_0.text()]);
    lemma_text_valid(&vx_ret->Ok_0.cursor.buf());
}
//@ fn Buffer::save
//@ ret r
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_meta(*old(self)), final(self).text() == old(self).text(), final(self).cursor == old(self).cursor,
        final(self).notified == old(self).notified,
        r is Ok ==> final(vx_fs).holds(final(self).save_path(), final(self).text()),
        r is Ok ==> !final(self).is_modified() && final(self).saved@ == final(self).text(),
        r is Ok ==> final(self).timeline() == old(self).flat().0 && final(self).point() == old(self).flat().1 && final(self).operation_group is Some == old(self).operation_group is Some,
        r is Err ==> *final(self) == *old(self) && !old(vx_fs).accepts(old(self).save_path(), old(self).text()),
//@ at exit
proof { if vx_ret is Ok { self.saved@ = self.text(); } }
//@ fn Buffer::reload
//@ ret r
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).same_meta(*old(self)), *final(vx_fs) == *old(vx_fs),
        match r {
            Ok(_) => final(self).path is Some && final(vx_fs).holds(final(self).path->0.pv(), final(self).text()) && !final(self).is_modified()
                && final(self).saved@ == final(self).text() && final(self).operation_group is Some == old(self).operation_group is Some
                && (final(self).text() != old(self).text() ==> final(self).timeline() == old(self).timeline().subrange(0, old(self).point() + 1).push(final(self).text()) && final(self).point() == old(self).point() + 1)
                && (final(self).text() == old(self).text() ==> final(self).timeline() == old(self).flat().0 && final(self).point() == old(self).flat().1)
                && (final(self).text() == old(self).text() ==> final(self).cursor == old(self).cursor)
                && (final(self).text() != old(self).text() ==> final(self).cursor.position == retarget(final(self).text(), old(self).cursor.position)),
            Err(_) => *final(self) == *old(self) && (old(self).path is None || !old(vx_fs).readable(old(self).path->0.pv())) },
//@ at exit
proof { if vx_ret is Ok { self.saved@ = self.text(); } }
//@ fn Buffer::line_count
//@ ret r
//@ spec
    requires self.wf_data(),
    ensures r == line_count(self.text()),
//@ at entry
let ghost t = self.text();
proof { lemma_text_valid(&self.cursor.buf()); lemma_count_lines(t); decode_utf8_encode_utf8(t); lemma_lf_chars(decode_utf8(t)); }
//@ loop 0
    invariant
        t == self.text(), valid_utf8(t), vx_it0.wf(), encode_utf8(vx_it0.all()) == t, vx_n0 <= vx_it0.pos(), vx_n0 == lf_chars(vx_it0.all().subrange(0, vx_it0.pos())),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop0.start
proof { assert(vx_it0.all().subrange(0, vx_it0.pos()).drop_last() =~= vx_it0.all().subrange(0, vx_it0.pos() - 1)); }
//@ at loop0.after
proof {
    lemma_sb_inj(vx_it0.all(), decode_utf8(t));
    assert(vx_it0.all().subrange(0, vx_it0.pos()) =~= decode_utf8(t));
    lemma_lines_bounds(t);
}
//@ raw
// ------------------------------------------------------------------ searching
pub open spec fn starts_with(t: Seq<u8>, n: Seq<u8>) -> bool { n.len() <= t.len() && t.subrange(0, n.len() as int) == n }
/// the k-th grapheme of line l is where an occurrence of the needle starts
pub open spec fn occurs(t: Seq<u8>, n: Seq<u8>, l: int, k: int) -> bool {
    &&& 0 <= l < line_count(t) && 0 <= k < line_len(t, l)
    &&& starts_with(dlines(t)[l].subrange(byte_at(graphemes(dlines(t)[l]), k), dlines(t)[l].len() as int), n)
}
/// r lists, in order, the occurrences that lie before (l, k)
pub open spec fn found(r: Seq<Position>, t: Seq<u8>, n: Seq<u8>, l: int, k: int) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> occurs(t, n, (#[trigger] r[i]).line as int, r[i].offset as int) && lex_lt((r[i].line as int, r[i].offset as int), (l, k))
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> pos_lt(#[trigger] r[i], #[trigger] r[j])
    &&& forall|p: Position| #[trigger] occurs(t, n, p.line as int, p.offset as int) && lex_lt((p.line as int, p.offset as int), (l, k)) ==> r.contains(p)
}
pub proof fn lemma_found_none(r: Seq<Position>, t: Seq<u8>, n: Seq<u8>, l: int, k: int)
    requires found(r, t, n, l, k), !occurs(t, n, l, k), ensures found(r, t, n, l, k + 1),
{}
pub proof fn lemma_found_one(r: Seq<Position>, t: Seq<u8>, n: Seq<u8>, p: Position)
    requires found(r, t, n, p.line as int, p.offset as int), occurs(t, n, p.line as int, p.offset as int),
    ensures found(r.push(p), t, n, p.line as int, p.offset + 1),
{
    let s = r.push(p);
    assert(s[r.len() as int] == p);
    assert forall|q: Position| #[trigger] occurs(t, n, q.line as int, q.offset as int) && lex_lt((q.line as int, q.offset as int), (p.line as int, p.offset + 1)) implies s.contains(q) by {
        if q != p { assert(r.contains(q)); let i = choose|i: int| 0 <= i < r.len() && r[i] == q; assert(s[i] == q); }
    }
}
/// on to the next line
pub proof fn lemma_found_line(r: Seq<Position>, t: Seq<u8>, n: Seq<u8>, l: int, k: int)
    requires found(r, t, n, l, k), k >= line_len(t, l), ensures found(r, t, n, l + 1, 0),
{}
//@ fn Buffer::search
//@ ret r
//@ spec
    requires self.wf_data(),
    ensures found(r@, self.text(), needle.sb(), line_count(self.text()), 0),
//@ at entry
let ghost t = self.text();
let ghost n = needle.sb();
proof { lemma_cursor(&self.cursor, 0); lemma_str_valid(needle); lemma_lines_bounds(t); }
//@ loop 0
    invariant
        t == self.text(), n == needle.sb(), valid_utf8(t), self.cursor.wf(), t.len() <= isize::MAX,
        vx_it1.wf(), vx_it1.all().len() == lines_of(t).len(), lines_of(t).len() <= line_count(t),
        forall|i: int| 0 <= i < lines_of(t).len() ==> #[trigger] lines_of(t)[i] == dlines(t)[i],
        forall|i: int| 0 <= i < vx_it1.all().len() ==> (#[trigger] vx_it1.all()[i]).0 == i && vx_it1.all()[i].1.sb() == lines_of(t)[i],
        found(results@, t, n, vx_it1.pos(), 0),
    ensures vx_it1.pos() == vx_it1.all().len(),
    decreases vx_it1.all().len() - vx_it1.pos(),
//@ at loop0.start
let ghost l = vx_it1.pos() - 1;
proof {
    assert(vx_it1.all()[l].0 == line && vx_it1.all()[l].1 == data);
    lemma_doc(t, l, 0);
    axiom_graphemes_partition(data.sb());
}
//@ loop 1
    invariant
        t == self.text(), n == needle.sb(), line == l, data.sb() == dlines(t)[l], 0 <= l < line_count(t), valid_utf8(data.sb()),
        forall|k: int| 0 <= k <= graphemes(data.sb()).len() ==> boundary(data.sb(), #[trigger] byte_at(graphemes(data.sb()), k)),
        vx_it0.wf(), vx_it0.all().len() == line_len(t, l),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).0 == i && vx_it0.all()[i].1.0 == byte_at(graphemes(data.sb()), i),
        found(results@, t, n, l, vx_it0.pos()),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop1.start
let ghost k = vx_it0.pos() - 1;
let ghost r0 = results@;
proof { assert(vx_it0.all()[k].0 == offset && vx_it0.all()[k].1.0 == index); }
//@ at loop1.end
proof {
    if occurs(t, n, l, k) { lemma_found_one(r0, t, n, Position { line: line, offset: offset }); } else { lemma_found_none(r0, t, n, l, k); }
}
//@ at loop0.end
proof { lemma_found_line(results@, t, n, l, line_len(t, l)); }
//@ at exit
proof { if lines_of(t).len() < line_count(t) { lemma_found_line(vx_ret@, t, n, line_count(t) - 1, 0); } }
//@ fn Buffer::file_name
//@ ret r
//@ spec
    ensures opt_sb(r) == match self.path { Some(p) => match path_file_name(p.pv()) { Some(f) => if valid_utf8(f) { Some(f) } else { None }, None => None }, None => None },
//@ fn Buffer::file_extension
//@ ret r
//@ spec
    ensures opt_sb(r) == match self.path { Some(p) => match path_extension(p.pv()) { Some(e) => if e.len() > 0 { Some(lossy(e)) } else { None }, None => None }, None => None },
