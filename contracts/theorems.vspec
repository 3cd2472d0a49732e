//@ module theorems
//@ raw
// Clients of the library, verified against the contracts of the functions they call (not their bodies):
// what the contracts add up to over sequences of any length.

/// Undo walks back through the texts to the first one, and stays there.
pub fn theorem_undo_all(b: &mut Buffer, n: usize)
    requires old(b).inv(), n > 0,
    ensures final(b).inv(), final(b).text() == old(b).flat().0[if n <= old(b).flat().1 { old(b).flat().1 - n } else { 0 }],
        n >= old(b).flat().1 ==> final(b).text() == old(b).origin@,
        final(b).timeline() == old(b).flat().0, final(b).point() == (if n <= old(b).flat().1 { old(b).flat().1 - n } else { 0 }),
        final(b).open_ops().len() == 0, final(b).saved == old(b).saved,
{
    b.undo();
    let mut i: usize = 1;
    while i < n
        invariant
            1 <= i <= n, b.inv(), b.operation_group is None, b.timeline() == old(b).flat().0, b.origin == old(b).origin, b.saved == old(b).saved,
            b.point() == (if i <= old(b).flat().1 { old(b).flat().1 - i } else { 0 }), b.text() == b.timeline()[b.point()],
        decreases n - i,
    { b.undo(); i += 1; }
    proof { assert(run_all(b.chain(), 0, b.origin@) == b.origin@); }
}
/// Redo walks forward through the texts to the last one, and stays there.
pub fn theorem_redo_all(b: &mut Buffer, n: usize)
    requires old(b).inv(), old(b).open_ops().len() == 0,
    ensures final(b).inv(), final(b).timeline() == old(b).timeline(),
        final(b).point() == (if old(b).point() + n < old(b).timeline().len() { old(b).point() + n } else { old(b).timeline().len() - 1 }),
        final(b).text() == old(b).timeline()[final(b).point()], final(b).saved == old(b).saved,
{
    let mut i: usize = 0;
    proof { lemma_point(*b); }
    while i < n
        invariant
            0 <= i <= n, b.inv(), b.open_ops().len() == 0, b.saved == old(b).saved, b.timeline() == old(b).timeline(), old(b).point() < old(b).timeline().len(),
            b.point() == (if old(b).point() + i < old(b).timeline().len() { old(b).point() + i } else { old(b).timeline().len() - 1 }),
            b.text() == b.timeline()[b.point()],
        decreases n - i,
    { proof { lemma_point(*b); } b.redo(); i += 1; }
}
/// where a buffer is in its history
pub proof fn lemma_point(b: Buffer)
    requires b.inv(),
    ensures 0 <= b.point() < b.timeline().len(), b.history.nxt().len() == b.timeline().len() - 1 - b.point(),
        b.open_ops().len() == 0 ==> b.text() == b.timeline()[b.point()], b.base() == b.timeline()[b.point()],
        b.timeline()[0] == b.origin@,
{}
/// Redo takes back what undo did.
pub fn theorem_undo_redo(b: &mut Buffer)
    requires old(b).inv(), old(b).flat().1 > 0,
    ensures final(b).inv(), final(b).text() == old(b).text(), final(b).timeline() == old(b).flat().0, final(b).point() == old(b).flat().1,
{
    proof { lemma_point(*b); }
    b.undo();
    proof { lemma_point(*b); }
    b.redo();
}
/// Undo takes back what redo did.
pub fn theorem_redo_undo(b: &mut Buffer)
    requires old(b).inv(), old(b).open_ops().len() == 0, old(b).point() + 1 < old(b).timeline().len(),
    ensures final(b).inv(), final(b).text() == old(b).text(), final(b).timeline() == old(b).timeline(), final(b).point() == old(b).point(),
{
    proof { lemma_point(*b); }
    b.redo();
    proof { lemma_point(*b); }
    b.undo();
}
/// After undoing anything and making a change, inside a group or not, redo does nothing, however often.
pub fn theorem_edit_ends_redo(b: &mut Buffer, undos: usize, text: &str, redos: usize)
    requires old(b).inv(), undos > 0,
    ensures final(b).inv(), final(b).text() == text_insert(old(b).flat().0[if undos <= old(b).flat().1 { old(b).flat().1 - undos } else { 0 }], text.sb(), final(b).cursor.position),
{
    theorem_undo_all(b, undos);
    b.insert(text);
    let mut i: usize = 0;
    let ghost b1 = *b;
    proof { lemma_point(*b); }
    while i < redos
        invariant 0 <= i <= redos, b.inv(), b.text() == b1.text(), b.cursor.position == b1.cursor.position, b.open_ops().len() > 0 || b.history.nxt().len() == 0,
        decreases redos - i,
    {
        proof { lemma_point(*b); }
        b.redo();
        proof { lemma_point(*b); }
        i += 1;
    }
}
/// A group of any changes is one step: one undo takes all of them back, one redo brings all of them again.
pub fn theorem_group(b: &mut Buffer, v: &Vec<String>, places: &Vec<Position>)
    requires old(b).inv(), old(b).operation_group is None, v@.len() == places@.len(), v@.len() > 0,
{
    let ghost b0 = *b;
    let ghost before = b.text();
    proof { lemma_point(*b); }
    b.start_operation_group();
    let mut i: usize = 0;
    while i < v.len()
        invariant
            0 <= i <= v@.len() == places@.len(), b.inv(), b.operation_group is Some, b.history == b0.history, b.origin == b0.origin, b.open_ops().len() >= i,
        decreases v.len() - i,
    {
        let moved = b.cursor.move_to(places[i]);
        b.insert(v[i].as_str());
        b.start_operation_group();
        i += 1;
    }
    b.end_operation_group();
    let ghost after = b.text();
    assert(b.timeline() == b0.timeline().subrange(0, b0.point() + 1).push(after));
    b.undo();
    assert(b.text() == before);
    proof { lemma_point(*b); }
    b.redo();
    assert(b.text() == after);
}
/// Changes made to an unmodified buffer make it modified; going back to that point makes it unmodified, and its text is the saved one.
pub fn theorem_modified(b: &mut Buffer, text: &str)
    requires old(b).inv(), !old(b).is_modified(), old(b).operation_group is None,
{
    proof { lemma_point(*b); }
    let m = b.modified();
    assert(!m);
    b.insert(text);
    let m = b.modified();
    assert(m);
    b.undo();
    let m = b.modified();
    assert(!m && b.text() == old(b).text());
    proof { lemma_point(*b); }
    b.redo();
    let m = b.modified();
    assert(m);
    b.undo();
    b.insert(text);
    let m = b.modified();
    assert(m);
}
/// After a save that succeeds the file holds the text; whenever the buffer is unmodified afterwards, its text is what the file holds.
pub fn theorem_save(b: &mut Buffer, undos: usize, redos: usize, Tracked(vx_fs): Tracked<&mut FsState>)
    requires old(b).inv(), old(b).operation_group is None, undos > 0,
{
    if b.save(Tracked(vx_fs)).is_ok() {
        let ghost saved = b.text();
        let ghost b1 = *b;
        assert(vx_fs.holds(b.save_path(), saved));
        let m = b.modified();
        assert(!m);
        theorem_undo_all(b, undos);
        theorem_redo_all(b, redos);
        let m = b.modified();
        assert(!m ==> b.text() == saved);
    }
}
/// Which positions exist, and what is read between them, depends on the text alone.
pub fn theorem_text_alone(a: &GapBuffer, b: &GapBuffer, p: Position, q: Position)
    requires a.wf(), b.wf(), a.text() == b.text(),
{
    let x = a.in_bounds(&p);
    let y = b.in_bounds(&p);
    assert(x == y);
    let r = Range::new(p, q);
    let x = a.read(&r);
    let y = b.read(&r);
    assert(opt_sb(x) == opt_sb(y));
}
/// The lines of a text, joined, are the text; they are numbered from zero; only their last bytes are line feeds.
pub fn theorem_lines(text: &str) -> (r: Vec<String>)
{
    let mut it = LineIterator::new(text);
    let ghost t = text.sb();
    let ghost all = raw_lines(t, 0, 0);
    let ghost mut out = Seq::<u8>::empty();
    let mut n: usize = 0;
    let v = Vec::new();
    proof { lemma_raw_partition(t, 0, 0); assert(out + joined(all) =~= t); }
    loop
        invariant_except_break it.ok(), it.text() == t, out + joined(it.rest()) == t, n + it.rest().len() == all.len(), all == raw_lines(t, 0, 0), it.rest() == all.subrange(n as int, all.len() as int),
            forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).0 == k,
        ensures out == t, n == all.len(),
        decreases it.rest().len(),
    {
        let ghost rest = it.rest();
        match it.next() {
            Some(x) => {
                proof {
                    assert(x.0 == n);
                    lemma_assoc(out, x.1.sb(), joined(rest.drop_first()));
                    out = out + x.1.sb();
                    assert(rest.drop_first() =~= all.subrange(n + 1, all.len() as int));
                }
                n += 1;
            }
            None => { proof { assert(joined(rest) =~= Seq::empty()); assert(out + joined(rest) =~= out); } break; }
        }
    }
    v
}
/// A path that was opened is not opened again, whatever it is called.
pub fn theorem_open_twice(w: &mut Workspace, p: PathBuf, q: PathBuf, Tracked(vx_fs): Tracked<&mut FsState>)
    requires old(w).ok(), old(w).ids_ok(), old(w).next_buffer_id + 1 < usize::MAX, old(vx_fs).resolve(p.pv()) == old(vx_fs).resolve(q.pv()),
{
    if w.open_buffer(&p, Tracked(vx_fs)).is_ok() {
        let ghost open = w.open();
        let ghost c = w.current_buffer_index->0 as int;
        proof { assert(path_of(open[c]) == vx_fs.resolve(q.pv())); }
        if w.open_buffer(&q, Tracked(vx_fs)).is_ok() {
            assert(w.open() == open);
        }
    }
}
/// Going once around the open buffers, in either direction, ends at the buffer it started from and changes none of them.
pub fn theorem_tour(w: &mut Workspace, n: usize, forward: bool)
    requires old(w).ok(), n == old(w).open().len(), old(w).current_buffer_index is Some, n < isize::MAX,
    ensures final(w).ok(), final(w).open() == old(w).open(), final(w).current_buffer_index == old(w).current_buffer_index,
{
    let ghost i0 = w.current_buffer_index->0 as int;
    let mut k: usize = 0;
    while k < n
        invariant
            0 <= k <= n, n == old(w).open().len(), n < isize::MAX, w.ok(), w.open() == old(w).open(), w.current_buffer_index is Some, 0 <= i0 < n,
            w.current_buffer_index->0 == (if forward { if i0 + k < n { i0 + k } else { i0 + k - n } } else { if i0 - k >= 0 { i0 - k } else { i0 - k + n } }),
        decreases n - k,
    {
        if forward { w.next_buffer(); } else { w.previous_buffer(); }
        k += 1;
    }
}
/// The tokens of a text, joined, are the text; they come line by line, in order, each starting where the one before ended,
/// at the position of that place, with the scopes that the definition's events up to there add up to.
/// There is an error only if the definition does not cope with the text.
pub fn theorem_tokens(ts: &TokenSet) -> (r: Option<Error>)
    ensures r is Some ==> !copes(parser_start(*ts.syntax_definition), *ts.syntaxes, ts.data.sb()),
{
    hide(raw_lines); hide(after); hide(scope_of); hide(token_column); hide(parser_at); hide(no_lf); hide(TokenIterator::scoped); hide(TokenIterator::ok); hide(TokenIterator::scope_at); hide(copes);
    let mut it = match ts.iter() { Ok(it) => it, Err(e) => { return Some(e); } };
    let ghost t = ts.data.sb();
    let ghost (p, ss) = (parser_start(*ts.syntax_definition), *ts.syntaxes);
    let ghost mut out = Seq::<u8>::empty();
    let ghost mut at = 0int;
    assert(out + it.left() =~= t);
    loop
        invariant_except_break it.ok(), it.text() == t, out + it.left() == t, it.error is None, it.scoped(), it.start@ == p, *it.syntaxes == ss, at == it.reached(),
        ensures it.error is None ==> out == t, it.error is Some ==> !copes(p, ss, t),
        decreases it.lines.rest().len(), if it.current_line is Some { it.line_events@.len() + 1 } else { 0 },
    {
        let ghost b = it;
        match it.next() {
            Some(Token::Lexeme(l)) => {
                proof {
                    lemma_assoc(out, l.value.sb(), it.left());
                    out = out + l.value.sb();
                    assert(l.position.line == b.line() && l.position.offset == token_column(raw_lines(t, 0, 0)[b.line()].1, at));
                    assert(l.value.sb().len() > 0 ==> l.scope == scope_of(p, ss, t, b.line(), at));
                    assert(it.line() == b.line());
                    assert(b.left().len() == l.value.sb().len() + it.left().len());
                    at = at + l.value.sb().len();
                }
            }
            Some(Token::Newline) => { proof { lemma_assoc(out, NL(), it.left()); out = out + NL(); at = 0; } }
            None => { proof { if it.error is None { assert(b.left() =~= Seq::empty()); assert(out + b.left() =~= out); } } break; }
        }
    }
    it.error
}
