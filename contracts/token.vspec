//@ module token_iterator
//@ struct TokenIterator
pub start: Ghost<ParseState>,
//@ init TokenIterator
start: Ghost(parser_start(*def))
//@ raw
/// the parser before it parses line k of a text, when it has parsed the lines before
pub open spec fn parser_at(p: ParseState, ss: SyntaxSet, t: Seq<u8>, k: int) -> ParseState decreases k {
    if k <= 0 { p } else { parser_after(parser_at(p, ss, t, k - 1), raw_lines(t, 0, 0)[k - 1].1, ss) }
}
/// the events of line k, last one first
pub open spec fn events_of(p: ParseState, ss: SyntaxSet, t: Seq<u8>, k: int) -> Seq<(usize, ScopeStackOp)> { parsed(parser_at(p, ss, t, k), raw_lines(t, 0, 0)[k].1, ss).reverse() }
/// the scope stack before line k, and at byte b of line k: what the events of the lines before, and those of the line up to b, add up to
pub open spec fn scope_start(p: ParseState, ss: SyntaxSet, t: Seq<u8>, k: int) -> ScopeStack decreases k, 0int {
    if k <= 0 { no_scopes() } else { settled(scope_start(p, ss, t, k - 1), events_of(p, ss, t, k - 1), usize::MAX as int) }
}
pub open spec fn scope_of(p: ParseState, ss: SyntaxSet, t: Seq<u8>, k: int, b: int) -> ScopeStack { settled(scope_start(p, ss, t, k), events_of(p, ss, t, k), b) }
/// a raw line without its line feed
pub open spec fn no_lf(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { l.drop_last() } else { l } }
/// the text of further lines, each after a line feed
pub open spec fn after(l: Seq<(int, Seq<u8>)>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { NL() + no_lf(l[0].1) + after(l.drop_first()) } }
/// how many grapheme clusters of a line start before byte b
pub open spec fn clusters_before(gs: Seq<Seq<u8>>, n: int, b: int) -> int decreases n { if n <= 0 { 0 } else { clusters_before(gs, n - 1, b) + if byte_at(gs, n - 1) < b { 1int } else { 0 } } }
pub open spec fn token_column(line: Seq<u8>, b: int) -> int { clusters_before(graphemes(line), graphemes(line).len() as int, b) }
/// the events of a line, last one first
pub open spec fn events_left(ev: Seq<(usize, ScopeStackOp)>, line: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < ev.len() ==> (#[trigger] ev[i]).0 <= line.len() && boundary(line, ev[i].0 as int)
    &&& forall|i: int, j: int| 0 <= i <= j < ev.len() ==> (#[trigger] ev[i]).0 >= (#[trigger] ev[j]).0
}
pub proof fn lemma_events_reverse(ev: Seq<(usize, ScopeStackOp)>, line: Seq<u8>)
    requires events_ok(ev, line), ensures events_left(ev.reverse(), line),
{
    let r = ev.reverse();
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0 <= line.len() && boundary(line, r[i].0 as int) by { assert(r[i] == ev[ev.len() - 1 - i]); }
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies (#[trigger] r[i]).0 >= (#[trigger] r[j]).0 by { assert(r[i] == ev[ev.len() - 1 - i] && r[j] == ev[ev.len() - 1 - j]); }
}
/// taking a lexeme from a line: what is left
pub proof fn lemma_take(l: Seq<u8>, rest: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= l.len(),
    ensures l.subrange(a, l.len() as int) + rest == l.subrange(a, b) + (l.subrange(b, l.len() as int) + rest),
{ assert(l.subrange(a, l.len() as int) =~= l.subrange(a, b) + l.subrange(b, l.len() as int)); assert(l.subrange(a, l.len() as int) + rest =~= l.subrange(a, b) + (l.subrange(b, l.len() as int) + rest)); }
pub proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures a + b + c == a + (b + c) { assert(a + b + c =~= a + (b + c)); }
pub proof fn lemma_cut(t: Seq<u8>, i: int, e: int)
    requires 0 <= i < e <= t.len(), t[e - 1] == 10u8,
    ensures t.subrange(i, t.len() as int) == t.subrange(i, e - 1) + (NL() + t.subrange(e, t.len() as int)), no_lf(t.subrange(i, e)) == t.subrange(i, e - 1),
{
    let (u, a, b, w) = (t.subrange(i, t.len() as int), t.subrange(i, e - 1), t.subrange(e, t.len() as int), NL() + t.subrange(e, t.len() as int));
    assert(w.len() == t.len() - e + 1);
    assert forall|k: int| 0 <= k < u.len() implies #[trigger] u[k] == (a + w)[k] by {
        if k < e - 1 - i { assert((a + w)[k] == a[k]); } else { assert((a + w)[k] == w[k - (e - 1 - i)]); if k > e - 1 - i { assert(w[k - (e - 1 - i)] == b[k - (e - i)]); } else { assert(w[0] == 10u8); } }
    }
    assert(u =~= a + w);
    assert(t.subrange(i, e).last() == 10u8);
    assert(t.subrange(i, e).drop_last() =~= a);
}
pub proof fn lemma_after_head(q: Seq<(int, Seq<u8>)>)
    requires q.len() >= 1, ensures after(q) == NL() + (no_lf(q[0].1) + after(q.drop_first())),
{ lemma_assoc(NL(), no_lf(q[0].1), after(q.drop_first())); }
/// The text is its first line, and then the others after line feeds.
pub proof fn lemma_after(t: Seq<u8>, i: int, n: int)
    requires 0 <= i <= t.len(),
    ensures raw_lines(t, i, n).len() >= 1, no_lf(raw_lines(t, i, n)[0].1) + after(raw_lines(t, i, n).drop_first()) == t.subrange(i, t.len() as int),
    decreases t.len() - i,
{
    hide(after);
    lemma_raw_end(t, i);
    let e = raw_end(t, i);
    let r = raw_lines(t, i, n);
    if i < e && t[e - 1] == 10u8 {
        let q = raw_lines(t, e, n + 1);
        assert(r == seq![(n, t.subrange(i, e))] + q);
        assert(r[0] == (n, t.subrange(i, e)));
        assert(r.drop_first() =~= q);
        lemma_after(t, e, n + 1);
        lemma_after_head(q);
        lemma_cut(t, i, e);
    } else {
        assert(r == seq![(n, t.subrange(i, e))]);
        assert(r.drop_first() =~= Seq::empty());
        let l = t.subrange(i, t.len() as int);
        assert(e == t.len());
        assert(r[0].1 == l);
        if l.len() > 0 { assert(l.last() == t[e - 1]); }
        assert(after(r.drop_first()) == Seq::<u8>::empty()) by { reveal(after); }
        assert(l + Seq::<u8>::empty() =~= l);
    }
}
pub proof fn lemma_clusters_before(gs: Seq<Seq<u8>>, n: int, b: int, k: int)
    requires 0 <= k <= n <= gs.len(), forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() > 0,
        k < n ==> byte_at(gs, k) >= b, k > 0 ==> byte_at(gs, k - 1) < b,
    ensures clusters_before(gs, n, b) == k,
    decreases n,
{
    if n > 0 {
        if k < n { lemma_byte_mono(gs, k, n - 1); lemma_clusters_before(gs, n - 1, b, k); }
        else {
            if n > 1 { lemma_byte_mono(gs, n - 2, n - 1); assert(gs[n-2].len() > 0); lemma_byte_mono(gs, n - 2, n - 2); assert(byte_at(gs, n - 1) == byte_at(gs, n - 2) + gs[n - 2].len()); lemma_clusters_before(gs, n - 1, b, n - 1); }
            else { assert(clusters_before(gs, 0, b) == 0); }
        }
    }
}
/// the scope stack once the pending events up to byte b have been applied
pub open spec fn settled(s: ScopeStack, ev: Seq<(usize, ScopeStackOp)>, b: int) -> ScopeStack decreases ev.len() {
    if ev.len() == 0 || ev.last().0 > b { s } else { settled(applied(s, ev.last().1), ev.drop_last(), b) }
}
/// all the pending events can be applied
pub open spec fn settles(s: ScopeStack, ev: Seq<(usize, ScopeStackOp)>) -> bool decreases ev.len() {
    ev.len() == 0 || (applies(s, ev.last().1) && settles(applied(s, ev.last().1), ev.drop_last()))
}
/// the definition copes with the text: every line can be parsed, and its events can be applied
pub open spec fn copes(p: ParseState, ss: SyntaxSet, t: Seq<u8>) -> bool {
    forall|k: int| 0 <= k < raw_lines(t, 0, 0).len() ==> parses(#[trigger] parser_at(p, ss, t, k), raw_lines(t, 0, 0)[k].1, ss) && settles(scope_start(p, ss, t, k), events_of(p, ss, t, k))
}
impl<'a> TokenIterator<'a> {
    pub open spec fn coping(&self) -> bool { copes(self.start@, *self.syntaxes, self.text()) }
    /// the scope at byte b of the current line, and at its end
    pub open spec fn scope_at(&self, b: int) -> ScopeStack { settled(self.scopes, self.line_events@, b) }
    pub open spec fn end_scope(&self) -> ScopeStack { self.scope_at(usize::MAX as int) }
    pub open spec fn text(&self) -> Seq<u8> { self.lines.text() }
    /// what is left of the current line
    pub open spec fn line_left(&self) -> Seq<u8> {
        match self.current_line {
            Some(l) => if self.current_byte_offset <= no_lf(l.sb()).len() { no_lf(l.sb()).subrange(self.current_byte_offset as int, no_lf(l.sb()).len() as int) } else { Seq::empty() },
            None => Seq::empty(),
        }
    }
    /// the text it has not yielded yet
    pub open spec fn left(&self) -> Seq<u8> { self.line_left() + after(self.lines.rest()) }
    /// the number of the line it is on
    pub open spec fn line(&self) -> int { raw_lines(self.text(), 0, 0).len() - 1 - self.lines.rest().len() }
    pub open spec fn ok(&self) -> bool {
        let all = raw_lines(self.text(), 0, 0);
        &&& self.lines.ok() && valid_utf8(self.text())
        &&& self.lines.rest().len() <= all.len() && self.lines.rest() == all.subrange(all.len() - self.lines.rest().len(), all.len() as int)
        &&& self.current_line is None ==> self.line_events@.len() == 0
        &&& self.current_line is Some ==> {
            let l = self.current_line->0.sb();
            &&& self.line() >= 0 && l == all[self.line()].1 && self.current_position.line == self.line()
            &&& self.current_byte_offset <= l.len() && boundary(l, self.current_byte_offset as int)
            &&& self.current_byte_offset <= no_lf(l).len() ==> self.current_position.offset == token_column(l, self.current_byte_offset as int)
            &&& events_left(self.line_events@, l)
            &&& self.line_graphemes@.len() == graphemes(l).len() && forall|k: int| 0 <= k < graphemes(l).len() ==> (#[trigger] self.line_graphemes@[k]) == byte_at(graphemes(l), k)
        }
    }
    /// the byte of its line that the iterator has reached
    pub open spec fn reached(&self) -> int { no_lf(raw_lines(self.text(), 0, 0)[self.line()].1).len() - self.line_left().len() }
    /// as long as there was no error: scopes, pending events and parser are what the definition makes of the text so far
    pub open spec fn scoped(&self) -> bool {
        let (p, ss, t) = (self.start@, *self.syntaxes, self.text());
        &&& self.parser == parser_at(p, ss, t, self.line() + 1)
        &&& if self.current_line is Some {
                (forall|x: int| #![trigger self.scope_at(x)] #![trigger scope_of(p, ss, t, self.line(), x)] x >= self.current_byte_offset ==> self.scope_at(x) == scope_of(p, ss, t, self.line(), x))
                && (settles(scope_start(p, ss, t, self.line()), events_of(p, ss, t, self.line())) ==> settles(self.scopes, self.line_events@))
            } else { self.scopes == scope_start(p, ss, t, self.line() + 1) }
    }
    /// a lexeme at the place the iterator has reached
    pub open spec fn is_next(&self, l: Lexeme<'a>) -> bool {
        &&& self.current_line is Some
        &&& l.scope == self.scope_at(self.current_byte_offset as int)
        &&& l.position.line == self.line()
        &&& l.position.offset == token_column(raw_lines(self.text(), 0, 0)[self.line()].1, self.reached())
        &&& self.scoped() ==> l.scope == scope_of(self.start@, *self.syntaxes, self.text(), self.line(), self.current_byte_offset as int)
            && (l.value.sb().len() > 0 ==> self.current_byte_offset == self.reached())
    }
}
/// the scopes of what is left of the line are as they were
pub open spec fn scopes_kept<'a>(a: TokenIterator<'a>, b: TokenIterator<'a>) -> bool {
    &&& b.current_line is Some ==> forall|x: int| #![trigger b.scope_at(x)] #![trigger a.scope_at(x)] x >= b.current_byte_offset ==> b.scope_at(x) == a.scope_at(x)
    &&& b.end_scope() == a.end_scope() && b.syntaxes == a.syntaxes && b.parser == a.parser && b.start == a.start
    &&& a.scoped() ==> b.scoped()
}
/// the clusters of a line and of the line with its terminator
pub proof fn lemma_chomp_graphemes(raw: Seq<u8>)
    requires valid_utf8(raw), valid_utf8(chomp(raw)),
    ensures graphemes(raw) == graphemes(chomp(raw)) + (if raw == chomp(raw) { Seq::<Seq<u8>>::empty() } else { seq![raw.subrange(chomp(raw).len() as int, raw.len() as int)] }),
{
    let d = chomp(raw);
    let gd = graphemes(d);
    let e = Seq::<u8>::empty();
    assert(valid_utf8(e)) by { lemma_ends_boundary(raw); lemma_split(raw, 0); assert(raw.subrange(0, 0) =~= e); }
    lemma_empty_graphemes(e);
    assert(graphemes(e) =~= Seq::<Seq<u8>>::empty());
    if raw.len() > 0 && raw.last() == 10u8 {
        let h = raw.drop_last();
        let nl = if h.len() > 0 && h.last() == 13u8 { CRLF() } else { NL() };
        assert(raw =~= d + nl + e);
        assert(nl =~= raw.subrange(d.len() as int, raw.len() as int));
        assert(raw.len() != d.len());
        axiom_graphemes_split(d, nl, e);
        assert(gd + seq![nl] + Seq::<Seq<u8>>::empty() =~= gd + seq![nl]);
    } else { assert(raw == d); assert(gd + Seq::<Seq<u8>>::empty() =~= gd); }
}
pub proof fn lemma_column(gd: Seq<Seq<u8>>, x: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= gd.len(), forall|i: int| 0 <= i < (gd + x).len() ==> (#[trigger] (gd + x)[i]).len() > 0,
    ensures clusters_before(gd + x, (gd + x).len() as int, byte_at(gd, k)) == k,
{
    lemma_prefix(gd, x, k);
    if k > 0 { assert((gd + x)[k - 1].len() > 0); assert(byte_at(gd + x, k) == byte_at(gd + x, k - 1) + (gd + x)[k - 1].len()); }
    lemma_clusters_before(gd + x, (gd + x).len() as int, byte_at(gd, k), k);
}
/// A token that starts at a cluster boundary of its line is positioned where the text has that place.
pub proof fn lemma_token_place(t: Seq<u8>, j: int, k: int)
    requires valid_utf8(t), on_line(t, j, k),
    ensures token_column(raw_lines(t, 0, 0)[j].1, byte_at(graphemes(dlines(t)[j]), k)) == k,
        place(t, j, k) == Some(line_start(t, j) + byte_at(graphemes(dlines(t)[j]), k)),
{
    hide(raw_lines); hide(dlines); hide(chomp); hide(byte_at); hide(clusters_before);
    lemma_doc(t, j, k);
    assert(t.subrange(0, t.len() as int) =~= t);
    lemma_raw_dlines(t, 0, 0);
    let raw = raw_lines(t, 0, 0)[j].1;
    let d = dlines(t)[j];
    assert(chomp(raw) == d);
    lemma_ends_boundary(t);
    lemma_raw_valid(t, 0, 0, j);
    lemma_chomp_graphemes(raw);
    axiom_graphemes_partition(raw);
    lemma_column(graphemes(d), if raw == d { Seq::<Seq<u8>>::empty() } else { seq![raw.subrange(d.len() as int, raw.len() as int)] }, k);
}
/// raw lines of a valid text are valid
pub proof fn lemma_raw_valid(t: Seq<u8>, i: int, n: int, k: int)
    requires valid_utf8(t), boundary(t, i), 0 <= k < raw_lines(t, i, n).len(),
    ensures valid_utf8(raw_lines(t, i, n)[k].1),
    decreases t.len() - i,
{
    lemma_raw_end(t, i);
    let e = raw_end(t, i);
    if i < e && t[e - 1] == 10u8 {
        let u = t.subrange(i, t.len() as int);
        lemma_split(t, i);
        lemma_after_lf(u, e - 1 - i);
        let v = t.subrange(e, t.len() as int);
        assert(u.subrange(e - i, u.len() as int) =~= v);
        lemma_ends_boundary(v);
        lemma_ends_boundary(t);
        if e < t.len() { assert(v[0] == t[e]); }
        lemma_boundaries(t, i, e);
        if k > 0 { lemma_raw_valid(t, e, n + 1, k - 1); }
    } else { lemma_ends_boundary(t); lemma_boundaries(t, i, e); }
}
//@ fn TokenIterator::new
//@ ret r
//@ spec
    ensures match r { Ok(it) => it.scoped() && it.start@ == parser_start(*def) && it.scopes == no_scopes() && it.syntaxes == syntaxes && it.line_events@ == parsed(parser_start(*def), raw_lines(data.sb(), 0, 0)[0].1, *syntaxes).reverse() && it.ok() && it.reached() == 0 && it.text() == data.sb() && it.left() == data.sb() && it.error is None && it.current_line is Some && it.line() == 0, Err(_) => !copes(parser_start(*def), *syntaxes, data.sb()) },
//@ at entry
proof { lemma_str_valid(data); lemma_after(data.sb(), 0, 0); assert(data.sb().subrange(0, data.sb().len() as int) =~= data.sb());
    let all = raw_lines(data.sb(), 0, 0); assert(all.subrange(0, all.len() as int) =~= all); }
//@ fn TokenIterator::parse_next_line
//@ attr #[verifier::rlimit(60)]
//@ ret r
//@ spec
    requires old(self).ok(), old(self).current_line is None,
    ensures final(self).text() == old(self).text(), final(self).error == old(self).error, final(self).syntaxes == old(self).syntaxes, final(self).start == old(self).start,
        match r {
            Ok(_) => (old(self).scoped() ==> final(self).scoped()) && final(self).ok() && if old(self).lines.rest().len() > 0 {
                    &&& final(self).lines.rest() == old(self).lines.rest().drop_first()
                    &&& final(self).scopes == old(self).scopes && final(self).line_events@ == parsed(old(self).parser, old(self).lines.rest()[0].1, *old(self).syntaxes).reverse()
                    &&& final(self).current_line is Some && final(self).reached() == 0 && final(self).left() == no_lf(old(self).lines.rest()[0].1) + after(old(self).lines.rest().drop_first())
                } else { final(self).current_line is None && final(self).lines.rest().len() == 0 },
            Err(_) => final(self).ok() && (old(self).scoped() ==> !old(self).coping()),
        },
//@ at entry
proof {
    let all = raw_lines(self.text(), 0, 0);
    let r = self.lines.rest();
    lemma_raw_partition(self.text(), 0, 0);
    if r.len() > 0 { assert(r.drop_first() =~= all.subrange(all.len() - (r.len() - 1), all.len() as int)); assert(r[0] == all[all.len() - r.len()]); }
}
//@ at before vx_reverse#0
proof {
    lemma_str_valid(line); lemma_ends_boundary(line.sb()); axiom_graphemes_partition(line.sb());
    lemma_clusters_before(graphemes(line.sb()), graphemes(line.sb()).len() as int, 0, 0);
    assert(no_lf(line.sb()).subrange(0, no_lf(line.sb()).len() as int) =~= no_lf(line.sb()));
    lemma_events_reverse(line_events@, line.sb());
    assert forall|k: int| 0 <= k < graphemes(line.sb()).len() implies byte_at(graphemes(line.sb()), k) <= line.sb().len() by { lemma_byte_mono(graphemes(line.sb()), k, graphemes(line.sb()).len() as int); }
}
//@ loop 0
    invariant
        vx_it0.wf(), vx_it0.all().len() == graphemes(line.sb()).len(), vx_out0@.len() == vx_it0.pos(),
        forall|i: int| 0 <= i < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[i]).0 == byte_at(graphemes(line.sb()), i),
        forall|i: int| 0 <= i < vx_out0@.len() ==> (#[trigger] vx_out0@[i]) == byte_at(graphemes(line.sb()), i),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at exit
proof {
    let all = raw_lines(self.text(), 0, 0);
    assert(self.lines.rest() =~= all.subrange(all.len() - self.lines.rest().len(), all.len() as int));
    assert(self.lines.rest().len() <= all.len());
    assert(self.ok());
    if self.current_line is Some { assert(self.line_left() == no_lf(self.current_line->0.sb())); }
    assert(vx_ret is Ok);
}
//@ fn TokenIterator::build_next_token
//@ attr #[verifier::rlimit(60)]
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).text() == old(self).text(), final(self).error == old(self).error, final(self).lines == old(self).lines,
        r matches Ok(Some(_)) ==> old(self).current_line is Some && (final(self).current_line is None || final(self).line_events@.len() < old(self).line_events@.len()),
        match r {
            Ok(Some(Token::Lexeme(l))) => old(self).is_next(l) && old(self).left() == l.value.sb() + final(self).left() && scopes_kept(*old(self), *final(self)),
            Ok(Some(Token::Newline)) => false,
            Ok(None) => old(self).line_left().len() == 0 && final(self).current_line is None && scopes_kept(*old(self), *final(self)),
            Err(_) => old(self).scoped() ==> !old(self).coping(),
        },
//@ at loop0.before
proof { lemma_str_valid(line); lemma_ends_boundary(line.sb()); axiom_graphemes_partition(line.sb()); }
//@ loop 0
    invariant
        self.ok(), self.current_line == Some(line), self.text() == old(self).text(), self.error == old(self).error, self.lines == old(self).lines,
        forall|x: int| #![trigger self.scope_at(x)] #![trigger old(self).scope_at(x)] x >= self.current_byte_offset ==> self.scope_at(x) == old(self).scope_at(x), self.current_byte_offset <= usize::MAX,
        settles(old(self).scopes, old(self).line_events@) ==> settles(self.scopes, self.line_events@),
        self.syntaxes == old(self).syntaxes, self.parser == old(self).parser, self.start == old(self).start, self.line_events@.len() <= old(self).line_events@.len(),
        old(self).current_line == Some(line), self.line_graphemes == old(self).line_graphemes,
        self.current_byte_offset == old(self).current_byte_offset, self.current_position == old(self).current_position,
        end_of_line == no_lf(line.sb()).len(), boundary(line.sb(), end_of_line as int), lexeme is None,
        valid_utf8(line.sb()), old(self).ok(),
        forall|k: int| 0 <= k < graphemes(line.sb()).len() ==> (#[trigger] graphemes(line.sb())[k]).len() > 0,
    ensures self.line_events@.len() == 0,
    decreases self.line_events@.len(),
//@ at loop0.start
let ghost gs = graphemes(line.sb());
//@ loop 1
    invariant
        forall|k: int| 0 <= k < gs.len() ==> (#[trigger] gs[k]).len() > 0,
        if vx_past0 { vx_n0 < vx_it0.pos() && byte_at(gs, vx_n0 as int) >= end_of_token } else { vx_n0 == vx_it0.pos() },
        vx_it0.wf(), vx_it0.all().len() == self.line_graphemes@.len(), gs == graphemes(line.sb()),
        forall|k: int| 0 <= k < vx_it0.all().len() ==> *(#[trigger] vx_it0.all()[k]) == self.line_graphemes@[k],
        self.line_graphemes@.len() == gs.len(), forall|k: int| 0 <= k < gs.len() ==> (#[trigger] self.line_graphemes@[k]) == byte_at(gs, k),
        vx_n0 <= gs.len(), vx_n0 > 0 ==> byte_at(gs, vx_n0 - 1) < end_of_token,
    ensures vx_n0 < gs.len() ==> byte_at(gs, vx_n0 as int) >= end_of_token,
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop1.start
proof { if vx_past0 { lemma_byte_mono(gs, vx_n0 as int, vx_it0.pos() - 1); } }
//@ at loop1.after
proof { lemma_clusters_before(gs, gs.len() as int, end_of_token as int, vx_n0 as int); }
//@ at exit
proof {
    if old(self).current_line is Some && old(self).scoped() {
        let (p, ss, t, k, m) = (self.start@, *self.syntaxes, self.text(), old(self).line(), usize::MAX as int);
        assert(self.line() == k && self.line_events@.len() == 0);
        assert(self.scope_at(m) == old(self).scope_at(m) && old(self).scope_at(m) == scope_of(p, ss, t, k, m));
        assert(scope_start(p, ss, t, k + 1) == scope_of(p, ss, t, k, m));
    }
}
//@ fn TokenIterator::next
//@ arg Item Token<'a>
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).text() == old(self).text(),
        r is Some ==> final(self).lines.rest().len() < old(self).lines.rest().len() || (final(self).lines == old(self).lines && old(self).current_line is Some
            && (final(self).current_line is None || final(self).line_events@.len() < old(self).line_events@.len())),
        match r {
            Some(Token::Lexeme(l)) => final(self).lines == old(self).lines && old(self).is_next(l) && old(self).left() == l.value.sb() + final(self).left() && final(self).error == old(self).error && scopes_kept(*old(self), *final(self)),
            Some(Token::Newline) => (old(self).scoped() ==> final(self).scoped()) && final(self).start == old(self).start && final(self).syntaxes == old(self).syntaxes && final(self).reached() == 0 && old(self).left() == NL() + final(self).left() && final(self).scopes == old(self).end_scope() && final(self).line() == old(self).line() + 1
                && final(self).line_events@ == parsed(old(self).parser, raw_lines(old(self).text(), 0, 0)[final(self).line()].1, *old(self).syntaxes).reverse() && final(self).error == old(self).error,
            None => (final(self).error is Some && (old(self).error is Some || (old(self).scoped() ==> !old(self).coping()))) || (final(self).error == old(self).error && old(self).left().len() == 0 && final(self).left().len() == 0),
        },
//@ module token_set
//@ fn TokenSet::new
//@ ret r
//@ spec
    ensures r.data == data, r.syntax_definition == def, r.syntaxes == syntaxes,
//@ fn TokenSet::iter
//@ ret r
//@ spec
    ensures match r { Ok(it) => it.ok() && it.text() == self.data.sb() && it.left() == self.data.sb() && it.error is None
        && it.scoped() && it.reached() == 0 && it.start@ == parser_start(*self.syntax_definition) && it.scopes == no_scopes() && it.syntaxes == self.syntaxes && it.current_line is Some && it.line() == 0
        && it.line_events@ == parsed(parser_start(*self.syntax_definition), raw_lines(self.data.sb(), 0, 0)[0].1, *self.syntaxes).reverse(), Err(_) => !copes(parser_start(*self.syntax_definition), *self.syntaxes, self.data.sb()) },
