//@ module distance
//@ raw
// ------------------------------------------------------------------ a text as a list of lines
/// The lines of a document: what lies between its line endings (LF or CR LF); a line ending always starts another line.
pub open spec fn dlines(t: Seq<u8>) -> Seq<Seq<u8>> decreases t.len() {
    let e = next_lf(t, 0);
    if 0 <= e < t.len() { seq![strip_cr(t.subrange(0, e))] + dlines(t.subrange(e + 1, t.len() as int)) } else { seq![t] }
}
/// the offset at which a line starts
pub open spec fn line_start(t: Seq<u8>, n: int) -> int decreases t.len() {
    let e = next_lf(t, 0);
    if n <= 0 || !(0 <= e < t.len()) { 0 } else { e + 1 + line_start(t.subrange(e + 1, t.len() as int), n - 1) }
}
/// the number of grapheme clusters on a line
pub open spec fn line_len(t: Seq<u8>, n: int) -> int { graphemes(dlines(t)[n]).len() as int }
pub open spec fn line_count(t: Seq<u8>) -> int { dlines(t).len() as int }
/// where a (line, grapheme offset) pair is, read off the list of lines
pub open spec fn on_line(t: Seq<u8>, n: int, k: int) -> bool { 0 <= n < line_count(t) && 0 <= k <= line_len(t, n) }
pub open spec fn line_place(t: Seq<u8>, n: int, k: int) -> Option<int> {
    if on_line(t, n, k) { Some(line_start(t, n) + byte_at(graphemes(dlines(t)[n]), k)) } else { None }
}

pub proof fn lemma_next_lf(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= next_lf(t, i) <= t.len(), next_lf(t, i) < t.len() ==> t[next_lf(t, i)] == 10u8,
        forall|j: int| i <= j < next_lf(t, i) ==> t[j] != 10u8,
    decreases t.len() - i,
{ if i < t.len() && t[i] != 10u8 { lemma_next_lf(t, i + 1); } }
/// what follows a line feed in a valid text is valid
pub proof fn lemma_after_lf(t: Seq<u8>, e: int)
    requires valid_utf8(t), 0 <= e < t.len(), t[e] == 10u8,
    ensures valid_utf8(t.subrange(0, e)), valid_utf8(t.subrange(e + 1, t.len() as int)),
        e > 0 && t[e - 1] == 13u8 ==> valid_utf8(t.subrange(0, e - 1)),
{
    assert(!is_continuation_byte(10u8) && !is_continuation_byte(13u8)) by (compute);
    lemma_split(t, e);
    if e > 0 && t[e - 1] == 13u8 { lemma_split(t, e - 1); }
    let u = t.subrange(e, t.len() as int);
    assert(u.subrange(1, u.len() as int) =~= t.subrange(e + 1, t.len() as int));
    assert(pop_first_scalar(u) =~= u.subrange(1, u.len() as int));
}
/// the first line of a text, its ending, and the rest
pub proof fn lemma_first_line(t: Seq<u8>) -> (r: (Seq<u8>, Seq<u8>, Seq<u8>))
    requires valid_utf8(t), next_lf(t, 0) < t.len(),
    ensures t == r.0 + r.1 + r.2, r.1 == NL() || r.1 == CRLF(), valid_utf8(r.0), valid_utf8(r.2), !r.0.contains(10u8),
        r.0 == strip_cr(t.subrange(0, next_lf(t, 0))), r.2 == t.subrange(next_lf(t, 0) + 1, t.len() as int),
        r.0.len() + r.1.len() == next_lf(t, 0) + 1,
        graphemes(t) == graphemes(r.0) + seq![r.1] + graphemes(r.2),
{
    lemma_next_lf(t, 0);
    let e = next_lf(t, 0);
    lemma_after_lf(t, e);
    let p = t.subrange(0, e);
    let b = t.subrange(e + 1, t.len() as int);
    if e > 0 && t[e - 1] == 13u8 {
        let a = t.subrange(0, e - 1);
        assert(p.drop_last() =~= a);
        assert(t =~= a + CRLF() + b);
        axiom_graphemes_split(a, CRLF(), b);
        (a, CRLF(), b)
    } else {
        assert(t =~= p + NL() + b);
        axiom_graphemes_split(p, NL(), b);
        (p, NL(), b)
    }
}
/// no line ending, no line ending among the graphemes
pub proof fn lemma_one_line(t: Seq<u8>, k: int)
    requires valid_utf8(t), !t.contains(10u8), 0 <= k <= graphemes(t).len(),
    ensures pos_at(graphemes(t), k) == (0int, k), 0 <= k < graphemes(t).len() ==> !is_nl(graphemes(t)[k]),
    decreases k,
{
    axiom_graphemes_partition(t);
    if k < graphemes(t).len() && is_nl(graphemes(t)[k]) {
        let g = graphemes(t)[k];
        lemma_byte_mono(graphemes(t), k + 1, graphemes(t).len() as int);
        lemma_byte_mono(graphemes(t), 0, k);
        let i = g.len() - 1;
        assert(g[i] == 10u8);
        assert(t[byte_at(graphemes(t), k) + i] == 10u8);
    }
    if k > 0 { lemma_one_line(t, k - 1); }
}
pub proof fn lemma_prefix(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, k: int)
    requires 0 <= k <= a.len(),
    ensures byte_at(a + b, k) == byte_at(a, k), pos_at(a + b, k) == pos_at(a, k),
    decreases k,
{ if k > 0 { lemma_prefix(a, b, k - 1); assert((a + b)[k - 1] == a[k - 1]); } }
/// positions in what follows a line ending
pub proof fn lemma_suffix(a: Seq<Seq<u8>>, nl: Seq<u8>, b: Seq<Seq<u8>>, k: int)
    requires is_nl(nl), 0 <= k <= b.len(),
    ensures byte_at(a + seq![nl] + b, a.len() + 1 + k) == byte_at(a, a.len() as int) + nl.len() + byte_at(b, k),
        pos_at(a + seq![nl] + b, a.len() + 1 + k) == (pos_at(a, a.len() as int).0 + 1 + pos_at(b, k).0, pos_at(b, k).1),
    decreases k,
{
    let s = a + seq![nl] + b;
    if k == 0 {
        assert(s =~= a + (seq![nl] + b));
        lemma_prefix(a, seq![nl] + b, a.len() as int);
        assert(s[a.len() as int] == nl);
    } else {
        lemma_suffix(a, nl, b, k - 1);
        assert(s[a.len() + k] == b[k - 1]);
    }
}
pub proof fn lemma_lines_bounds(t: Seq<u8>)
    ensures line_count(t) >= 1, line_count(t) <= t.len() + 1, decreases t.len(),
{ lemma_next_lf(t, 0); let e = next_lf(t, 0); if e < t.len() { lemma_lines_bounds(t.subrange(e + 1, t.len() as int)); } }
/// where the positions are when a line comes first
pub proof fn lemma_is_at_cut(h: Seq<u8>, nl: Seq<u8>, gb: Seq<Seq<u8>>, c: int, n: int, k: int)
    requires valid_utf8(h), !h.contains(10u8), is_nl(nl),
    ensures ({
        let gh = graphemes(h);
        &&& is_at(gh + seq![nl] + gb, c, n, k) <==> if c <= gh.len() { 0 <= c && n == 0 && k == c } else { is_at(gb, c - gh.len() - 1, n - 1, k) }
        &&& 0 <= c <= gh.len() ==> byte_at(gh + seq![nl] + gb, c) == byte_at(gh, c)
        &&& gh.len() < c <= (gh + seq![nl] + gb).len() ==> byte_at(gh + seq![nl] + gb, c) == h.len() + nl.len() + byte_at(gb, c - gh.len() - 1)
    }),
{
    let gh = graphemes(h);
    let gs = gh + seq![nl] + gb;
    assert(gs.len() == gh.len() + 1 + gb.len());
    lemma_one_line(h, gh.len() as int);
    assert(byte_at(gh, gh.len() as int) == h.len()) by { axiom_graphemes_partition(h); }
    if 0 <= c <= gh.len() {
        assert(gs =~= gh + (seq![nl] + gb));
        lemma_prefix(gh, seq![nl] + gb, c);
        lemma_one_line(h, c);
    } else if gh.len() < c <= gs.len() {
        lemma_suffix(gh, nl, gb, c - gh.len() - 1);
    }
}
/// what the list of lines is when a line comes first
pub proof fn lemma_lines_cut(t: Seq<u8>) -> (r: (Seq<u8>, Seq<u8>, Seq<u8>))
    requires valid_utf8(t), next_lf(t, 0) < t.len(),
    ensures valid_utf8(r.0), !r.0.contains(10u8), is_nl(r.1), valid_utf8(r.2), r.2.len() < t.len(),
        graphemes(t) == graphemes(r.0) + seq![r.1] + graphemes(r.2),
        dlines(t) == seq![r.0] + dlines(r.2),
        forall|n: int| n <= 0 ==> #[trigger] line_start(t, n) == 0,
        forall|n: int| n > 0 ==> #[trigger] line_start(t, n) == r.0.len() + r.1.len() + line_start(r.2, n - 1),
{
    lemma_next_lf(t, 0);
    lemma_first_line(t)
}
/// The position of the n-th line's k-th grapheme: the walk over all graphemes and the list of lines agree.
pub proof fn lemma_doc(t: Seq<u8>, n: int, k: int)
    requires valid_utf8(t),
    ensures place(t, n, k) == line_place(t, n, k),
        pos_at(graphemes(t), graphemes(t).len() as int) == (line_count(t) - 1, line_len(t, line_count(t) - 1)),
        0 <= n < line_count(t) ==> valid_utf8(dlines(t)[n]) && !dlines(t)[n].contains(10u8),
    decreases t.len(),
{
    hide(pos_at); hide(byte_at); hide(line_start); hide(dlines); hide(is_at);
    lemma_next_lf(t, 0);
    let gs = graphemes(t);
    if next_lf(t, 0) < t.len() {
        let (h, nl, b) = lemma_lines_cut(t);
        let (gh, gb) = (graphemes(h), graphemes(b));
        lemma_doc(b, n - 1, k);
        lemma_lines_bounds(b);
        assert(dlines(t)[0] == h);
        if n > 0 && n < line_count(t) { assert(dlines(t)[n] == dlines(b)[n - 1]); }
        assert(pos_at(gs, gs.len() as int) == (line_count(t) - 1, line_len(t, line_count(t) - 1))) by {
            assert(gs.len() == gh.len() + 1 + gb.len());
            lemma_one_line(h, gh.len() as int);
            lemma_suffix(gh, nl, gb, gb.len() as int);
            assert(dlines(t)[line_count(t) - 1] == dlines(b)[line_count(b) - 1]);
        }
        if n == 0 && 0 <= k <= gh.len() {
            lemma_is_at_cut(h, nl, gb, k, 0, k);
            lemma_place(t, k, 0, k);
        } else if n > 0 && exists|c: int| #[trigger] is_at(gb, c, n - 1, k) {
            let c = choose|c: int| #[trigger] is_at(gb, c, n - 1, k);
            assert(0 <= c <= gb.len()) by { reveal(is_at); }
            lemma_is_at_cut(h, nl, gb, gh.len() + 1 + c, n, k);
            lemma_place(t, gh.len() + 1 + c, n, k);
            lemma_place(b, c, n - 1, k);
        } else {
            assert forall|c: int| !#[trigger] is_at(gs, c, n, k) by {
                lemma_is_at_cut(h, nl, gb, c, n, k);
                if is_at(gb, c - gh.len() - 1, n - 1, k) && n <= 0 { lemma_pos_mono0(gb, c - gh.len() - 1, n - 1, k); }
            }
            assert(place(t, n, k) is None);
            assert(place(b, n - 1, k) is None) by { if n <= 0 { assert(line_place(b, n - 1, k) is None); } }
        }
    } else {
        assert(!t.contains(10u8));
        assert(dlines(t) == seq![t]) by { reveal(dlines); }
        lemma_one_line(t, gs.len() as int);
        assert(line_start(t, 0) == 0) by { reveal(line_start); }
        if n == 0 && 0 <= k <= gs.len() {
            lemma_one_line(t, k);
            assert(is_at(gs, k, 0, k)) by { reveal(is_at); }
            lemma_place(t, k, 0, k);
        } else {
            assert forall|c: int| !#[trigger] is_at(gs, c, n, k) by {
                if is_at(gs, c, n, k) { reveal(is_at); lemma_one_line(t, c); }
            }
        }
    }
}
/// no position has a negative line
pub proof fn lemma_pos_mono0(gs: Seq<Seq<u8>>, c: int, n: int, k: int)
    requires is_at(gs, c, n, k), ensures n >= 0,
{ lemma_pos_nonneg(gs, c); }
pub proof fn lemma_pos_nonneg(gs: Seq<Seq<u8>>, c: int) ensures pos_at(gs, c).0 >= 0, decreases c { if c > 0 { lemma_pos_nonneg(gs, c - 1); } }
/// `str::lines` leaves out an empty last line
pub proof fn lemma_lines_of(t: Seq<u8>)
    ensures
        lines_of(t).len() == if t.len() == 0 || t.last() == 10u8 { line_count(t) - 1 } else { line_count(t) },
        forall|i: int| 0 <= i < lines_of(t).len() ==> #[trigger] lines_of(t)[i] == dlines(t)[i],
        t.len() == 0 || t.last() == 10u8 ==> dlines(t).last() == Seq::<u8>::empty(),
    decreases t.len(),
{
    lemma_next_lf(t, 0);
    let e = next_lf(t, 0);
    if e < t.len() { let b = t.subrange(e + 1, t.len() as int); lemma_lines_of(b); lemma_lines_bounds(b); if b.len() > 0 { assert(b.last() == t.last()); } }
    else { assert(t.len() == 0 ==> t =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_pieces_of(t: Seq<u8>)
    ensures pieces_of(t).len() == line_count(t), pieces_of(t).last() == dlines(t).last(), pieces_of(t).len() >= 1,
    decreases t.len(),
{
    lemma_next_lf(t, 0);
    let e = next_lf(t, 0);
    if e < t.len() { lemma_pieces_of(t.subrange(e + 1, t.len() as int)); lemma_lines_bounds(t.subrange(e + 1, t.len() as int)); }
}
pub proof fn lemma_empty_graphemes(t: Seq<u8>) requires valid_utf8(t), ensures t.len() == 0 <==> graphemes(t).len() == 0
{ axiom_graphemes_partition(t); if graphemes(t).len() > 0 { lemma_byte_mono(graphemes(t), 1, graphemes(t).len() as int); } }

/// how many line feeds there are in a text, by bytes and by characters
pub open spec fn count_lf(t: Seq<u8>) -> int decreases t.len() { if t.len() == 0 { 0 } else { count_lf(t.drop_last()) + if t.last() == 10u8 { 1int } else { 0 } } }
pub open spec fn lf_chars(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { lf_chars(s.drop_last()) + if s.last() == '\n' { 1int } else { 0 } } }
pub proof fn lemma_count_lf_concat(a: Seq<u8>, b: Seq<u8>) ensures count_lf(a + b) == count_lf(a) + count_lf(b) decreases b.len() {
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_count_lf_concat(a, b.drop_last()); } else { assert(a + b =~= a); }
}
pub proof fn lemma_scalar_lf(c: char) ensures count_lf(encode_scalar(c as u32)) == if c == '\n' { 1int } else { 0 } {
    let x = c as u32;
    assert((0xC0 | ((x >> 6) & 0x1F)) as u8 != 10u8) by (bit_vector);
    assert((0xE0 | ((x >> 12) & 0xF)) as u8 != 10u8) by (bit_vector);
    assert((0xF0 | ((x >> 18) & 0x7)) as u8 != 10u8) by (bit_vector);
    assert((0x80 | (x & 0x3F)) as u8 != 10u8) by (bit_vector);
    assert((0x80 | ((x >> 6) & 0x3F)) as u8 != 10u8) by (bit_vector);
    assert((0x80 | ((x >> 12) & 0x3F)) as u8 != 10u8) by (bit_vector);
    if x <= 0x7f { assert((x & 0x7f) as u8 == x as u8) by (bit_vector) requires x <= 0x7f; }

    assert(0xC0u8 | (((x >> 6) & 0x1F) as u8) != 10u8) by (bit_vector);
    assert(0xE0u8 | (((x >> 12) & 0xF) as u8) != 10u8) by (bit_vector);
    assert(0xF0u8 | (((x >> 18) & 0x7) as u8) != 10u8) by (bit_vector);
    assert(0x80u8 | ((x & 0x3F) as u8) != 10u8) by (bit_vector);
    assert(0x80u8 | (((x >> 6) & 0x3F) as u8) != 10u8) by (bit_vector);
    assert(0x80u8 | (((x >> 12) & 0x3F) as u8) != 10u8) by (bit_vector);
    let e = encode_scalar(x);
    if has_width_1_encoding(x) { assert(e =~= seq![leading_byte_width_1(x)]); assert(e[0]==10 ==> x == 10); }
    else if has_width_2_encoding(x) { assert(e =~= seq![leading_byte_width_2(x), last_continuation_byte(x)]); assert(leading_byte_width_2(x)!=10u8); assert(last_continuation_byte(x) != 10u8); }
    else if has_width_3_encoding(x) { assert(e =~= seq![leading_byte_width_3(x), second_last_continuation_byte(x), last_continuation_byte(x)]); assert(leading_byte_width_3(x)!=10u8);assert(second_last_continuation_byte(x) != 10u8); }
    else { assert(e =~= seq![leading_byte_width_4(x), third_last_continuation_byte(x), second_last_continuation_byte(x), last_continuation_byte(x)]); assert(leading_byte_width_4(x)!=10u8); assert(third_last_continuation_byte(x) != 10u8); }
    reveal_with_fuel(count_lf, 6);
    assert(forall|i: int| 0 <= i < e.len() ==> (e[i] == 10u8 ==> x == 10));
    if e.len() == 1 { assert(e.drop_last() =~= Seq::empty()); }
    else if e.len() == 2 { assert(e.drop_last().drop_last() =~= Seq::empty()); }
    else if e.len() == 3 { assert(e.drop_last().drop_last().drop_last() =~= Seq::empty()); }
    else { assert(e.drop_last().drop_last().drop_last().drop_last() =~= Seq::empty()); }
}
pub proof fn lemma_lf_chars(s: Seq<char>) ensures count_lf(encode_utf8(s)) == lf_chars(s) decreases s.len() {
    if s.len() > 0 {
        lemma_lf_chars(s.drop_last());
        let l = seq![s.last()];
        assert(s =~= s.drop_last() + l);
        encode_utf8_concat(s.drop_last(), l);
        reveal_with_fuel(encode_utf8, 2);
        assert(l.drop_first() =~= Seq::empty());
        assert(encode_utf8(l) =~= encode_scalar(s.last() as u32));
        lemma_scalar_lf(s.last());
        lemma_count_lf_concat(encode_utf8(s.drop_last()), encode_utf8(l));
    } else { reveal_with_fuel(encode_utf8, 1); assert(encode_utf8(s) =~= Seq::<u8>::empty()); }
}

pub proof fn lemma_count_lines(t: Seq<u8>) ensures count_lf(t) == line_count(t) - 1 decreases t.len()
{
    lemma_next_lf(t, 0);
    let e = next_lf(t, 0);
    if e < t.len() {
        let b = t.subrange(e + 1, t.len() as int);
        lemma_count_lines(b);
        assert(t =~= t.subrange(0, e) + NL() + b);
        lemma_no_lf(t.subrange(0, e));
        assert(NL().drop_last() =~= Seq::<u8>::empty());
        reveal_with_fuel(count_lf, 2);
        assert(count_lf(NL()) == 1);
        lemma_count_lf_concat(t.subrange(0, e) + NL(), b);
        lemma_count_lf_concat(t.subrange(0, e), NL());
    } else { lemma_no_lf(t); }
}
pub proof fn lemma_no_lf(t: Seq<u8>) requires forall|i: int| 0 <= i < t.len() ==> t[i] != 10u8, ensures count_lf(t) == 0, decreases t.len()
{ if t.len() > 0 { lemma_no_lf(t.drop_last()); } }
pub proof fn lemma_lf_chars_bound(s: Seq<char>) ensures 0 <= lf_chars(s) <= s.len(), decreases s.len() { if s.len() > 0 { lemma_lf_chars_bound(s.drop_last()); } }
//@ fn Distance::of_str
//@ ret r
//@ spec
    ensures (r.lines as int, r.offset as int) == pos_at(graphemes(from.sb()), graphemes(from.sb()).len() as int),
        r.lines == line_count(from.sb()) - 1, r.offset == line_len(from.sb(), r.lines as int),
//@ at entry
proof {
    lemma_str_valid(from);
    lemma_doc(from.sb(), 0, 0);
    lemma_lf_chars(from@);
    lemma_count_lines(from.sb());
    lemma_pieces_of(from.sb());
}
//@ loop 0
    invariant
        vx_it0.wf(), encode_utf8(vx_it0.all()) == from.sb(), vx_n0 <= vx_it0.pos(), vx_n0 == lf_chars(vx_it0.all().subrange(0, vx_it0.pos())),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop0.start
proof { assert(vx_it0.all().subrange(0, vx_it0.pos()).drop_last() =~= vx_it0.all().subrange(0, vx_it0.pos() - 1)); }
//@ at loop0.after
proof {
    lemma_sb_inj(vx_it0.all(), from@);
    assert(vx_it0.all().subrange(0, vx_it0.pos()) =~= from@);
}
