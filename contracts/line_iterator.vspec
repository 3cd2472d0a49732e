//@ module line_iterator
//@ raw
/// where the raw line (with its terminator) that starts at i ends
pub open spec fn raw_end(t: Seq<u8>, i: int) -> int { let e = next_lf(t, i); if 0 <= e < t.len() { e + 1 } else { t.len() as int } }
/// the raw lines from offset i on, numbered from n; one that ends in a line feed is followed by another
pub open spec fn raw_lines(t: Seq<u8>, i: int, n: int) -> Seq<(int, Seq<u8>)> decreases t.len() - i {
    if !(0 <= i <= t.len()) { Seq::empty() } else {
        let e = raw_end(t, i);
        let l = seq![(n, t.subrange(i, e))];
        if i < e && t[e - 1] == 10u8 { l + raw_lines(t, e, n + 1) } else { l }
    }
}
pub open spec fn joined(l: Seq<(int, Seq<u8>)>) -> Seq<u8> decreases l.len() { if l.len() == 0 { Seq::empty() } else { l[0].1 + joined(l.drop_first()) } }
/// a raw line without its terminator
pub open spec fn chomp(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 10u8 { strip_cr(l.drop_last()) } else { l } }
pub proof fn lemma_raw_end(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= raw_end(t, i) <= t.len(), forall|j: int| i <= j < raw_end(t, i) - 1 ==> t[j] != 10u8,
        raw_end(t, i) == i || t[raw_end(t, i) - 1] != 10u8 ==> raw_end(t, i) == t.len(),
{ lemma_next_lf(t, i); }
/// The raw lines partition the text: joined, they are the text again.
pub proof fn lemma_raw_partition(t: Seq<u8>, i: int, n: int)
    requires 0 <= i <= t.len(),
    ensures joined(raw_lines(t, i, n)) == t.subrange(i, t.len() as int),
        raw_lines(t, i, n).len() >= 1,
        forall|k: int| 0 <= k < raw_lines(t, i, n).len() ==> (#[trigger] raw_lines(t, i, n)[k]).0 == n + k,
    decreases t.len() - i,
{
    lemma_raw_end(t, i);
    let e = raw_end(t, i);
    let r = raw_lines(t, i, n);
    if i < e && t[e - 1] == 10u8 {
        lemma_raw_partition(t, e, n + 1);
        let q = raw_lines(t, e, n + 1);
        assert(r.drop_first() =~= q);
        assert(joined(r) =~= t.subrange(i, t.len() as int));
        assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0 == n + k by { if k > 0 { assert(r[k] == q[k - 1]); } }
    } else {
        assert(r.drop_first() =~= Seq::empty());
        assert(joined(r.drop_first()) =~= Seq::empty());
        assert(joined(r) =~= t.subrange(i, t.len() as int));
    }
}
/// Without their terminators, they are the lines of the document.
pub proof fn lemma_raw_dlines(t: Seq<u8>, i: int, n: int)
    requires 0 <= i <= t.len(),
    ensures raw_lines(t, i, n).len() == line_count(t.subrange(i, t.len() as int)),
        forall|k: int| 0 <= k < raw_lines(t, i, n).len() ==> chomp((#[trigger] raw_lines(t, i, n)[k]).1) == dlines(t.subrange(i, t.len() as int))[k],
    decreases t.len() - i,
{
    lemma_raw_end(t, i);
    lemma_next_lf(t, i);
    let e = raw_end(t, i);
    let u = t.subrange(i, t.len() as int);
    lemma_next_lf(u, 0);
    let f = next_lf(u, 0);
    let r = raw_lines(t, i, n);
    if i < e && t[e - 1] == 10u8 {
        if f < e - 1 - i { assert(t[i + f] == 10u8); }
        if f > e - 1 - i { assert(u[e - 1 - i] == 10u8); }
        lemma_raw_dlines(t, e, n + 1);
        let q = raw_lines(t, e, n + 1);
        assert(u.subrange(f + 1, u.len() as int) =~= t.subrange(e, t.len() as int));
        assert(t.subrange(i, e).drop_last() =~= u.subrange(0, f));
        assert(r =~= seq![(n, t.subrange(i, e))] + q);
        assert forall|k: int| 0 <= k < r.len() implies chomp((#[trigger] r[k]).1) == dlines(u)[k] by { if k > 0 { assert(r[k] == q[k - 1]); } }
    } else {
        if f < u.len() { assert(t[i + f] == 10u8); }
        assert(t.subrange(i, e) =~= u);
    }
}
pub proof fn lemma_count_bound(t: Seq<u8>) ensures 0 <= count_lf(t) <= t.len(), decreases t.len() { if t.len() > 0 { lemma_count_bound(t.drop_last()); } }
pub proof fn lemma_count_zero(t: Seq<u8>, j: int) requires count_lf(t) == 0, 0 <= j < t.len(), ensures t[j] != 10u8, decreases t.len()
{ lemma_count_bound(t.drop_last()); if j < t.len() - 1 { lemma_count_zero(t.drop_last(), j); } }
/// the line feed the search stops at
pub proof fn lemma_lf_at(t: Seq<u8>, i: int, j: int)
    requires 0 <= i <= j <= t.len(), forall|x: int| i <= x < j ==> t[x] != 10u8, j < t.len() ==> t[j] == 10u8,
    ensures next_lf(t, i) == j,
    decreases j - i,
{ if i < j { lemma_lf_at(t, i + 1, j); } }
/// one character more
pub proof fn lemma_take_char(s: Seq<char>, k: int)
    requires 0 < k <= s.len(),
    ensures encode_utf8(s.take(k)) == encode_utf8(s.take(k - 1)) + encode_scalar(s[k - 1] as u32),
        lf_chars(s.take(k)) == lf_chars(s.take(k - 1)) + if s[k - 1] == '\n' { 1int } else { 0 },
        s[k - 1] == '\n' ==> encode_scalar(s[k - 1] as u32) == NL(),
{
    let a = s.take(k);
    let p = s.take(k - 1);
    let l = seq![s[k - 1]];
    assert(a =~= p + l);
    assert(a.drop_last() =~= p);
    encode_utf8_concat(p, l);
    assert(l.drop_first() =~= Seq::<char>::empty());
    reveal_with_fuel(encode_utf8, 2);
    assert(encode_utf8(l) =~= encode_scalar(s[k - 1] as u32));
    if s[k - 1] == '\n' {
        lemma_nl();
        assert("\n"@ =~= seq!['\n']) by { reveal_strlit("\n"); }
    }
}
/// the first k characters of a text are its first bytes
pub proof fn lemma_take_bytes(t: Seq<u8>, i: int, s: Seq<char>, k: int)
    requires valid_utf8(t), boundary(t, i), encode_utf8(s) == t.subrange(i, t.len() as int), 0 <= k <= s.len(),
    ensures
        encode_utf8(s.take(k)).len() <= t.len() - i,
        encode_utf8(s.take(k)) == t.subrange(i, i + encode_utf8(s.take(k)).len()),
        boundary(t, i + encode_utf8(s.take(k)).len()),
        k == s.len() ==> i + encode_utf8(s.take(k)).len() == t.len(),
        k == 0 ==> encode_utf8(s.take(k)).len() == 0,
        lf_chars(s.take(k)) == 0 ==> forall|x: int| i <= x < i + encode_utf8(s.take(k)).len() ==> t[x] != 10u8,
{
    let a = s.take(k);
    let b = s.skip(k);
    assert(s =~= a + b);
    encode_utf8_concat(a, b);
    let u = t.subrange(i, t.len() as int);
    let (ea, eb) = (encode_utf8(a), encode_utf8(b));
    let n = ea.len() as int;
    assert(u == ea + eb);
    assert(ea =~= u.subrange(0, n));
    assert(ea =~= t.subrange(i, i + n));
    encode_utf8_valid_utf8(b);
    lemma_ends_boundary(eb);
    if i + n < t.len() { assert(eb.len() > 0); assert(eb[0] == u[n]); assert(u[n] == t[i + n]); }
    if k == s.len() { assert(b =~= Seq::<char>::empty()); assert(eb =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 1); } assert(u.len() == n); }
    if k == 0 { assert(a =~= Seq::<char>::empty()); assert(ea =~= Seq::<u8>::empty()) by { reveal_with_fuel(encode_utf8, 1); } }
    lemma_lf_chars(a);
    if lf_chars(a) == 0 {
        assert forall|x: int| i <= x < i + n implies t[x] != 10u8 by { lemma_count_zero(ea, x - i); assert(ea[x - i] == t[x]); }
    }
}
/// the first k characters of a text: where they end, and the line feeds among them
pub proof fn lemma_chars(t: Seq<u8>, i: int, s: Seq<char>, k: int)
    requires valid_utf8(t), boundary(t, i), encode_utf8(s) == t.subrange(i, t.len() as int), 0 <= k <= s.len(),
    ensures
        encode_utf8(s.take(k)).len() <= t.len() - i,
        encode_utf8(s.take(k)) == t.subrange(i, i + encode_utf8(s.take(k)).len()),
        boundary(t, i + encode_utf8(s.take(k)).len()),
        k == s.len() ==> i + encode_utf8(s.take(k)).len() == t.len(),
        k == 0 ==> encode_utf8(s.take(k)).len() == 0,
        lf_chars(s.take(k)) == 0 ==> forall|x: int| i <= x < i + encode_utf8(s.take(k)).len() ==> t[x] != 10u8,
        k > 0 ==> encode_utf8(s.take(k)) == encode_utf8(s.take(k - 1)) + encode_scalar(s[k - 1] as u32),
        k > 0 ==> lf_chars(s.take(k)) == lf_chars(s.take(k - 1)) + if s[k - 1] == '\n' { 1int } else { 0 },
        k > 0 && s[k - 1] == '\n' ==> encode_scalar(s[k - 1] as u32) == NL(),
        k > 0 && lf_chars(s.take(k - 1)) == 0 && s[k - 1] == '\n' ==> raw_end(t, i) == i + encode_utf8(s.take(k)).len() && t[raw_end(t, i) - 1] == 10u8 && raw_end(t, i) > i,
        k == s.len() && lf_chars(s.take(k)) == 0 ==> raw_end(t, i) == t.len() && (raw_end(t, i) > i ==> t[raw_end(t, i) - 1] != 10u8),
{
    hide(encode_utf8); hide(lf_chars); hide(encode_scalar);
    lemma_take_bytes(t, i, s, k);
    let ea = encode_utf8(s.take(k));
    let n = ea.len() as int;
    if lf_chars(s.take(k)) == 0 && k == s.len() { lemma_lf_at(t, i, t.len() as int); }
    if k > 0 {
        lemma_take_char(s, k);
        if s[k - 1] == '\n' && lf_chars(s.take(k - 1)) == 0 {
            lemma_take_bytes(t, i, s, k - 1);
            let ep = encode_utf8(s.take(k - 1));
            assert(ea == ep + NL());
            assert(ea[n - 1] == 10u8);
            assert(t[i + n - 1] == 10u8);
            lemma_lf_at(t, i, i + n - 1);
        }
    }
}
impl<'a> LineIterator<'a> {
    pub open spec fn text(&self) -> Seq<u8> { self.data.sb() }
    pub open spec fn ok(&self) -> bool {
        &&& self.line_end <= self.text().len() && boundary(self.text(), self.line_end as int)
        &&& self.line_number <= self.line_end
    }
    /// the lines it has not yielded yet
    pub open spec fn rest(&self) -> Seq<(int, Seq<u8>)> { if self.done { Seq::empty() } else { raw_lines(self.text(), self.line_end as int, self.line_number as int) } }
}
//@ fn LineIterator::new
//@ ret r
//@ spec
    ensures r.ok(), r.text() == data.sb(), r.rest() == raw_lines(data.sb(), 0, 0), joined(r.rest()) == data.sb(),
//@ at entry
proof { lemma_str_valid(data); lemma_ends_boundary(data.sb()); lemma_raw_partition(data.sb(), 0, 0); assert(data.sb().subrange(0, data.sb().len() as int) =~= data.sb()); }
//@ fn LineIterator::next
//@ arg Item (usize, &'a str)
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).text() == old(self).text(),
        match r {
            Some(x) => old(self).rest().len() > 0 && (x.0 as int, x.1.sb()) == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
        },
//@ at entry
let ghost t = self.text();
let ghost i = self.line_end as int;
let ghost d = self.data;
let ghost n = self.line_number;
proof { lemma_str_valid(self.data); lemma_raw_end(t, i); }
//@ loop 0
    invariant_except_break
        !trailing_newline,
        lf_chars(vx_it0.all().take(vx_it0.pos())) == 0,
        vx_it0.pos() == vx_it0.all().len() ==> raw_end(t, i) == t.len() && self.line_end == t.len() && (raw_end(t, i) > i ==> t[raw_end(t, i) - 1] != 10u8),
    invariant
        self.data == d, t == d.sb(), valid_utf8(t), boundary(t, i), self.line_start == i, self.line_number == n, !self.done, n <= i,
        t.len() <= isize::MAX,
        vx_it0.wf(), encode_utf8(vx_it0.all()) == t.subrange(i, t.len() as int),
        self.line_end == i + encode_utf8(vx_it0.all().take(vx_it0.pos())).len(),
        boundary(t, self.line_end as int),
    ensures
        self.line_end == raw_end(t, i),
        trailing_newline == (raw_end(t, i) > i && t[raw_end(t, i) - 1] == 10u8),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at loop0.before
proof { lemma_chars(t, i, vx_it0.all(), 0); }
//@ at loop0.start
proof { lemma_chars(t, i, vx_it0.all(), vx_it0.pos()); lemma_chars(t, i, vx_it0.all(), vx_it0.pos() - 1); }
//@ at loop0.after
proof {
    assert(raw_lines(t, i, n as int).drop_first() =~= (if trailing_newline { raw_lines(t, self.line_end as int, n + 1) } else { Seq::empty() }));
}
