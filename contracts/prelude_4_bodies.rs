verus! {

// =====================================================================================
// Bodies of the stand-ins for functions of `str`, `String` and `[u8]`: written with vstd's strings, and proved to keep
// the contracts that are given above.  They are not the code of std; what they show is that the contracts can be kept.
// =====================================================================================
pub proof fn lemma_one_char(c: char) ensures encode_utf8(seq![c]) == encode_scalar(c as u32), encode_scalar(c as u32).len() > 0 {
    reveal_with_fuel(encode_utf8, 2);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    assert(encode_utf8(seq![c]) =~= encode_scalar(c as u32));
}
/// one more character of a text
pub proof fn lemma_one_more(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures encode_utf8(s.take(k + 1)) == encode_utf8(s.take(k)) + encode_scalar(s[k] as u32), encode_scalar(s[k] as u32).len() > 0,
{
    lemma_one_char(s[k]);
    assert(s.take(k + 1) =~= s.take(k) + seq![s[k]]);
    encode_utf8_concat(s.take(k), seq![s[k]]);
}
/// more characters, more bytes
pub proof fn lemma_chars_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len(),
    ensures encode_utf8(s.take(i)).len() < encode_utf8(s.take(j)).len(),
    decreases j - i
{
    lemma_one_more(s, j - 1);
    if i < j - 1 { lemma_chars_mono(s, i, j - 1); }
}
/// at a boundary, a number of characters ends
pub proof fn lemma_char_at(s: Seq<char>, a: int) -> (k: int)
    requires boundary(encode_utf8(s), a),
    ensures 0 <= k <= s.len(), encode_utf8(s.take(k)) == encode_utf8(s).subrange(0, a), encode_utf8(s.skip(k)) == encode_utf8(s).skip(a),
{
    let t = encode_utf8(s);
    encode_utf8_valid_utf8(s);
    lemma_split(t, a);
    let (x, y) = (decode_utf8(t.subrange(0, a)), decode_utf8(t.subrange(a, t.len() as int)));
    decode_utf8_encode_utf8(t.subrange(0, a));
    decode_utf8_encode_utf8(t.subrange(a, t.len() as int));
    encode_utf8_concat(x, y);
    assert(t.subrange(0, a) + t.subrange(a, t.len() as int) =~= t);
    lemma_sb_inj(x + y, s);
    assert(s.take(x.len() as int) =~= x);
    assert(s.skip(x.len() as int) =~= y);
    x.len() as int
}
/// how many characters there are before a boundary
fn vx_chars_before(s: &str, a: usize) -> (r: usize)
    requires boundary(s.sb(), a as int),
    ensures r <= s@.len(), encode_utf8(s@.take(r as int)) == s.sb().subrange(0, a as int), encode_utf8(s@.skip(r as int)) == s.sb().skip(a as int),
{
    let ghost ka = lemma_char_at(s@, a as int);
    let n = s.unicode_len();
    let mut k: usize = 0;
    let mut at: usize = 0;
    proof { assert(s@.take(0) =~= Seq::<char>::empty()); if ka > 0 { lemma_chars_mono(s@, 0, ka); } }
    while at < a
        invariant k < ka ==> at < a, 0 <= k <= ka <= s@.len(), n == s@.len(), at == encode_utf8(s@.take(k as int)).len(), encode_utf8(s@.take(ka)).len() == a,
        ensures k == ka,
        decreases ka - k
    {
        proof {
            lemma_one_more(s@, k as int);
            if k + 1 < ka { lemma_chars_mono(s@, k + 1, ka); }
        }
        at += s.get_char(k).len_utf8();
        k += 1;
        proof { if at >= a && k < ka { lemma_chars_mono(s@, k as int, ka); } }
    }
    k
}
/// a part of a text
fn vx_cut<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b <= s.sb().len(), boundary(s.sb(), a as int), boundary(s.sb(), b as int),
    ensures r.sb() == s.sb().subrange(a as int, b as int),
{
    let i = vx_chars_before(s, a);
    let j = vx_chars_before(s, b);
    proof {
        if j < i { lemma_chars_mono(s@, j as int, i as int); }
        assert(s@.take(j as int) =~= s@.take(i as int) + s@.subrange(i as int, j as int));
        encode_utf8_concat(s@.take(i as int), s@.subrange(i as int, j as int));
        let p = encode_utf8(s@.subrange(i as int, j as int));
        assert(p =~= (s.sb().subrange(0, a as int) + p).skip(a as int));
        assert(p =~= s.sb().subrange(0, b as int).skip(a as int));
        assert(p =~= s.sb().subrange(a as int, b as int));
    }
    s.substring_char(i, j)
}
fn vx_at_boundary(b: &[u8], i: usize) -> (r: bool) ensures r == boundary(b@, i as int)
{ i == b.len() || (i < b.len() && !(0x80 <= b[i] && b[i] <= 0xbf)) }
impl VxSlice for str {
    open spec fn s_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_get_range<'a>(&'a self, a: usize, b: usize) -> (r: Option<&'a str>)
    { let t = self.as_bytes(); if a <= b && b <= t.len() && vx_at_boundary(t, a) && vx_at_boundary(t, b) { Some(vx_cut(self, a, b)) } else { None } }
    fn vx_get_from<'a>(&'a self, a: usize) -> (r: Option<&'a str>)
    { let t = self.as_bytes(); if a <= t.len() && vx_at_boundary(t, a) { Some(vx_cut(self, a, t.len())) } else { None } }
    fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { vx_cut(self, a, b) }
    fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a str) { vx_cut(self, a, self.as_bytes().len()) }
    fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a str) { proof { lemma_str_valid(self); lemma_ends_boundary(self.sb()); } vx_cut(self, 0, b) }
}
impl VxSlice for String {
    open spec fn s_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_get_range<'a>(&'a self, a: usize, b: usize) -> (r: Option<&'a str>) { self.as_str().vx_get_range(a, b) }
    fn vx_get_from<'a>(&'a self, a: usize) -> (r: Option<&'a str>) { self.as_str().vx_get_from(a) }
    fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str) { VxSlice::vx_slice(self.as_str(), a, b) }
    fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a str) { VxSlice::vx_slice_from(self.as_str(), a) }
    fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a str) { VxSlice::vx_slice_to(self.as_str(), b) }
}
pub trait VxByteMore {
    spec fn bm_bytes(&self) -> Seq<u8>;
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) ensures r == starts_with_bytes(self.bm_bytes(), p@);
    fn vx_ends_with(&self, p: &[u8]) -> (r: bool) ensures r == ends_with_bytes(self.bm_bytes(), p@);
    fn vx_get_range<'a>(&'a self, a: usize, b: usize) -> (r: Option<&'a [u8]>)
        ensures match r { Some(x) => a <= b <= self.bm_bytes().len() && x@ == self.bm_bytes().subrange(a as int, b as int), None => !(a <= b <= self.bm_bytes().len()) };
    fn vx_get_from<'a>(&'a self, a: usize) -> (r: Option<&'a [u8]>)
        ensures match r { Some(x) => a <= self.bm_bytes().len() && x@ == self.bm_bytes().subrange(a as int, self.bm_bytes().len() as int), None => a > self.bm_bytes().len() };
}
impl VxByteMore for [u8] {
    open spec fn bm_bytes(&self) -> Seq<u8> { self@ }
    fn vx_starts_with(&self, p: &[u8]) -> (r: bool) { vx_stands(self, p, 0) }
    fn vx_ends_with(&self, p: &[u8]) -> (r: bool) { p.len() <= self.len() && vx_stands(self, p, self.len() - p.len()) }
    fn vx_get_range<'a>(&'a self, a: usize, b: usize) -> (r: Option<&'a [u8]>)
    { if a <= b && b <= self.len() { Some(vstd::slice::slice_subrange(self, a, b)) } else { None } }
    fn vx_get_from<'a>(&'a self, a: usize) -> (r: Option<&'a [u8]>)
    { if a <= self.len() { Some(vstd::slice::slice_subrange(self, a, self.len())) } else { None } }
}
impl VxByteSlice for [u8] {
    open spec fn bs_bytes(&self) -> Seq<u8> { self@ }
    fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) { vstd::slice::slice_subrange(self, a, b) }
    fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a [u8]) { vstd::slice::slice_subrange(self, a, self.len()) }
    fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a [u8]) { vstd::slice::slice_subrange(self, 0, b) }
}
/// whether p stands at byte i of t
fn vx_stands(t: &[u8], p: &[u8], i: usize) -> (r: bool)
    ensures r == (i + p@.len() <= t@.len() && t@.subrange(i as int, i + p@.len()) == p@),
{
    if i > t.len() || p.len() > t.len() - i { return false; }
    let mut k = 0;
    while k < p.len()
        invariant k <= p@.len(), i + p@.len() <= t@.len() <= usize::MAX, forall|q: int| 0 <= q < k ==> t@[i + q] == #[trigger] p@[q],
        decreases p@.len() - k
    {
        if t[i + k] != p[k] {
            proof { assert(t@.subrange(i as int, i + p@.len())[k as int] != p@[k as int]); }
            return false;
        }
        k += 1;
    }
    proof { assert(t@.subrange(i as int, i + p@.len()) =~= p@); }
    true
}
/// where a text that stands in another begins and ends, characters begin and end
pub proof fn lemma_stands(t: Seq<u8>, p: Seq<u8>, i: int)
    requires valid_utf8(t), valid_utf8(p), 0 <= i, i + p.len() <= t.len(), t.subrange(i, i + p.len()) == p, boundary(t, i) || i + p.len() == t.len() || boundary(t, i + p.len()),
    ensures p.len() > 0 ==> boundary(t, i), i + p.len() == t.len() ==> boundary(t, i), boundary(t, i) ==> boundary(t, i + p.len()),
{
    lemma_ends_boundary(t);
    lemma_ends_boundary(p);
    if p.len() > 0 { assert(p[0] == t[i]); }
    if boundary(t, i) {
        lemma_split(t, i);
        let u = t.subrange(i, t.len() as int);
        assert(u.subrange(0, p.len() as int) =~= p);
        lemma_front_text(u, p);
        if i + p.len() < t.len() { assert(u[p.len() as int] == t[i + p.len()]); }
    }
}
/// a text that another begins with ends at a boundary
pub proof fn lemma_front_text(u: Seq<u8>, p: Seq<u8>)
    requires valid_utf8(u), valid_utf8(p), p.len() <= u.len(), u.subrange(0, p.len() as int) == p,
    ensures boundary(u, p.len() as int),
    decreases p.len()
{
    if p.len() == u.len() || p.len() == 0 { lemma_ends_boundary(u); }
    else {
        let n = length_of_first_scalar(u);
        assert(u[0] == p[0]);
        let (u1, p1) = (pop_first_scalar(u), pop_first_scalar(p));
        assert(p1 =~= u1.subrange(0, p1.len() as int));
        lemma_front_text(u1, p1);
        if p1.len() < u1.len() { assert(u1[p1.len() as int] == u[p.len() as int]); }
    }
}
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<u8>> { Seq::new(v.len(), |i: int| v[i].sb()) }
/// the first line feed of what follows a, which is at i
pub proof fn lemma_piece(b: Seq<u8>, a: int, i: int)
    requires valid_utf8(b), boundary(b, a), a <= i < b.len(), b[i] == 10u8, forall|j: int| a <= j < i ==> b[j] != 10u8,
    ensures next_lf(b.skip(a), 0) == i - a, boundary(b, i), boundary(b, i + 1), i > a && b[i - 1] == 13u8 ==> boundary(b, i - 1),
        b.skip(a).subrange(i - a + 1, b.len() - a) == b.skip(i + 1), b.skip(a).subrange(0, i - a) == b.subrange(a, i),
{
    let u = b.skip(a);
    lemma_next_lf(u, 0);
    let e = next_lf(u, 0);
    assert(u[i - a] == b[i]);
    if e < i - a { assert(u[e] == b[a + e]); }
    assert(!is_continuation_byte(10u8) && !is_continuation_byte(13u8)) by (compute);
    lemma_after_lf(b, i);
    let y = b.subrange(i + 1, b.len() as int);
    lemma_ends_boundary(y);
    if y.len() > 0 { assert(y[0] == b[i + 1]); }
    assert(u.subrange(i - a + 1, b.len() - a) =~= b.skip(i + 1));
    assert(u.subrange(0, i - a) =~= b.subrange(a, i));
}
impl VxStr for str {
    open spec fn v_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_chars<'a>(&'a self) -> (r: Lst<char>) {
        let mut v: Vec<char> = Vec::new();
        let n = self.unicode_len();
        let mut k = 0;
        while k < n
            invariant k <= n == self@.len(), v@ == self@.take(k as int),
            decreases n - k
        { v.push(self.get_char(k)); k += 1; proof { assert(v@ =~= self@.take(k as int)); } }
        proof { assert(v@ =~= self@); }
        Lst::vx_of(v)
    }
    fn vx_bytes<'a>(&'a self) -> (r: Lst<u8>) {
        let mut v: Vec<u8> = Vec::new();
        let t = self.as_bytes();
        let mut k = 0;
        while k < t.len()
            invariant k <= t@.len(), t@ == self.sb(), v@ == t@.take(k as int),
            decreases t@.len() - k
        { v.push(t[k]); k += 1; proof { assert(v@ =~= t@.take(k as int)); } }
        proof { assert(v@ =~= t@); }
        Lst::vx_of(v)
    }
    fn vx_lines<'a>(&'a self) -> (r: Lst<&'a str>) {
        let t = self.as_bytes();
        let ghost b = t@;
        let mut v: Vec<&'a str> = Vec::new();
        let (mut a, mut i) = (0usize, 0usize);
        proof { axiom_str_len(self); lemma_str_valid(self); lemma_ends_boundary(b); assert(b.skip(0) =~= b); assert(texts(v@) + lines_of(b) =~= lines_of(b)); }
        while i < t.len()
            invariant a <= i <= b.len() <= usize::MAX, b == t@, b == self.sb(), valid_utf8(b), boundary(b, a as int), lines_of(b) == texts(v@) + lines_of(b.skip(a as int)),
                forall|j: int| a <= j < i ==> b[j] != 10u8,
            decreases b.len() - i
        {
            if t[i] == 10 {
                let ghost (v0, u) = (v@, b.skip(a as int));
                proof { lemma_piece(b, a as int, i as int); }
                let x = if i > a && t[i - 1] == 13 { vx_cut(self, a, i - 1) } else { vx_cut(self, a, i) };
                v.push(x);
                proof {
                    assert(x.sb() =~= strip_cr(u.subrange(0, i - a)));
                    assert(texts(v@) =~= texts(v0).push(x.sb()));
                    assert(lines_of(u) == seq![x.sb()] + lines_of(b.skip(i + 1)));
                    assert(texts(v0) + (seq![x.sb()] + lines_of(b.skip(i + 1))) =~= texts(v@) + lines_of(b.skip(i + 1)));
                }
                a = i + 1;
            }
            i += 1;
        }
        proof { lemma_next_lf(b.skip(a as int), 0); lemma_ends_boundary(b); }
        if a < t.len() {
            let ghost v0 = v@;
            let x = vx_cut(self, a, t.len());
            v.push(x);
            proof { assert(x.sb() =~= b.skip(a as int)); assert(texts(v@) =~= texts(v0).push(x.sb())); assert(texts(v@) =~= lines_of(b)); }
        } else { proof { assert(texts(v@) =~= lines_of(b)); } }
        proof { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).sb() == lines_of(b)[k] by { assert(texts(v@)[k] == v@[k].sb()); } }
        Lst::vx_of(v)
    }
    fn vx_split<'a>(&'a self, c: char) -> (r: Lst<&'a str>) {
        let t = self.as_bytes();
        let ghost b = t@;
        let mut v: Vec<&'a str> = Vec::new();
        let (mut a, mut i) = (0usize, 0usize);
        proof { axiom_str_len(self); lemma_str_valid(self); lemma_ends_boundary(b); assert(b.skip(0) =~= b); assert(texts(v@) + pieces_of(b) =~= pieces_of(b)); }
        while i < t.len()
            invariant a <= i <= b.len() <= usize::MAX, b == t@, b == self.sb(), valid_utf8(b), boundary(b, a as int), pieces_of(b) == texts(v@) + pieces_of(b.skip(a as int)),
                forall|j: int| a <= j < i ==> b[j] != 10u8,
            decreases b.len() - i
        {
            if t[i] == 10 {
                let ghost (v0, u) = (v@, b.skip(a as int));
                proof { lemma_piece(b, a as int, i as int); }
                let x = vx_cut(self, a, i);
                v.push(x);
                proof {
                    assert(x.sb() =~= u.subrange(0, i - a));
                    assert(texts(v@) =~= texts(v0).push(x.sb()));
                    assert(pieces_of(u) == seq![x.sb()] + pieces_of(b.skip(i + 1)));
                    assert(texts(v0) + (seq![x.sb()] + pieces_of(b.skip(i + 1))) =~= texts(v@) + pieces_of(b.skip(i + 1)));
                }
                a = i + 1;
            }
            i += 1;
        }
        proof { lemma_next_lf(b.skip(a as int), 0); lemma_ends_boundary(b); }
        let ghost v0 = v@;
        let x = vx_cut(self, a, t.len());
        v.push(x);
        proof {
            assert(x.sb() =~= b.skip(a as int)); assert(texts(v@) =~= texts(v0).push(x.sb())); assert(texts(v@) =~= pieces_of(b));
            assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]).sb() == pieces_of(b)[k] by { assert(texts(v@)[k] == v@[k].sb()); }
        }
        Lst::vx_of(v)
    }
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        q.as_bytes().len() <= t.len() && vx_stands(t, q.as_bytes(), t.len() - q.as_bytes().len())
    }
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { vx_stands(self.as_bytes(), p.vx_pat().as_bytes(), 0) }
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        if q.as_bytes().len() <= t.len() && vx_stands(t, q.as_bytes(), t.len() - q.as_bytes().len()) {
            let i = t.len() - q.as_bytes().len();
            proof { lemma_str_valid(self); encode_utf8_valid_utf8(q@); lemma_ends_boundary(t@); lemma_stands(t@, q.sb(), i as int); }
            Some(vx_cut(self, 0, i))
        } else { None }
    }
    fn vx_char_indices<'a>(&'a self) -> (r: Lst<(usize, char)>) {
        let mut v: Vec<(usize, char)> = Vec::new();
        let n = self.unicode_len();
        let mut k = 0;
        let mut at: usize = 0;
        proof { assert(self@.take(0) =~= Seq::<char>::empty()); }
        while k < n
            invariant k <= n == self@.len(), v@.len() == k, at == encode_utf8(self@.take(k as int)).len(),
                forall|i: int| 0 <= i < k ==> (#[trigger] v@[i]).1 == self@[i] && v@[i].0 == encode_utf8(self@.take(i)).len(),
            decreases n - k
        {
            proof { lemma_one_more(self@, k as int); assert(self@.take(n as int) =~= self@); if k + 1 < n { lemma_chars_mono(self@, k + 1, n as int); } axiom_str_len(self); }
            let c = self.get_char(k);
            v.push((at, c));
            at += c.len_utf8();
            k += 1;
        }
        proof {
            assert(firsts(v@) =~= self@);
            assert forall|i: int| 0 <= i < n implies firsts(v@).take(i) == #[trigger] self@.take(i) by {}
        }
        Lst::vx_of(v)
    }
    fn vx_is_char_boundary(&self, i: usize) -> (r: bool) { vx_at_boundary(self.as_bytes(), i) }
}
pub proof fn lemma_repeated(p: Seq<u8>, n: nat) ensures p + repeated(p, n) == repeated(p, n + 1) decreases n {
    if n > 0 { lemma_repeated(p, (n - 1) as nat); assert(p + repeated(p, n) =~= (p + repeated(p, (n - 1) as nat)) + p); } else { assert(p + repeated(p, 0) =~= repeated(p, 0) + p); }
}
pub proof fn lemma_first(t: Seq<u8>, p: Seq<u8>, i: int)
    requires 0 <= i, i + p.len() <= t.len(), t.subrange(i, i + p.len()) == p,
    ensures p.len() == 1 ==> i < t.len() && t[i] == p[0],
{ if p.len() == 1 { assert(t.subrange(i, i + p.len())[0] == p[0]); } }
impl VxStrMore for str {
    open spec fn m_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        let mut i = 0;
        proof { axiom_str_len(self); }
        while i < t.len()
            invariant i <= t@.len() <= usize::MAX, t@ == self.sb(), q.sb() == p.pat_bytes(), forall|j: int| 0 <= j < i ==> !#[trigger] occurs(t@, q.sb(), j),
            decreases t@.len() - i
        { if vx_at_boundary(t, i) && vx_stands(t, q.as_bytes(), i) { proof { lemma_absent(t@, q.sb(), 0, i as int); lemma_first(t@, q.sb(), i as int); } return Some(i); } i += 1; }
        proof { lemma_absent(t@, q.sb(), 0, i as int); }
        if vx_stands(t, q.as_bytes(), i) { proof { lemma_first(t@, q.sb(), i as int); } Some(i) } else { None }
    }
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        let mut i = t.len();
        while i > 0
            invariant i <= t@.len() <= usize::MAX, t@ == self.sb(), q.sb() == p.pat_bytes(), forall|j: int| j > i ==> !#[trigger] occurs(t@, q.sb(), j),
            decreases i
        { if vx_at_boundary(t, i) && vx_stands(t, q.as_bytes(), i) { proof { lemma_absent(t@, q.sb(), i + 1, t@.len() as int); lemma_first(t@, q.sb(), i as int); } return Some(i); } i -= 1; }
        proof { lemma_absent(t@, q.sb(), 1, t@.len() as int); }
        if vx_at_boundary(t, i) && vx_stands(t, q.as_bytes(), i) { proof { lemma_first(t@, q.sb(), 0); } Some(i) } else { proof { lemma_absent(t@, q.sb(), 0, t@.len() as int); } None }
    }
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) {
        match self.vx_find(p) { Some(_) => true, None => false }
    }
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        let mut e = t.len();
        let ghost mut n: nat = 0;
        proof { lemma_str_valid(self); encode_utf8_valid_utf8(q@); lemma_ends_boundary(t@); assert(t@.subrange(0, e as int) + repeated(q.sb(), 0) =~= t@); }
        while e >= q.as_bytes().len() && vx_stands(t, q.as_bytes(), e - q.as_bytes().len())
            invariant e <= t@.len(), t@ == self.sb(), q.sb() == p.pat_bytes(), q.sb().len() > 0, boundary(t@, e as int), valid_utf8(t@), valid_utf8(q.sb()), t@ == t@.subrange(0, e as int) + repeated(q.sb(), n),
            ensures e <= t@.len(), boundary(t@, e as int), t@ == t@.subrange(0, e as int) + repeated(q.sb(), n), !(e >= q.sb().len() && t@.subrange(e - q.sb().len(), e as int) == q.sb()),
            decreases e
        {
            proof {
                let i = e - q.sb().len();
                lemma_stands(t@, q.sb(), i);
                lemma_repeated(q.sb(), n);
                assert(t@.subrange(0, e as int) =~= t@.subrange(0, i) + q.sb());
                assert(t@ =~= t@.subrange(0, i) + (q.sb() + repeated(q.sb(), n)));
                n = n + 1;
            }
            e -= q.as_bytes().len();
            proof { assert(q.sb().len() > 0); }
        }
        proof {
            lemma_ends_boundary(t@);
            if e >= q.sb().len() { assert(t@.subrange(0, e as int).subrange(e - q.sb().len(), e as int) =~= t@.subrange(e - q.sb().len(), e as int)); }
        }
        vx_cut(self, 0, e)
    }
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        let mut a = 0;
        let ghost mut n: nat = 0;
        proof { axiom_str_len(self); lemma_str_valid(self); encode_utf8_valid_utf8(q@); lemma_ends_boundary(t@); assert(repeated(q.sb(), 0) + t@.skip(0) =~= t@); }
        while vx_stands(t, q.as_bytes(), a)
            invariant a <= t@.len() <= usize::MAX, t@ == self.sb(), q.sb() == p.pat_bytes(), q.sb().len() > 0, boundary(t@, a as int), valid_utf8(t@), valid_utf8(q.sb()), t@ == repeated(q.sb(), n) + t@.skip(a as int),
            ensures a <= t@.len(), boundary(t@, a as int), t@ == repeated(q.sb(), n) + t@.skip(a as int), !(a + q.sb().len() <= t@.len() && t@.subrange(a as int, a + q.sb().len()) == q.sb()),
            decreases t@.len() - a
        {
            proof {
                let i = a + q.sb().len();
                lemma_stands(t@, q.sb(), a as int);
                assert(t@.skip(a as int) =~= q.sb() + t@.skip(i));
                assert(t@ =~= (repeated(q.sb(), n) + q.sb()) + t@.skip(i));
                n = n + 1;
            }
            a += q.as_bytes().len();
        }
        proof {
            lemma_ends_boundary(t@);
            if a + q.sb().len() <= t@.len() { assert(t@.skip(a as int).subrange(0, q.sb().len() as int) =~= t@.subrange(a as int, a + q.sb().len())); }
        }
        vx_cut(self, a, t.len())
    }
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) {
        let (t, q) = (self.as_bytes(), p.vx_pat());
        if vx_stands(t, q.as_bytes(), 0) {
            proof { lemma_str_valid(self); encode_utf8_valid_utf8(q@); lemma_ends_boundary(t@); lemma_front_text(t@, q.sb()); }
            Some(vx_cut(self, q.as_bytes().len(), t.len()))
        } else { None }
    }
    fn vx_split_at<'a>(&'a self, i: usize) -> (r: (&'a str, &'a str)) {
        let n = self.as_bytes().len();
        proof { lemma_str_valid(self); lemma_ends_boundary(self.sb()); }
        (vx_cut(self, 0, i), vx_cut(self, i, n))
    }
    fn vx_repeat(&self, n: usize) -> (r: String) {
        let mut s = String::new();
        let mut i = 0;
        proof { assert(s@ =~= Seq::<char>::empty()); }
        while i < n
            invariant i <= n, s.sb() == repeated(self.sb(), i as nat),
            decreases n - i
        { proof { lemma_encode_concat(s@, self@); } s.push_str(self); i += 1; }
        s
    }
    #[verifier::external_body]
    fn vx_trim<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}


} // verus!
