use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::cmp::Ordering;
use std::mem;

verus! {

// =====================================================================================
// Text model.  A document is a sequence of bytes (valid UTF-8).  Strings are viewed as bytes.
// =====================================================================================
pub proof fn lemma_str_valid(s: &str) ensures valid_utf8(s.sb()) { encode_utf8_valid_utf8(s@); }
/// strings with the same bytes are the same
pub proof fn lemma_sb_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b), ensures a == b
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }
pub proof fn lemma_sb_inj_all() ensures forall|a: Seq<char>, b: Seq<char>| #[trigger] encode_utf8(a) == #[trigger] encode_utf8(b) ==> a == b
{ assert forall|a: Seq<char>, b: Seq<char>| #[trigger] encode_utf8(a) == #[trigger] encode_utf8(b) implies a == b by { lemma_sb_inj(a, b); } }
pub assume_specification<'a> [<&'a str as PartialEq<String>>::eq] (a: &&'a str, b: &String) -> (r: bool) ensures r == (a@ == b@);
pub proof fn lemma_nl() ensures encode_utf8("\n"@) == NL(), encode_utf8("\r\n"@) == CRLF(), {
    reveal_strlit("\n"); reveal_strlit("\r\n");
    reveal_with_fuel(encode_utf8, 4);
    assert("\n"@ =~= seq!['\n']);
    assert("\r\n"@ =~= seq!['\r', '\n']);
    assert("\n"@.drop_first() =~= Seq::<char>::empty());
    assert("\r\n"@.drop_first() =~= seq!['\n']);
    assert(seq!['\n'].drop_first() =~= Seq::<char>::empty());
    assert(encode_scalar('\n' as u32) =~= seq![10u8]) by { assert(0xau32 & 0x7f == 0xa) by (bit_vector); }
    assert(encode_scalar('\r' as u32) =~= seq![13u8]) by { assert(0xdu32 & 0x7f == 0xd) by (bit_vector); }
}
pub trait StrBytes { spec fn sb(&self) -> Seq<u8>; }
impl StrBytes for str { open spec fn sb(&self) -> Seq<u8> { encode_utf8(self@) } }
impl StrBytes for String { open spec fn sb(&self) -> Seq<u8> { encode_utf8(self@) } }

// ---------------------------------------------------------------- list iterators
/// Stands for the std/unicode-segmentation iterators: a finite list and a read position.
pub struct Lst<T> { /* what is left, last first */ back: Vec<T>, front: Ghost<Seq<T>> }
impl<T> Lst<T> {
    pub closed spec fn all(&self) -> Seq<T> { self.front@ + self.back@.reverse() }
    pub closed spec fn pos(&self) -> int { self.front@.len() as int }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.all().len() <= usize::MAX }
    pub open spec fn fresh(&self) -> bool { self.wf() && self.pos() == 0 }
    /// what is left to iterate over
    pub open spec fn rest(&self) -> Seq<T> { self.all().subrange(self.pos(), self.all().len() as int) }
    proof fn lemma_rest(&self) ensures self.rest() == self.back@.reverse(), self.rest().len() == self.back@.len(), self.all().len() == self.pos() + self.back@.len() { assert(self.rest() =~= self.back@.reverse()); }
    /// a list to iterate over
    fn vx_of(v: Vec<T>) -> (r: Lst<T>) ensures r.fresh(), r.all() == v@
    {
        let back = vx_reversed(v);
        proof { assert(back@.reverse() =~= v@); assert(Seq::<T>::empty() + back@.reverse() =~= v@); lemma_vec_len(&back); }
        Lst { back, front: Ghost(Seq::empty()) }
    }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).all() == old(self).all(),
            match r {
                Some(x) => old(self).pos() < old(self).all().len() && x == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
                None => old(self).pos() == old(self).all().len() && final(self).pos() == old(self).pos(),
            },
    {
        let ghost b = self.back@;
        let r = self.back.pop();
        proof {
            if r is Some {
                let x = r->0;
                let f = self.front@;
                self.front@ = f.push(x);
                assert(b.reverse() =~= seq![x] + self.back@.reverse());
                assert(self.front@ + self.back@.reverse() =~= f + b.reverse());
            }
        }
        r
    }
    pub fn count(self) -> (r: usize) requires self.wf(), ensures r == self.rest().len(), { self.back.len() }
    pub fn last(self) -> (r: Option<T>) requires self.wf(),
        ensures match r { Some(x) => self.rest().len() > 0 && x == self.rest().last(), None => self.rest().len() == 0 },
    {
        proof { self.lemma_rest(); }
        let mut v = vx_reversed(self.back);
        v.pop()
    }
    pub fn nth(&mut self, n: usize) -> (r: Option<T>) requires old(self).wf(),
        ensures final(self).wf(), final(self).all() == old(self).all(),
            match r {
                Some(x) => n < old(self).rest().len() && x == old(self).rest()[n as int] && final(self).pos() == old(self).pos() + n + 1,
                None => n >= old(self).rest().len() && final(self).pos() == old(self).all().len() },
    {
        let mut i = 0;
        while i < n
            invariant i <= n, self.wf(), self.all() == old(self).all(), self.pos() == old(self).pos() + i,
            decreases n - i
        {
            match self.next() { Some(_) => {}, None => return None }
            i += 1;
        }
        self.next()
    }
    pub fn skip(self, n: usize) -> (r: Lst<T>) requires self.wf(), ensures r.fresh(), r.all() == self.rest().skip(if n <= self.rest().len() { n as int } else { self.rest().len() as int }),
    {
        let ghost m = if n <= self.rest().len() { n as int } else { self.rest().len() as int };
        proof { self.lemma_rest(); }
        let mut b = self.back;
        let ghost b0 = b@;
        let mut i = 0;
        while i < n && b.len() > 0
            invariant i <= n, i <= b0.len(), b@ == b0.take(b0.len() - i), m == if n <= b0.len() { n as int } else { b0.len() as int },
            ensures i == m, b@ == b0.take(b0.len() - i),
            decreases n - i
        {
            b.pop();
            i += 1;
            proof { assert(b@ =~= b0.take(b0.len() - i)); }
        }
        proof { assert(Seq::<T>::empty() + b@.reverse() =~= b0.reverse().skip(i as int)); lemma_vec_len(&b); }
        Lst { back: b, front: Ghost(Seq::empty()) }
    }
    pub fn take(self, n: usize) -> (r: Lst<T>) requires self.wf(), ensures r.fresh(), r.all() == self.rest().take(if n <= self.rest().len() { n as int } else { self.rest().len() as int }),
    {
        proof { self.lemma_rest(); }
        let mut v = vx_reversed(self.back);
        proof { assert(v@ =~= self.rest()); }
        v.truncate(n);
        proof { assert(v@ =~= self.rest().take(v@.len() as int)); }
        Lst::vx_of(v)
    }
    pub fn rev(self) -> (r: Lst<T>) requires self.wf(), ensures r.fresh(), r.all() == self.rest().reverse(),
    {
        proof { self.lemma_rest(); assert(self.rest().reverse() =~= self.back@); }
        Lst::vx_of(self.back)
    }
    pub fn enumerate(self) -> (r: Lst<(usize, T)>) requires self.fresh(),
        ensures r.fresh(), r.all().len() == self.all().len(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == i && r.all()[i].1 == self.all()[i],
    {
        proof { self.lemma_rest(); assert(self.rest() =~= self.all()); }
        let mut v = vx_reversed(self.back);
        let ghost v0 = v@;
        let mut w: Vec<(usize, T)> = Vec::new();
        while let Some(x) = v.pop()
            invariant v@.len() + w@.len() == v0.len(), v@ == v0.take(v@.len() as int), v0.len() <= usize::MAX,
                forall|k: int| 0 <= k < w@.len() ==> (#[trigger] w@[k]).0 == v0.len() - 1 - k && w@[k].1 == v0[v0.len() - 1 - k],
            ensures v@.len() == 0,
            decreases v@.len()
        {
            w.push((v.len(), x));
            proof { assert(v@ =~= v0.take(v@.len() as int)); }
        }
        let r = Lst { back: w, front: Ghost(Seq::empty()) };
        proof { assert(r.all() =~= w@.reverse()); assert(v0 =~= self.all()); }
        r
    }
}
pub fn vx_reversed<T>(v: Vec<T>) -> (r: Vec<T>) ensures r@ == v@.reverse()
{
    let ghost v0 = v@;
    let mut v = v;
    let mut r: Vec<T> = Vec::new();
    while let Some(x) = v.pop()
        invariant v@ == v0.take(v@.len() as int), v@.len() <= v0.len(), r@ == v0.skip(v@.len() as int).reverse(),
        ensures v@.len() == 0,
        decreases v@.len()
    {
        r.push(x);
        proof { assert(v@ =~= v0.take(v@.len() as int)); assert(r@ =~= v0.skip(v@.len() as int).reverse()); }
    }
    proof { assert(v0.skip(0) =~= v0); }
    r
}

/// a..b, (a..b).rev(), a..=b and (a..=b).rev()
pub fn vx_range(a: usize, b: usize) -> (r: Lst<usize>)
    ensures r.fresh(), r.all().len() == if a < b { b - a } else { 0 }, forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i,
{
    let mut v: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, a < b ==> i <= b, a >= b ==> i == a, v@.len() == i - a, forall|k: int| 0 <= k < v@.len() ==> #[trigger] v@[k] == a + k,
        decreases b - i
    { v.push(i); i += 1; }
    Lst::vx_of(v)
}
pub fn vx_range_rev(a: usize, b: usize) -> (r: Lst<usize>)
    ensures r.fresh(), r.all().len() == if a < b { b - a } else { 0 }, forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == b - 1 - i,
{
    let r = vx_range(a, b);
    proof { assert(r.rest() =~= r.all()); }
    r.rev()
}
pub fn vx_range_incl(a: usize, b: usize) -> (r: Lst<usize>)
    requires b < usize::MAX,
    ensures r.fresh(), r.all().len() == if a <= b { b - a + 1 } else { 0 }, forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == a + i,
{ vx_range(a, b + 1) }
pub fn vx_range_incl_rev(a: usize, b: usize) -> (r: Lst<usize>)
    requires b < usize::MAX,
    ensures r.fresh(), r.all().len() == if a <= b { b - a + 1 } else { 0 }, forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == b - i,
{ vx_range_rev(a, b + 1) }

// ---------------------------------------------------------------- grapheme clusters (trusted)
/// The segmentation of a text into extended grapheme clusters (unicode-segmentation crate).
pub uninterp spec fn graphemes(t: Seq<u8>) -> Seq<Seq<u8>>;
pub open spec fn byte_at(gs: Seq<Seq<u8>>, k: int) -> int decreases k { if k <= 0 { 0 } else { byte_at(gs, k - 1) + gs[k - 1].len() } }
pub open spec fn NL() -> Seq<u8> { seq![10u8] }
pub open spec fn CRLF() -> Seq<u8> { seq![13u8, 10u8] }
pub open spec fn is_nl(g: Seq<u8>) -> bool { g == NL() || g == CRLF() }
/// An index at which a character starts, or the end of the text.
pub open spec fn boundary(t: Seq<u8>, i: int) -> bool { 0 <= i <= t.len() && (i < t.len() ==> !is_continuation_byte(t[i])) }
/// cutting a valid text at a character boundary gives two valid texts
pub proof fn lemma_split(t: Seq<u8>, i: int)
    requires valid_utf8(t), boundary(t, i),
    ensures valid_utf8(t.subrange(0, i)), valid_utf8(t.subrange(i, t.len() as int)),
{
    if i < t.len() { is_char_boundary_iff_not_is_continuation_byte(t, i); } else { is_char_boundary_start_end_of_seq(t); }
    valid_utf8_split(t, i);
}
pub proof fn lemma_ends_boundary(t: Seq<u8>)
    requires valid_utf8(t), ensures boundary(t, 0), boundary(t, t.len() as int),
{
    is_char_boundary_start_end_of_seq(t);
    if t.len() > 0 { is_char_boundary_iff_not_is_continuation_byte(t, 0); }
}

/// Axioms about the segmentation: clusters partition the text, are never empty, and each of them
/// is valid UTF-8 between character boundaries.
pub axiom fn axiom_graphemes_partition(t: Seq<u8>)
    requires valid_utf8(t),
    ensures
        byte_at(graphemes(t), graphemes(t).len() as int) == t.len(),
        forall|k: int| 0 <= k < graphemes(t).len() ==> (#[trigger] graphemes(t)[k]).len() > 0
            && graphemes(t)[k] == t.subrange(byte_at(graphemes(t), k), byte_at(graphemes(t), k + 1)),
        forall|k: int| 0 <= k <= graphemes(t).len() ==> boundary(t, #[trigger] byte_at(graphemes(t), k));
/// UAX #29 rules GB3-GB5: a line feed ends a cluster, which is then either LF or CR LF.
pub axiom fn axiom_graphemes_newline(t: Seq<u8>, k: int)
    requires valid_utf8(t), 0 <= k < graphemes(t).len(), graphemes(t)[k].contains(10u8),
    ensures is_nl(graphemes(t)[k]);
/// UAX #29 rules GB3-GB5: there is a cluster boundary on both sides of a line terminator, and
/// segmentation does not look across it.
pub axiom fn axiom_graphemes_split(a: Seq<u8>, nl: Seq<u8>, b: Seq<u8>)
    requires valid_utf8(a), valid_utf8(b), nl == CRLF() || (nl == NL() && !(a.len() > 0 && a.last() == 13u8)),
    ensures graphemes(a + nl + b) == graphemes(a) + seq![nl] + graphemes(b);

/// UAX #29 rules GB3-GB5, GB9-GB999 for ASCII: nothing but CR LF is kept together
pub axiom fn axiom_graphemes_ascii(c: Seq<char>)
    requires is_ascii_chars(c), no_crlf(encode_utf8(c)),
    ensures graphemes(encode_utf8(c)) == singles(encode_utf8(c));
pub open spec fn no_crlf(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() && #[trigger] t[i] == 13u8 ==> i + 1 >= t.len() || t[i + 1] != 10u8 }
pub open spec fn singles(t: Seq<u8>) -> Seq<Seq<u8>> { Seq::new(t.len(), |i: int| seq![t[i]]) }
pub proof fn lemma_singles(t: Seq<u8>, k: int)
    requires 0 <= k <= t.len(), ensures byte_at(singles(t), k) == k, decreases k,
{ if k > 0 { lemma_singles(t, k - 1); } }
pub broadcast proof fn lemma_ascii_clusters(c: Seq<char>)
    requires #[trigger] is_ascii_chars(c), no_crlf(encode_utf8(c)),
    ensures graphemes(encode_utf8(c)).len() == encode_utf8(c).len(),
        forall|k: int| 0 <= k < encode_utf8(c).len() ==> #[trigger] graphemes(encode_utf8(c))[k] == seq![encode_utf8(c)[k]],
        forall|k: int| 0 <= k <= encode_utf8(c).len() ==> #[trigger] byte_at(graphemes(encode_utf8(c)), k) == k,
{
    axiom_graphemes_ascii(c);
    assert forall|k: int| 0 <= k <= encode_utf8(c).len() implies #[trigger] byte_at(graphemes(encode_utf8(c)), k) == k by { lemma_singles(encode_utf8(c), k); }
}

pub trait UnicodeSegmentation {
    spec fn g_bytes(&self) -> Seq<u8>;
    fn grapheme_indices<'a>(&'a self, ext: bool) -> (r: Lst<(usize, &'a str)>)
        requires ext,
        ensures r.fresh(), r.all().len() == graphemes(self.g_bytes()).len(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == byte_at(graphemes(self.g_bytes()), i) && r.all()[i].1.sb() == graphemes(self.g_bytes())[i];
    fn graphemes<'a>(&'a self, ext: bool) -> (r: Lst<&'a str>)
        requires ext,
        ensures r.fresh(), r.all().len() == graphemes(self.g_bytes()).len(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).sb() == graphemes(self.g_bytes())[i];
}
impl UnicodeSegmentation for str {
    open spec fn g_bytes(&self) -> Seq<u8> { self.sb() }
    #[verifier::external_body]
    fn grapheme_indices<'a>(&'a self, ext: bool) -> (r: Lst<(usize, &'a str)>) { unimplemented!() }
    #[verifier::external_body]
    fn graphemes<'a>(&'a self, ext: bool) -> (r: Lst<&'a str>) { unimplemented!() }
}

// ---------------------------------------------------------------- str / String stubs (trusted)
/// The lines of a text as `str::lines` yields them, and the pieces of `str::split('\n')`.
pub trait VxSlice {
    spec fn s_bytes(&self) -> Seq<u8>;
    fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a str)
        requires a <= b <= self.s_bytes().len(), boundary(self.s_bytes(), a as int), boundary(self.s_bytes(), b as int),
        ensures r.sb() == self.s_bytes().subrange(a as int, b as int);
    fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a str)
        requires a <= self.s_bytes().len(), boundary(self.s_bytes(), a as int),
        ensures r.sb() == self.s_bytes().subrange(a as int, self.s_bytes().len() as int);
    fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a str)
        requires b <= self.s_bytes().len(), boundary(self.s_bytes(), b as int),
        ensures r.sb() == self.s_bytes().subrange(0, b as int);
    fn vx_get_range<'a>(&'a self, a: usize, b: usize) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => a <= b <= self.s_bytes().len() && boundary(self.s_bytes(), a as int) && boundary(self.s_bytes(), b as int) && x.sb() == self.s_bytes().subrange(a as int, b as int),
            None => !(a <= b <= self.s_bytes().len() && boundary(self.s_bytes(), a as int) && boundary(self.s_bytes(), b as int)) };
    fn vx_get_from<'a>(&'a self, a: usize) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => a <= self.s_bytes().len() && boundary(self.s_bytes(), a as int) && x.sb() == self.s_bytes().subrange(a as int, self.s_bytes().len() as int),
            None => !(a <= self.s_bytes().len() && boundary(self.s_bytes(), a as int)) };
}
/// slices of byte slices, and their comparison
pub trait VxByteSlice {
    spec fn bs_bytes(&self) -> Seq<u8>;
    fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8]) requires a <= b <= self.bs_bytes().len(), ensures r@ == self.bs_bytes().subrange(a as int, b as int);
    fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a [u8]) requires a <= self.bs_bytes().len(), ensures r@ == self.bs_bytes().subrange(a as int, self.bs_bytes().len() as int);
    fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a [u8]) requires b <= self.bs_bytes().len(), ensures r@ == self.bs_bytes().subrange(0, b as int);
}
/// What a reference to a `str`/`String`-like generic parameter exposes.
pub trait VxAsRef { spec fn t_bytes(&self) -> Seq<u8>; fn vx_as_ref<'a>(&'a self) -> (r: &'a str) ensures r.sb() == self.t_bytes(), valid_utf8(self.t_bytes()); }
pub trait VxIntoString: Sized { spec fn i_bytes(&self) -> Seq<u8>; fn vx_into(self) -> (r: String) ensures r.sb() == self.i_bytes(), valid_utf8(self.i_bytes()); }
impl VxAsRef for String {
    open spec fn t_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_as_ref<'a>(&'a self) -> (r: &'a str) { proof { encode_utf8_valid_utf8(self@); } self.as_str() }
}
impl VxIntoString for String {
    open spec fn i_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_into(self) -> (r: String) { proof { encode_utf8_valid_utf8(self@); } self }
}
impl<'a> VxIntoString for &'a str {
    open spec fn i_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_into(self) -> (r: String) { proof { encode_utf8_valid_utf8(self@); } self.to_string() }
}

/// `String::from_utf8_lossy` and the Cow it returns.
pub struct CowStr<'a> { s: String, c: std::marker::PhantomData<&'a str> }
impl<'a> CowStr<'a> {
    pub closed spec fn sb(&self) -> Seq<u8> { self.s.sb() }
    pub fn vx_into_owned(self) -> (r: String) ensures r.sb() == self.sb(), { self.s }
    pub fn vx_str_borrow(&self) -> (r: &str) ensures r.sb() == self.sb(), { self.s.as_str() }
}
/// The result is the input when that is valid UTF-8 (and unspecified otherwise).
#[verifier::external_body]
pub fn vx_from_utf8_lossy<'a>(b: &'a [u8]) -> (r: CowStr<'a>) ensures valid_utf8(b@) ==> r.sb() == b@, { unimplemented!() }

/// fmt::Formatter, write! and the blanket `ToString for T: Display`.
pub struct VxFormatter { s: String }
pub struct VxFmtError;
pub type VxFmtResult = std::result::Result<(), VxFmtError>;
impl VxFormatter {
    pub closed spec fn written(&self) -> Seq<u8> { self.s.sb() }
    pub fn vx_new() -> (r: VxFormatter) ensures r.written() == Seq::<u8>::empty(),
    { let s = String::new(); proof { assert(s@ =~= Seq::<char>::empty()); } VxFormatter { s } }
    pub fn vx_write(&mut self, c: &CowStr) ensures final(self).written() == old(self).written() + c.sb(), { self.vx_write_str(c.vx_str_borrow()) }
    pub fn vx_write_str(&mut self, c: &str) ensures final(self).written() == old(self).written() + c.sb(),
    { proof { lemma_encode_concat(self.s@, c@); } self.s.push_str(c); }
    pub fn vx_into_string(self) -> (r: String) ensures r.sb() == self.written(), { self.s }
}

pub broadcast proof fn lemma_slice_eq(a: &[u8], b: &[u8]) ensures #[trigger] a.eq_spec(b) == (a@ == b@) { assert(a.eq_spec(b) == (a@ =~= b@)); }
/// a String displays as itself
pub broadcast axiom fn axiom_to_string(s: &String, r: String) ensures #[trigger] to_string_from_display_ensures::<String>(s, r) ==> r@ == s@;
/// Rust never allocates more than isize::MAX bytes.
pub broadcast axiom fn axiom_str_len(s: &str) ensures #[trigger] encode_utf8(s@).len() <= isize::MAX;
pub broadcast axiom fn axiom_string_len(s: &String) ensures #[trigger] encode_utf8(s@).len() <= isize::MAX;
pub broadcast proof fn lemma_encode_concat(a: Seq<char>, b: Seq<char>) ensures #[trigger] encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b) { encode_utf8_concat(a, b); }
/// testing the end of a text for a line feed is testing its last byte
pub broadcast proof fn lemma_ends_char(t: Seq<u8>, c: char)
    ensures c == '\n' ==> (#[trigger] ends_with_bytes(t, c.pat_bytes()) <==> t.len() > 0 && t.last() == 10u8),
{
    if c == '\n' {
        assert(encode_scalar('\n' as u32) =~= seq![10u8]) by { assert(0xau32 & 0x7f == 0xa) by (bit_vector); }
        if t.len() > 0 { assert(t.subrange(t.len() - 1, t.len() as int) =~= seq![t.last()]); assert(seq![t.last()][0] == t.last()); }
    }
}
pub broadcast proof fn lemma_ends_str(t: Seq<u8>, s: &str)
    ensures s@ == "\n"@ ==> (#[trigger] ends_with_bytes(t, s.pat_bytes()) <==> t.len() > 0 && t.last() == 10u8),
{
    if s@ == "\n"@ {
        lemma_nl();
        if t.len() > 0 { assert(t.subrange(t.len() - 1, t.len() as int) =~= seq![t.last()]); assert(seq![t.last()][0] == t.last()); }
    }
}
pub broadcast proof fn lemma_vec_len<T>(v: &Vec<T>)
    ensures #[trigger] v@.len() <= usize::MAX
{
    broadcast use vstd::std_specs::vec::axiom_spec_len;
    assert(vstd::std_specs::vec::spec_vec_len(v) == v@.len());
}
pub broadcast proof fn lemma_mod_small(a: int, b: int)
    requires 0 <= a <= b, 0 < b,
    ensures #[trigger] (a % b) == (if a < b { a } else { 0 })
{
    if a < b { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, b as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(b); }
}
pub broadcast group group_vx { lemma_vec_len, lemma_mod_small, lemma_ends_char, lemma_ends_str, lemma_encode_concat, axiom_str_len, axiom_string_len, lemma_slice_eq, axiom_to_string, lemma_ascii_clusters, lemma_line_no_crlf }
pub assume_specification [std::string::String::as_bytes] (s: &std::string::String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize) ensures r == encode_utf8(s@).len();

pub trait VxStr {
    spec fn v_bytes(&self) -> Seq<u8>;
    fn vx_chars<'a>(&'a self) -> (r: Lst<char>)
        ensures r.fresh(), encode_utf8(r.all()) == self.v_bytes();
    fn vx_bytes<'a>(&'a self) -> (r: Lst<u8>)
        ensures r.fresh(), r.all() == self.v_bytes();
    /// str::lines
    fn vx_lines<'a>(&'a self) -> (r: Lst<&'a str>)
        ensures r.fresh(), r.all().len() == lines_of(self.v_bytes()).len(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).sb() == lines_of(self.v_bytes())[i];
    /// str::split('\n')
    fn vx_split<'a>(&'a self, c: char) -> (r: Lst<&'a str>)
        requires c == '\n',
        ensures r.fresh(), r.all().len() == pieces_of(self.v_bytes()).len(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).sb() == pieces_of(self.v_bytes())[i];
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == ends_with_bytes(self.v_bytes(), p.pat_bytes());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == starts_with_bytes(self.v_bytes(), p.pat_bytes());
    fn vx_strip_suffix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => ends_with_bytes(self.v_bytes(), p.pat_bytes()) && x.sb() == self.v_bytes().subrange(0, self.v_bytes().len() - p.pat_bytes().len()),
            None => !ends_with_bytes(self.v_bytes(), p.pat_bytes()) };
    fn vx_char_indices<'a>(&'a self) -> (r: Lst<(usize, char)>)
        ensures r.fresh(), encode_utf8(firsts(r.all())) == self.v_bytes(),
            forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).0 == encode_utf8(firsts(r.all()).take(i)).len();
    fn vx_is_char_boundary(&self, i: usize) -> (r: bool) ensures r == boundary(self.v_bytes(), i as int);
}
pub open spec fn firsts(s: Seq<(usize, char)>) -> Seq<char> { Seq::new(s.len(), |i: int| s[i].1) }
pub open spec fn ends_with_bytes(t: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= t.len() && t.subrange(t.len() - p.len(), t.len() as int) == p }
pub open spec fn starts_with_bytes(t: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= t.len() && t.subrange(0, p.len() as int) == p }
/// what a text can be searched for: a character or a text
pub trait VxPat { spec fn pat_bytes(&self) -> Seq<u8>; fn vx_pat(&self) -> (r: String) ensures r.sb() == self.pat_bytes(); }
impl VxPat for char {
    open spec fn pat_bytes(&self) -> Seq<u8> { encode_scalar(*self as u32) }
    fn vx_pat(&self) -> (r: String) {
        let mut s = String::new();
        proof { assert(s@ =~= Seq::<char>::empty()); lemma_one_char(*self); assert(s@.push(*self) =~= seq![*self]); }
        s.push(*self);
        s
    }
}
impl<'a> VxPat for &'a str {
    open spec fn pat_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_pat(&self) -> (r: String) { (*self).to_owned() }
}
impl<'a> VxPat for &'a String {
    open spec fn pat_bytes(&self) -> Seq<u8> { self.sb() }
    fn vx_pat(&self) -> (r: String) { self.as_str().to_owned() }
}
/// index of the first line feed at or after i, or the length of the text
pub open spec fn next_lf(t: Seq<u8>, i: int) -> int decreases t.len() - i {
    if i < 0 || i >= t.len() { t.len() as int } else if t[i] == 10u8 { i } else { next_lf(t, i + 1) }
}
/// the pieces of `split('\n')`
pub open spec fn pieces_of(t: Seq<u8>) -> Seq<Seq<u8>> decreases t.len() {
    let e = next_lf(t, 0);
    if 0 <= e < t.len() { seq![t.subrange(0, e)] + pieces_of(t.subrange(e + 1, t.len() as int)) } else { seq![t] }
}
pub open spec fn strip_cr(l: Seq<u8>) -> Seq<u8> { if l.len() > 0 && l.last() == 13u8 { l.drop_last() } else { l } }
/// the lines of `str::lines`: terminated by LF or CR LF, with no empty last line
pub open spec fn lines_of(t: Seq<u8>) -> Seq<Seq<u8>> decreases t.len() {
    let e = next_lf(t, 0);
    if t.len() == 0 { Seq::empty() }
    else if 0 <= e < t.len() { seq![strip_cr(t.subrange(0, e))] + lines_of(t.subrange(e + 1, t.len() as int)) }
    else { seq![t] }
}

pub proof fn lemma_next_lf_none(t: Seq<u8>, i: int)
    requires 0 <= i, ensures forall|j: int| i <= j < next_lf(t, i) && j < t.len() ==> #[trigger] t[j] != 10u8, next_lf(t, i) <= t.len(), i <= t.len() ==> next_lf(t, i) >= i, decreases t.len() - i,
{ if i < t.len() && t[i] != 10u8 { lemma_next_lf_none(t, i + 1); } }
/// lines hold no line terminator
pub broadcast proof fn lemma_line_no_crlf(t: Seq<u8>, i: int)
    requires 0 <= i < lines_of(t).len(), ensures no_crlf(#[trigger] lines_of(t)[i]), decreases t.len(),
{
    let e = next_lf(t, 0);
    lemma_next_lf_none(t, 0);
    if 0 <= e < t.len() { if i > 0 { lemma_line_no_crlf(t.subrange(e + 1, t.len() as int), i - 1); } }
}

// ---------------------------------------------------------------- byte vectors
/// Vec<u8> of the gap buffer, with its capacity and with a record of which bytes are initialised.
pub struct ByteVec { v: Vec<u8>, c: usize, i: Ghost<Seq<bool>> }
impl ByteVec {
    pub closed spec fn bytes(&self) -> Seq<u8> { self.v@ }
    pub closed spec fn inits(&self) -> Seq<bool> { self.i@ }
    pub closed spec fn cap(&self) -> int { self.c as int }
    #[verifier::type_invariant]
    pub closed spec fn inv(&self) -> bool { self.i@.len() == self.v@.len() <= self.c <= isize::MAX }
    pub open spec fn wf(&self) -> bool { self.inits().len() == self.bytes().len() <= self.cap() <= isize::MAX }
    pub open spec fn init(&self, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> #[trigger] self.inits()[i] }
    pub fn len(&self) -> (r: usize) ensures self.wf(), r == self.bytes().len(), { proof { use_type_invariant(self); } self.v.len() }
    pub fn vx_capacity(&self) -> (r: usize) ensures self.wf(), r == self.cap(), { proof { use_type_invariant(self); } self.c }
    pub fn vx_reserve(&mut self, n: usize)
        ensures final(self).wf(), final(self).bytes() == old(self).bytes(), final(self).inits() == old(self).inits(),
            final(self).cap() >= old(self).cap(), final(self).cap() >= old(self).bytes().len() + n,
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        if n > isize::MAX as usize - v.len() { vx_too_large(); }
        let c = if c < v.len() + n { v.len() + n } else { c };
        *self = ByteVec { v, c, i };
    }
    pub fn vx_set_len(&mut self, n: usize)
        requires n <= old(self).cap(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).bytes().len() == n,
            forall|i: int| 0 <= i < n && i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] == old(self).bytes()[i],
            forall|i: int| 0 <= i < n && i < old(self).bytes().len() ==> #[trigger] final(self).inits()[i] == old(self).inits()[i],
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        if n < v.len() { v.truncate(n); }
        while v.len() < n
            invariant v@.len() <= n, n <= c, v@.len() >= o.len() || v@.len() == n, forall|q: int| 0 <= q < v@.len() && q < o.len() ==> #[trigger] v@[q] == o[q],
            decreases n - v@.len()
        { v.push(0); }
        *self = ByteVec { v, c, i: Ghost(Seq::new(n as nat, |q: int| q < oi.len() && oi[q])) };
    }
    pub fn vx_get(&self, i: usize) -> (r: u8)
        requires i < self.bytes().len(), self.inits()[i as int],
        ensures r == self.bytes()[i as int],
    { self.v[i] }
    pub fn vx_set(&mut self, at: usize, x: u8)
        requires at < old(self).bytes().len(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(),
            final(self).bytes() == old(self).bytes().update(at as int, x), final(self).inits() == old(self).inits().update(at as int, true),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        v.set(at, x);
        *self = ByteVec { v, c, i: Ghost(oi.update(at as int, true)) };
    }
    pub fn vx_copy_from_slice(&mut self, a: usize, b: usize, src: &[u8])
        requires a <= b <= old(self).bytes().len(), src@.len() == b - a,
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).bytes().len() == old(self).bytes().len(),
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] == if a <= i < b { src@[i - a] } else { old(self).bytes()[i] },
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).inits()[i] == (a <= i < b || old(self).inits()[i]),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        let mut k = a;
        while k < b
            invariant a <= k <= b <= o.len(), src@.len() == b - a, v@.len() == o.len(), forall|q: int| 0 <= q < o.len() ==> #[trigger] v@[q] == if a <= q < k { src@[q - a] } else { o[q] },
            decreases b - k
        { v.set(k, src[k - a]); k += 1; }
        *self = ByteVec { v, c, i: Ghost(Seq::new(oi.len(), |q: int| a <= q < b || oi[q])) };
    }
    pub fn vx_fill(&mut self, a: usize, b: usize, x: u8)
        requires a <= b <= old(self).bytes().len(),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).bytes().len() == old(self).bytes().len(),
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] == if a <= i < b { x } else { old(self).bytes()[i] },
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).inits()[i] == (a <= i < b || old(self).inits()[i]),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        let mut k = a;
        while k < b
            invariant a <= k <= b <= o.len(), v@.len() == o.len(), forall|q: int| 0 <= q < o.len() ==> #[trigger] v@[q] == if a <= q < k { x } else { o[q] },
            decreases b - k
        { v.set(k, x); k += 1; }
        *self = ByteVec { v, c, i: Ghost(Seq::new(oi.len(), |q: int| a <= q < b || oi[q])) };
    }
    pub fn vx_copy_within(&mut self, a: usize, b: usize, d: usize)
        requires a <= b <= old(self).bytes().len(), d + (b - a) <= old(self).bytes().len(), old(self).init(a as int, b as int),
        ensures final(self).wf(), final(self).cap() == old(self).cap(), final(self).bytes().len() == old(self).bytes().len(),
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).bytes()[i] == if d <= i < d + (b - a) { old(self).bytes()[a + (i - d)] } else { old(self).bytes()[i] },
            forall|i: int| 0 <= i < old(self).bytes().len() ==> #[trigger] final(self).inits()[i] == (d <= i < d + (b - a) || old(self).inits()[i]),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        let mut w: Vec<u8> = Vec::new();
        let mut k = 0;
        while k < v.len()
            invariant k <= v@.len(), v@ == o, w@.len() == k, a <= b <= o.len(), d + (b - a) <= o.len(), forall|q: int| 0 <= q < k ==> #[trigger] w@[q] == if d <= q < d + (b - a) { o[a + (q - d)] } else { o[q] },
            decreases v@.len() - k
        { w.push(if d <= k && k < d + (b - a) { v[a + (k - d)] } else { v[k] }); k += 1; }
        *self = ByteVec { v: w, c, i: Ghost(Seq::new(oi.len(), |q: int| d <= q < d + (b - a) || oi[q])) };
    }
    pub fn resize(&mut self, n: usize, x: u8)
        ensures final(self).wf(), final(self).bytes().len() == n, final(self).cap() >= old(self).cap(),
            forall|i: int| 0 <= i < n ==> #[trigger] final(self).bytes()[i] == if i < old(self).bytes().len() { old(self).bytes()[i] } else { x },
            forall|i: int| 0 <= i < n ==> #[trigger] final(self).inits()[i] == (i < old(self).bytes().len() ==> old(self).inits()[i]),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        if n > isize::MAX as usize { vx_too_large(); }
        if n < v.len() { v.truncate(n); }
        while v.len() < n
            invariant v@.len() <= n, v@.len() >= o.len() || v@.len() == n, forall|q: int| 0 <= q < v@.len() ==> #[trigger] v@[q] == if q < o.len() { o[q] } else { x },
            decreases n - v@.len()
        { v.push(x); }
        let c = if c < n { n } else { c };
        *self = ByteVec { v, c, i: Ghost(Seq::new(n as nat, |q: int| q < oi.len() ==> oi[q])) };
    }
    pub fn extend_from_slice(&mut self, s: &[u8])
        ensures final(self).wf(), final(self).bytes() == old(self).bytes() + s@, final(self).cap() >= old(self).cap(),
            forall|i: int| 0 <= i < final(self).bytes().len() ==> #[trigger] final(self).inits()[i] == (i < old(self).bytes().len() ==> old(self).inits()[i]),
    {
        let held = vx_hold(self); let ghost (o, oi) = (held.v@, held.i@); proof { use_type_invariant(&held); } let ByteVec { v, c, i } = held; let mut v = v;
        if s.len() > isize::MAX as usize - v.len() { vx_too_large(); }
        let mut k = 0;
        while k < s.len()
            invariant k <= s@.len(), v@ == o + s@.take(k as int),
            decreases s@.len() - k
        { v.push(s[k]); k += 1; proof { assert(v@ =~= o + s@.take(k as int)); } }
        proof { assert(s@.take(s@.len() as int) =~= s@); }
        let c = if c < v.len() { v.len() } else { c };
        *self = ByteVec { v, c, i: Ghost(Seq::new(v@.len(), |q: int| q < oi.len() ==> oi[q])) };
    }
    pub fn vx_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [u8])
        requires a <= b <= self.bytes().len(), self.init(a as int, b as int),
        ensures r@ == self.bytes().subrange(a as int, b as int),
    { vstd::slice::slice_subrange(self.v.as_slice(), a, b) }
    pub fn vx_slice_from<'a>(&'a self, a: usize) -> (r: &'a [u8])
        requires a <= self.bytes().len(), self.init(a as int, self.bytes().len() as int),
        ensures r@ == self.bytes().subrange(a as int, self.bytes().len() as int),
    { vstd::slice::slice_subrange(self.v.as_slice(), a, self.v.len()) }
    pub fn vx_slice_to<'a>(&'a self, b: usize) -> (r: &'a [u8])
        requires b <= self.bytes().len(), self.init(0, b as int),
        ensures r@ == self.bytes().subrange(0, b as int),
    { vstd::slice::slice_subrange(self.v.as_slice(), 0, b) }
}
/// takes the bytes out of their place
fn vx_hold(b: &mut ByteVec) -> (r: ByteVec) ensures r == *old(b)
{ std::mem::replace(b, ByteVec { v: Vec::new(), c: 0, i: Ghost(Seq::empty()) }) }
/// more bytes than there can be: the real code stops here
#[verifier::exec_allows_no_decreases_clause]
fn vx_too_large() ensures false { loop {} }
pub trait VxToOwned { type Own; spec fn owned(&self, r: &Self::Own) -> bool;
    fn vx_to_owned(&self) -> (r: Self::Own) ensures self.owned(&r); }
impl VxToOwned for [u8] {
    type Own = ByteVec;
    open spec fn owned(&self, r: &ByteVec) -> bool { r.wf() && r.bytes() == self@ && r.init(0, r.bytes().len() as int) }
    fn vx_to_owned(&self) -> (r: ByteVec) {
        let mut r = ByteVec { v: Vec::new(), c: 0, i: Ghost(Seq::empty()) };
        r.extend_from_slice(self);
        proof { assert(r.bytes() =~= self@); }
        r
    }
}
impl VxToOwned for str {
    type Own = String;
    open spec fn owned(&self, r: &String) -> bool { r.sb() == self.sb() && r@ == self@ }
    fn vx_to_owned(&self) -> (r: String) { self.to_owned() }
}
/// `Default::default()` of the types it is used on
pub trait VxDefault: Sized { spec fn is_default(&self) -> bool; fn vx_dflt() -> (r: Self) ensures r.is_default(); }
pub fn vx_default<T: VxDefault>() -> (r: T) ensures r.is_default() { T::vx_dflt() }
impl VxDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } fn vx_dflt() -> (r: usize) { 0 } }
impl VxDefault for bool { open spec fn is_default(&self) -> bool { !*self } fn vx_dflt() -> (r: bool) { false } }
impl VxDefault for String { open spec fn is_default(&self) -> bool { self@.len() == 0 } fn vx_dflt() -> (r: String) { String::new() } }
pub trait VxBytesOf { spec fn b_bytes(&self) -> Seq<u8>; fn vx_as_bytes<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == self.b_bytes(); }

} // verus!
