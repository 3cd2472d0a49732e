verus! {

// =====================================================================================
// Contracts of std functions that the current sources do not call, so that a changed function which does stays
// within the verifier's reach.  A line `//@ weak NAMES` lists those whose contract says less than the function does, or
// says it in a way that takes lemmas to use: a failed obligation of a function that has come to call one of them is not
// taken for the code's.
// =====================================================================================

/// p occurs in t at byte i
pub open spec fn occurs(t: Seq<u8>, p: Seq<u8>, i: int) -> bool { 0 <= i && i + p.len() <= t.len() && boundary(t, i) && t.subrange(i, i + p.len()) == p }
/// p, which is one ASCII character, is at none of the bytes from a to b
pub open spec fn absent(t: Seq<u8>, p: Seq<u8>, a: int, b: int) -> bool { p.len() == 1 && p[0] < 128 ==> forall|j: int| a <= j < b && 0 <= j < t.len() ==> #[trigger] t[j] != p[0] }
pub proof fn lemma_absent(t: Seq<u8>, p: Seq<u8>, a: int, b: int)
    requires forall|j: int| a <= j < b ==> !#[trigger] occurs(t, p, j), ensures absent(t, p, a, b),
{
    if p.len() == 1 && p[0] < 128 {
        assert forall|j: int| a <= j < b && 0 <= j < t.len() implies #[trigger] t[j] != p[0] by {
            if t[j] == p[0] { assert(t.subrange(j, j + 1) =~= p); assert(occurs(t, p, j)); }
        }
    }
}
/// t is n times p
pub open spec fn repeated(p: Seq<u8>, n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { repeated(p, (n - 1) as nat) + p } }
pub trait VxStrMore {
    // these are precise, but what follows from them takes lemmas that no proof here has
    //@ weak find rfind contains trim_end_matches trim_start_matches repeat zip chain
    spec fn m_bytes(&self) -> Seq<u8>;
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => occurs(self.m_bytes(), p.pat_bytes(), i as int) && forall|j: int| 0 <= j < i ==> !#[trigger] occurs(self.m_bytes(), p.pat_bytes(), j),
            None => forall|j: int| !#[trigger] occurs(self.m_bytes(), p.pat_bytes(), j) },
            absent(self.m_bytes(), p.pat_bytes(), 0, match r { Some(i) => i as int, None => self.m_bytes().len() as int }),
            r is Some && p.pat_bytes().len() == 1 ==> r->Some_0 < self.m_bytes().len() && self.m_bytes()[r->Some_0 as int] == p.pat_bytes()[0];
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r { Some(i) => occurs(self.m_bytes(), p.pat_bytes(), i as int) && forall|j: int| j > i ==> !#[trigger] occurs(self.m_bytes(), p.pat_bytes(), j),
            None => forall|j: int| !#[trigger] occurs(self.m_bytes(), p.pat_bytes(), j) },
            absent(self.m_bytes(), p.pat_bytes(), match r { Some(i) => i + 1, None => 0 }, self.m_bytes().len() as int),
            r is Some && p.pat_bytes().len() == 1 ==> r->Some_0 < self.m_bytes().len() && self.m_bytes()[r->Some_0 as int] == p.pat_bytes()[0];
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool)
        ensures r == exists|j: int| #[trigger] occurs(self.m_bytes(), p.pat_bytes(), j),
            !r ==> absent(self.m_bytes(), p.pat_bytes(), 0, self.m_bytes().len() as int);
    fn vx_trim_end_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)
        requires p.pat_bytes().len() > 0,
        ensures exists|n: nat| self.m_bytes() == r.sb() + #[trigger] repeated(p.pat_bytes(), n), !ends_with_bytes(r.sb(), p.pat_bytes());
    fn vx_trim_start_matches<'a, P: VxPat>(&'a self, p: P) -> (r: &'a str)
        requires p.pat_bytes().len() > 0,
        ensures exists|n: nat| self.m_bytes() == #[trigger] repeated(p.pat_bytes(), n) + r.sb(), !starts_with_bytes(r.sb(), p.pat_bytes());
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>)
        ensures match r {
            Some(x) => starts_with_bytes(self.m_bytes(), p.pat_bytes()) && x.sb() == self.m_bytes().subrange(p.pat_bytes().len() as int, self.m_bytes().len() as int),
            None => !starts_with_bytes(self.m_bytes(), p.pat_bytes()) };
    fn vx_split_at<'a>(&'a self, i: usize) -> (r: (&'a str, &'a str))
        requires i <= self.m_bytes().len(), boundary(self.m_bytes(), i as int),
        ensures r.0.sb() == self.m_bytes().subrange(0, i as int), r.1.sb() == self.m_bytes().subrange(i as int, self.m_bytes().len() as int);
    fn vx_repeat(&self, n: usize) -> (r: String) ensures r.sb() == repeated(self.m_bytes(), n as nat);
    //@ weak trim trim_start trim_end to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase eq_ignore_ascii_case
    /// white space at the ends, which is not specified
    fn vx_trim<'a>(&'a self) -> (r: &'a str)
        ensures r.sb() == self.m_bytes().subrange(ws_front(self.m_bytes()), ws_back(self.m_bytes())), 0 <= ws_front(self.m_bytes()) <= ws_back(self.m_bytes()) <= self.m_bytes().len();
    fn vx_trim_start<'a>(&'a self) -> (r: &'a str)
        ensures r.sb() == self.m_bytes().subrange(ws_front(self.m_bytes()), self.m_bytes().len() as int), 0 <= ws_front(self.m_bytes()) <= self.m_bytes().len();
    fn vx_trim_end<'a>(&'a self) -> (r: &'a str)
        ensures r.sb() == self.m_bytes().subrange(0, ws_end(self.m_bytes())), 0 <= ws_end(self.m_bytes()) <= self.m_bytes().len();
    fn vx_to_lowercase(&self) -> (r: String) ensures r.sb() == lower(self.m_bytes());
    fn vx_to_uppercase(&self) -> (r: String) ensures r.sb() == upper(self.m_bytes());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r.sb() == ascii_lower(self.m_bytes());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r.sb() == ascii_upper(self.m_bytes());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self.m_bytes()) == ascii_lower(o.sb()));
}
pub uninterp spec fn ws_front(t: Seq<u8>) -> int;
pub uninterp spec fn ws_back(t: Seq<u8>) -> int;
pub uninterp spec fn ws_end(t: Seq<u8>) -> int;
pub uninterp spec fn lower(t: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn upper(t: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ascii_lower(t: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ascii_upper(t: Seq<u8>) -> Seq<u8>;
impl<T> Lst<T> {
    pub fn zip<U>(self, o: Lst<U>) -> (r: Lst<(T, U)>) requires self.wf(), o.wf(),
        ensures r.fresh(), r.all().len() == if self.rest().len() <= o.rest().len() { self.rest().len() } else { o.rest().len() },
            forall|i: int| 0 <= i < r.all().len() ==> #[trigger] r.all()[i] == (self.rest()[i], o.rest()[i]),
    {
        proof { self.lemma_rest(); o.lemma_rest(); }
        let ghost (p, q) = (self.rest(), o.rest());
        let n = if self.back.len() <= o.back.len() { self.back.len() } else { o.back.len() };
        let mut x = vx_reversed(self.back);
        let mut y = vx_reversed(o.back);
        proof { assert(x@ =~= p); assert(y@ =~= q); }
        x.truncate(n);
        y.truncate(n);
        let mut w: Vec<(T, U)> = Vec::new();
        let mut m = n;
        while m > 0
            invariant m <= n <= p.len(), n <= q.len(), w@.len() == n - m, x@ == p.take(m as int), y@ == q.take(m as int),
                forall|k: int| 0 <= k < w@.len() ==> #[trigger] w@[k] == (p[n - 1 - k], q[n - 1 - k]),
            decreases m
        {
            match (x.pop(), y.pop()) { (Some(a), Some(b)) => { w.push((a, b)); } _ => {} }
            m -= 1;
            proof { assert(x@ =~= p.take(m as int)); assert(y@ =~= q.take(m as int)); }
        }
        let r = Lst { back: w, front: Ghost(Seq::empty()) };
        proof { assert(r.all() =~= w@.reverse()); lemma_vec_len(&w); }
        r
    }
    pub fn chain(self, o: Lst<T>) -> (r: Lst<T>) requires self.wf(), o.wf(), self.rest().len() + o.rest().len() <= usize::MAX,
        ensures r.fresh(), r.all() == self.rest() + o.rest(),
    {
        proof { self.lemma_rest(); o.lemma_rest(); }
        let mut v = vx_reversed(self.back);
        let mut w = vx_reversed(o.back);
        v.append(&mut w);
        Lst::vx_of(v)
    }
}

// ---------------------------------------------------------------- String
pub assume_specification [std::string::String::truncate] (s: &mut String, n: usize)
    requires n >= old(s).sb().len() || boundary(old(s).sb(), n as int),
    ensures final(s).sb() == if n >= old(s).sb().len() { old(s).sb() } else { old(s).sb().subrange(0, n as int) };
pub assume_specification [std::string::String::insert_str] (s: &mut String, n: usize, x: &str)
    requires boundary(old(s).sb(), n as int),
    ensures final(s).sb() == old(s).sb().subrange(0, n as int) + x.sb() + old(s).sb().subrange(n as int, old(s).sb().len() as int);

// ---------------------------------------------------------------- Option, Result, Ordering, numbers
pub assume_specification<T, U> [Option::<T>::and::<U>] (a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == if a is Some { b } else { None::<U> };
pub assume_specification<T> [Option::<T>::xor] (a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == match (a, b) { (Some(x), None) => Some(x), (None, Some(y)) => Some(y), _ => None };
pub assume_specification<T, U> [Option::<T>::zip::<U>] (a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == match (a, b) { (Some(x), Some(y)) => Some((x, y)), _ => None };
pub assume_specification<T> [Option::<T>::replace] (a: &mut Option<T>, b: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(b);
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (a: Option<&'a T>) -> (r: Option<T>) ensures r == match a { Some(x) => Some(*x), None => None };
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, b: T) -> (r: T) ensures r == match a { Ok(x) => x, Err(_) => b };
pub assume_specification [Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == if a == Ordering::Equal { b } else { a };
pub assume_specification [Ordering::reverse] (a: Ordering) -> (r: Ordering) ensures r == match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less };
pub assume_specification [Ordering::is_lt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
pub assume_specification [Ordering::is_le] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
pub assume_specification [Ordering::is_gt] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
pub assume_specification [Ordering::is_ge] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
pub assume_specification [Ordering::is_eq] (a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
pub assume_specification [Ordering::is_ne] (a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == if a < b { b - a } else { a - b };
pub assume_specification [usize::rem_euclid] (a: usize, b: usize) -> (r: usize) requires b > 0, ensures r == a % b;
pub assume_specification [usize::max_value] () -> (r: usize) ensures r == usize::MAX;
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b > 0, ensures r == if a % b == 0 { a / b } else { (a / b + 1) as usize };
pub assume_specification [usize::overflowing_add] (a: usize, b: usize) -> (r: (usize, bool)) ensures r.1 == (a + b > usize::MAX), r.0 == if a + b > usize::MAX { (a + b - usize::MAX - 1) as usize } else { (a + b) as usize };
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c) as u32 <= 0x7f);
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == ('0' <= *c <= '9');
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c <= 0x7f);
//@ weak is_alphanumeric is_control is_alphabetic is_numeric is_ascii_whitespace is_ascii_punctuation is_power_of_two next_power_of_two pow
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool);
pub assume_specification [char::is_alphabetic] (c: char) -> (r: bool);
pub assume_specification [char::is_numeric] (c: char) -> (r: bool);
pub assume_specification [char::is_control] (c: char) -> (r: bool);
pub assume_specification [char::is_ascii_punctuation] (c: &char) -> (r: bool);
pub assume_specification [char::is_ascii_whitespace] (c: &char) -> (r: bool);
pub assume_specification [u8::is_ascii_whitespace] (c: &u8) -> (r: bool);
pub assume_specification [usize::is_power_of_two] (a: usize) -> (r: bool);

// ---------------------------------------------------------------- vectors and slices
pub trait VxSwap<T> {
    spec fn sw(&self) -> Seq<T>;
    fn vx_swap(&mut self, i: usize, j: usize) requires i < old(self).sw().len(), j < old(self).sw().len(),
        ensures final(self).sw() == old(self).sw().update(i as int, old(self).sw()[j as int]).update(j as int, old(self).sw()[i as int]);
    //@ weak dedup retain
    fn dedup(&mut self);
}
impl<T> VxSwap<T> for Vec<T> {
    open spec fn sw(&self) -> Seq<T> { self@ }
    fn vx_swap(&mut self, i: usize, j: usize) {
        if i == j { proof { assert(self@.update(i as int, self@[j as int]).update(j as int, self@[i as int]) =~= self@); } return; }
        let ghost v0 = self@;
        let (lo, hi) = if i < j { (i, j) } else { (j, i) };
        let a = self.remove(lo);
        let b = self.remove(hi - 1);
        self.insert(lo, b);
        self.insert(hi, a);
        proof { assert(self@ =~= v0.update(i as int, v0[j as int]).update(j as int, v0[i as int])); }
    }
    fn dedup(&mut self) {}
}

// ---------------------------------------------------------------- formatting
impl VxConv<VxFmtError> for VxFmtError { open spec fn conv(self) -> VxFmtError { self } fn vx_into(self) -> VxFmtError { self } }
impl VxFormatter {
    pub fn write_str(&mut self, c: &str) -> (r: VxFmtResult) ensures r is Ok, final(self).written() == old(self).written() + c.sb(), { self.vx_write_str(c); Ok(()) }
}

// ---------------------------------------------------------------- paths and files
impl PathBuf {
    #[verifier::external_body]
    pub fn vx_starts_with(&self, o: &PathBuf) -> (r: bool) ensures r == (path_strip(self.pv(), o.pv()) is Some), { unimplemented!() }
    pub fn as_path(&self) -> (r: &PathBuf) ensures r.pv() == self.pv(), { self }
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r.pv() == self.pv(), { self.clone() }
    //@ weak is_absolute is_relative has_root parent join with_extension with_file_name file_stem is_dir exists is_file to_string_lossy as_os_str
    #[verifier::external_body]
    pub fn is_absolute(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_relative(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_root(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: VxAsPath>(&self, p: P) -> (r: PathBuf) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: CowStr) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) { unimplemented!() }
}
/// what `fs::write` takes for the content
pub trait VxContent { spec fn w_bytes(&self) -> Seq<u8>; fn vx_content<'a>(&'a self) -> (r: &'a [u8]) ensures r@ == self.w_bytes(); }
impl VxContent for String { open spec fn w_bytes(&self) -> Seq<u8> { self.sb() } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() } }
impl<'b> VxContent for &'b String { open spec fn w_bytes(&self) -> Seq<u8> { self.sb() } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() } }
impl<'b> VxContent for &'b str { open spec fn w_bytes(&self) -> Seq<u8> { self.sb() } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self.as_bytes() } }
impl<'b> VxContent for &'b [u8] { open spec fn w_bytes(&self) -> Seq<u8> { self@ } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self } }
impl VxContent for Vec<u8> { open spec fn w_bytes(&self) -> Seq<u8> { self@ } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self.as_slice() } }
impl<'b> VxContent for &'b Vec<u8> { open spec fn w_bytes(&self) -> Seq<u8> { self@ } fn vx_content<'a>(&'a self) -> (r: &'a [u8]) { self.as_slice() } }
/// `fs::write` is `File::create` and `write_all`
pub fn vx_fs_write<P: VxAsPath, C: VxContent>(p: P, c: C, Tracked(fs): Tracked<&mut FsState>) -> (r: VxIoResult<()>)
    ensures
        forall|q: Seq<u8>| #[trigger] old(fs).resolve(q) is Some ==> final(fs).resolve(q) == old(fs).resolve(q),
        r is Ok ==> final(fs).holds(p.ppv(), c.w_bytes()) && final(fs).files() =~= old(fs).files().insert(final(fs).resolve(p.ppv())->0, c.w_bytes()),
        r is Err ==> !old(fs).accepts(p.ppv(), c.w_bytes()),
{
    let mut f = match vx_file_create(p, Tracked(&mut *fs)) { Ok(f) => f, Err(e) => return Err(e) };
    let r = f.write_all(c.vx_content(), Tracked(&mut *fs));
    proof { assert(Seq::<u8>::empty() + c.w_bytes() =~= c.w_bytes()); }
    r
}

} // verus!
