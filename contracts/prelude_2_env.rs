
verus! {

// ---------------------------------------------------------------- shared cells
/// Stands for Rc<RefCell<GapBuffer>>: handles to one shared cell; its content belongs to a ghost
/// permission, so that every access is checked for exclusivity by the verifier.
pub struct CellHandle { c: std::rc::Rc<vstd::cell::pcell::PCell<GapBuffer>> }
pub tracked struct CellPerm { p: vstd::cell::pcell::PointsTo<GapBuffer> }
impl CellHandle {
    pub closed spec fn id(&self) -> vstd::cell::CellId { self.c.id() }
    pub fn clone(&self) -> (r: CellHandle) ensures r.id() == self.id(), { CellHandle { c: self.c.clone() } }
    pub fn vx_borrow<'a>(&'a self, Tracked(p): Tracked<&'a CellPerm>) -> (r: &'a GapBuffer)
        requires p.id() == self.id(), ensures *r == p.value(), { self.c.borrow(Tracked(&p.p)) }
    pub fn vx_borrow_mut<'a>(&'a self, Tracked(p): Tracked<&'a mut CellPerm>) -> (r: &'a mut GapBuffer)
        requires old(p).id() == self.id(),
        ensures *r == old(p).value(), final(p).value() == *final(r), final(p).id() == old(p).id(),
    { self.c.borrow_mut(Tracked(&mut p.p)) }
}
impl CellPerm {
    pub closed spec fn id(&self) -> vstd::cell::CellId { self.p.id() }
    pub closed spec fn value(&self) -> GapBuffer { *self.p.value() }
}
pub fn vx_new_cell(v: GapBuffer) -> (r: (CellHandle, Tracked<CellPerm>))
    ensures r.1@.id() == r.0.id(), r.1@.value() == v,
{
    let (c, Tracked(p)) = vstd::cell::pcell::PCell::new(v);
    (CellHandle { c: std::rc::Rc::new(c) }, Tracked(CellPerm { p }))
}

/// Stands for Box<dyn Fn(Position)>; a call has no effect on the buffer.
#[verifier::external_body]
pub struct ChangeCallback { c: () }
impl ChangeCallback {
    pub fn vx_call(&self, p: Position) {}
}

// ---------------------------------------------------------------- paths and files (trusted)
pub struct PathBuf { p: Vec<u8> }
pub type Path = PathBuf;
pub struct OsStr { p: Vec<u8> }
#[verifier::external_body]
pub struct VxFile { p: () }
/// The file system: what every path holds.
#[verifier::external_body]
pub tracked struct FsState { p: () }
impl FsState {
    /// contents of the files, by canonical path
    pub uninterp spec fn files(&self) -> Map<Seq<u8>, Seq<u8>>;
    /// what a path resolves to
    pub uninterp spec fn resolve(&self, p: Seq<u8>) -> Option<Seq<u8>>;
    /// whether reading the file at a path, or writing bytes to it, goes through: what the environment decides
    pub uninterp spec fn can_read(&self, p: Seq<u8>) -> bool;
    pub uninterp spec fn accepts(&self, p: Seq<u8>, b: Seq<u8>) -> bool;
    /// the same for a file that has been opened for writing
    pub uninterp spec fn fits(&self, at: Seq<u8>, b: Seq<u8>) -> bool;
    /// there is a text at a path, and it can be read
    pub open spec fn readable(&self, p: Seq<u8>) -> bool {
        self.resolve(p) is Some && self.files().contains_key(self.resolve(p)->0) && valid_utf8(self.files()[self.resolve(p)->0]) && self.can_read(self.resolve(p)->0)
    }
    /// the file at a path holds a text
    pub open spec fn holds(&self, p: Seq<u8>, t: Seq<u8>) -> bool {
        self.resolve(p) is Some && self.files().contains_key(self.resolve(p)->0) && self.files()[self.resolve(p)->0] =~= t
    }
}
/// copies of byte vectors, and their comparison
fn vx_copied(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@
{
    let mut r: Vec<u8> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), r@ == v@.take(i as int),
        decreases v@.len() - i
    { r.push(v[i]); i += 1; proof { assert(r@ =~= v@.take(i as int)); } }
    proof { assert(r@ =~= v@); }
    r
}
fn vx_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@)
{ let r = a.len() == b.len() && vx_stands(a.as_slice(), b.as_slice(), 0); proof { assert(a@.len() == b@.len() ==> a@.subrange(0, b@.len() as int) =~= a@); } r }
/// What a reference to a `Path`-like generic parameter exposes.
pub trait VxAsPath { spec fn ppv(&self) -> Seq<u8>; }
impl VxAsPath for PathBuf { open spec fn ppv(&self) -> Seq<u8> { self.pv() } }
impl<'a> VxAsPath for &'a PathBuf { open spec fn ppv(&self) -> Seq<u8> { self.pv() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &PathBuf) -> bool { self.pv() == o.pv() }
}
impl PartialEq for PathBuf {
    fn eq(&self, o: &PathBuf) -> (r: bool) { vx_same(&self.p, &o.p) }
}
impl Clone for PathBuf {
    fn clone(&self) -> (r: PathBuf) ensures r.pv() == self.pv(), { PathBuf { p: vx_copied(&self.p) } }
}
impl VxDefault for PathBuf { open spec fn is_default(&self) -> bool { self.pv() == Seq::<u8>::empty() } fn vx_dflt() -> (r: PathBuf) { PathBuf::new() } }
impl PathBuf {
    pub closed spec fn pv(&self) -> Seq<u8> { self.p@ }
    pub open spec fn file_name_of(p: Seq<u8>) -> Option<Seq<u8>> { path_file_name(p) }
    pub fn new() -> (r: PathBuf) ensures r.pv() == Seq::<u8>::empty(), { PathBuf { p: Vec::new() } }
    pub fn vx_eq(&self, o: &PathBuf) -> (r: bool) ensures r == (self.pv() == o.pv()), { vx_same(&self.p, &o.p) }
    #[verifier::external_body]
    pub fn canonicalize(&self, Tracked(fs): Tracked<&mut FsState>) -> (r: VxIoResult<PathBuf>)
        ensures *final(fs) == *old(fs),
            match r { Ok(p) => old(fs).resolve(self.pv()) == Some(p.pv()), Err(_) => old(fs).resolve(self.pv()) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_strip_prefix<'a>(&'a self, base: &PathBuf) -> (r: VxRes<&'a Path>)
        ensures match r { Ok(p) => path_strip(self.pv(), base.pv()) == Some(p.pv()), Err(_) => path_strip(self.pv(), base.pv()) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(o) => path_file_name(self.pv()) == Some(o.ov()), None => path_file_name(self.pv()) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(o) => path_extension(self.pv()) == Some(o.ov()), None => path_extension(self.pv()) is None },
    { unimplemented!() }
}
pub uninterp spec fn path_file_name(p: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn path_extension(p: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn path_strip(p: Seq<u8>, base: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn lossy(o: Seq<u8>) -> Seq<u8>;
pub open spec fn opv_path(p: Option<&PathBuf>) -> Option<Seq<u8>> { match p { Some(x) => Some(x.pv()), None => None } }
impl OsStr {
    pub closed spec fn ov(&self) -> Seq<u8> { self.p@ }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.ov().len() == 0), { self.p.len() == 0 }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(s) => s.sb() == self.ov() && valid_utf8(self.ov()), None => !valid_utf8(self.ov()) }, { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: CowStr) ensures r.sb() == lossy(self.ov()), { unimplemented!() }
}
/// A Result whose error value is of no interest.
pub type VxRes<T> = std::result::Result<T, VxNoError>;
pub struct VxNoError { }

#[verifier::external_body]
pub struct VxIoError { e: () }
pub type VxIoResult<T> = std::result::Result<T, VxIoError>;

#[verifier::external_body]
pub fn vx_fs_read_to_string<P: VxAsPath>(p: P, Tracked(fs): Tracked<&mut FsState>) -> (r: VxIoResult<String>)
    ensures *final(fs) == *old(fs),
        match r {
            Ok(s) => old(fs).resolve(p.ppv()) is Some && old(fs).files().contains_key(old(fs).resolve(p.ppv())->0) && s.sb() == old(fs).files()[old(fs).resolve(p.ppv())->0],
            Err(_) => !old(fs).readable(p.ppv()) },
{ unimplemented!() }
/// Creates or truncates a file.
#[verifier::external_body]
pub fn vx_file_create<P: VxAsPath>(p: P, Tracked(fs): Tracked<&mut FsState>) -> (r: VxIoResult<VxFile>)
    ensures
        match r {
            Ok(f) => final(fs).resolve(p.ppv()) == Some(f.at()) && f.written() == Seq::<u8>::empty()
                && (forall|q: Seq<u8>| #[trigger] old(fs).resolve(q) is Some ==> final(fs).resolve(q) == old(fs).resolve(q))
                && final(fs).files() == old(fs).files().insert(f.at(), Seq::empty())
                && (forall|b: Seq<u8>| #[trigger] final(fs).fits(f.at(), b) == old(fs).accepts(p.ppv(), b)),
            Err(_) => *final(fs) == *old(fs) && forall|b: Seq<u8>| !#[trigger] old(fs).accepts(p.ppv(), b) },
{ unimplemented!() }
impl VxFile {
    pub uninterp spec fn at(&self) -> Seq<u8>;
    pub uninterp spec fn written(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8], Tracked(fs): Tracked<&mut FsState>) -> (r: VxIoResult<()>)
        ensures final(self).at() == old(self).at(),
            forall|q: Seq<u8>| #[trigger] final(fs).resolve(q) == old(fs).resolve(q),
            match r {
                Ok(_) => final(self).written() == old(self).written() + b@ && final(fs).files() == old(fs).files().insert(old(self).at(), final(self).written())
                    && (forall|w: Seq<u8>| #[trigger] final(fs).fits(old(self).at(), w) == old(fs).fits(old(self).at(), w)),
                Err(_) => !old(fs).fits(old(self).at(), old(self).written() + b@) && exists|w: Seq<u8>| final(fs).files() == #[trigger] old(fs).files().insert(old(self).at(), w) },
    { unimplemented!() }
}

// ---------------------------------------------------------------- errors (stand-in for error_chain)
pub enum ErrorKind { EmptyWorkspace, MissingPath, MissingScope, MissingSyntax }
pub enum Error { Kind(ErrorKind), Io(VxIoError), ParsingError(ParsingError), ScopeError(ScopeError), SyntaxLoadingError(LoadingError) }
pub type Result<T> = std::result::Result<T, Error>;
pub trait VxConv<T>: Sized { spec fn conv(self) -> T; fn vx_into(self) -> (r: T) ensures r == self.conv(); }
impl VxConv<Error> for ErrorKind { open spec fn conv(self) -> Error { Error::Kind(self) } fn vx_into(self) -> Error { Error::Kind(self) } }
impl VxConv<Error> for VxIoError { open spec fn conv(self) -> Error { Error::Io(self) } fn vx_into(self) -> Error { Error::Io(self) } }
impl VxConv<Error> for ParsingError { open spec fn conv(self) -> Error { Error::ParsingError(self) } fn vx_into(self) -> Error { Error::ParsingError(self) } }
impl VxConv<Error> for ScopeError { open spec fn conv(self) -> Error { Error::ScopeError(self) } fn vx_into(self) -> Error { Error::ScopeError(self) } }
impl VxConv<Error> for LoadingError { open spec fn conv(self) -> Error { Error::SyntaxLoadingError(self) } fn vx_into(self) -> Error { Error::SyntaxLoadingError(self) } }
impl VxConv<Error> for Error { open spec fn conv(self) -> Error { self } fn vx_into(self) -> Error { self } }
impl VxConv<VxIoError> for VxIoError { open spec fn conv(self) -> VxIoError { self } fn vx_into(self) -> VxIoError { self } }

// ---------------------------------------------------------------- syntect (trusted)
#[verifier::external_body] pub struct ParsingError { e: () }
#[verifier::external_body] pub struct ScopeError { e: () }
#[verifier::external_body] pub struct LoadingError { e: () }
#[verifier::external_body] pub struct ScopeStackOp { e: () }
#[verifier::external_body] pub struct ScopeStack { e: () }
#[verifier::external_body] pub struct ParseState { e: () }
#[verifier::external_body] pub struct SyntaxSet { e: () }
#[verifier::external_body] pub struct SyntaxSetBuilder { e: () }
#[verifier::external_body] pub struct SyntaxReference { e: () }

impl ScopeStack {
    #[verifier::external_body]
    pub fn new() -> (r: ScopeStack) ensures r == no_scopes(), { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: ScopeStack) ensures r == *self, { unimplemented!() }
    #[verifier::external_body]
    pub fn apply(&mut self, op: &ScopeStackOp) -> (r: std::result::Result<(), ScopeError>)
        ensures match r { Ok(_) => *final(self) == applied(*old(self), *op) && applies(*old(self), *op), Err(_) => !applies(*old(self), *op) },
    { unimplemented!() }
}
pub uninterp spec fn no_scopes() -> ScopeStack;
/// a scope stack after an operation on it
pub uninterp spec fn applies(s: ScopeStack, op: ScopeStackOp) -> bool;
pub uninterp spec fn applied(s: ScopeStack, op: ScopeStackOp) -> ScopeStack;
pub uninterp spec fn parser_start(s: SyntaxReference) -> ParseState;
/// what the parser reports for a line
pub uninterp spec fn parsed(p: ParseState, line: Seq<u8>, s: SyntaxSet) -> Seq<(usize, ScopeStackOp)>;
/// whether it can parse the line
pub uninterp spec fn parses(p: ParseState, line: Seq<u8>, s: SyntaxSet) -> bool;
/// the parser once it has parsed a line
pub uninterp spec fn parser_after(p: ParseState, line: Seq<u8>, s: SyntaxSet) -> ParseState;
/// events of a parsed line: byte offsets in order, within the line, on character boundaries
pub open spec fn events_ok(ev: Seq<(usize, ScopeStackOp)>, line: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < ev.len() ==> (#[trigger] ev[i]).0 <= line.len() && boundary(line, ev[i].0 as int)
    &&& forall|i: int, j: int| 0 <= i <= j < ev.len() ==> (#[trigger] ev[i]).0 <= (#[trigger] ev[j]).0
}
impl ParseState {
    #[verifier::external_body]
    pub fn new(s: &SyntaxReference) -> (r: ParseState) ensures r == parser_start(*s), { unimplemented!() }
    #[verifier::external_body]
    pub fn parse_line(&mut self, line: &str, s: &SyntaxSet) -> (r: std::result::Result<Vec<(usize, ScopeStackOp)>, ParsingError>)
        ensures match r { Ok(v) => v@ == parsed(*old(self), line.sb(), *s) && *final(self) == parser_after(*old(self), line.sb(), *s) && events_ok(v@, line.sb()) && parses(*old(self), line.sb(), *s), Err(_) => !parses(*old(self), line.sb(), *s) },
    { unimplemented!() }
}
/// the definitions that come with syntect, and what a directory of definitions (whose lines end in line feeds, or not) adds to them
pub uninterp spec fn default_syntaxes() -> SyntaxSet;
pub uninterp spec fn builder_of(s: SyntaxSet) -> SyntaxSetBuilder;
pub uninterp spec fn built(b: SyntaxSetBuilder) -> SyntaxSet;
pub uninterp spec fn folder_loads(p: Seq<u8>, newlines: bool) -> bool;
pub uninterp spec fn with_folder(b: SyntaxSetBuilder, p: Seq<u8>, newlines: bool) -> SyntaxSetBuilder;
impl SyntaxReference {
    /// the name by which a definition is identified
    pub uninterp spec fn name(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SyntaxReference) ensures r.name() == self.name(), { unimplemented!() }
}
impl SyntaxSet {
    pub uninterp spec fn by_extension(&self, e: Seq<u8>) -> Option<int>;
    pub uninterp spec fn plain_text(&self) -> int;
    #[verifier::external_body]
    pub fn load_defaults_newlines() -> (r: SyntaxSet) ensures r == default_syntaxes(), { unimplemented!() }
    #[verifier::external_body]
    pub fn into_builder(self) -> (r: SyntaxSetBuilder) ensures r == builder_of(self), { unimplemented!() }
    #[verifier::external_body]
    pub fn find_syntax_by_extension(&self, e: &str) -> (r: Option<&SyntaxReference>)
        ensures match r { Some(s) => self.by_extension(e.sb()) == Some(s.name()), None => self.by_extension(e.sb()) is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_syntax_plain_text(&self) -> (r: &SyntaxReference) ensures r.name() == self.plain_text(), { unimplemented!() }
}
impl SyntaxSetBuilder {
    #[verifier::external_body]
    pub fn add_from_folder(&mut self, p: &PathBuf, b: bool) -> (r: std::result::Result<(), LoadingError>)
        ensures match r { Ok(_) => folder_loads(p.pv(), b) && *final(self) == with_folder(*old(self), p.pv(), b), Err(_) => !folder_loads(p.pv(), b) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: SyntaxSet) ensures r == built(self), { unimplemented!() }
}

pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a);
/// cmp::min and cmp::max on indices
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b } else { a } { if a <= b { b } else { a } }

// ---------------------------------------------------------------- vectors
/// `partition_point` finds the number of elements a predicate holds of, provided that none of them comes after one it does not hold of
pub fn vx_partitioned(past: bool) requires !past, {}
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    /// a shared iterator over the elements
    fn vx_iter<'a>(&'a self) -> (r: Lst<&'a T>)
        ensures r.fresh(), r.all().len() == self.vv().len(), forall|i: int| 0 <= i < self.vv().len() ==> *(#[trigger] r.all()[i]) == self.vv()[i];
    fn vx_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    fn vx_iter<'a>(&'a self) -> (r: Lst<&'a T>) {
        let mut v: Vec<&'a T> = Vec::new();
        let mut i = 0;
        while i < self.len()
            invariant i <= self@.len(), v@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] v@[k]) == self@[k],
            decreases self@.len() - i
        { v.push(&self[i]); i += 1; }
        Lst::vx_of(v)
    }
    fn vx_reverse(&mut self) {
        let v = std::mem::replace(self, Vec::new());
        *self = vx_reversed(v);
    }
}

} // verus!
