//@ module workspace
//@ raw
/// a path as the workspace shows it: relative to its own path, when it lies below that
pub open spec fn shown(p: Option<PathBuf>, base: Seq<u8>) -> Option<Seq<u8>> {
    match p { Some(x) => match path_strip(x.pv(), base) { Some(s) => Some(s), None => Some(x.pv()) }, None => None }
}
pub open spec fn path_of(b: Buffer) -> Option<Seq<u8>> { match b.path { Some(p) => Some(p.pv()), None => None } }
/// what a syntax definition is looked up by: the file extension or, without one, the file name
pub open spec fn syntax_key(b: Buffer) -> Option<Seq<u8>> {
    match b.path {
        Some(p) => match path_extension(p.pv()) {
            Some(e) => if e.len() > 0 { Some(lossy(e)) } else { name_key(p.pv()) },
            None => name_key(p.pv()),
        },
        None => None,
    }
}
pub open spec fn name_key(p: Seq<u8>) -> Option<Seq<u8>> { match path_file_name(p) { Some(f) => if valid_utf8(f) { Some(f) } else { None }, None => None } }
pub open spec fn syntax_for(s: SyntaxSet, b: Buffer) -> int {
    match syntax_key(b) { Some(k) => match s.by_extension(k) { Some(n) => n, None => s.plain_text() }, None => s.plain_text() }
}
/// the buffer, but for its id and syntax definition
pub open spec fn same_buffer(a: Buffer, b: Buffer) -> bool { a == (Buffer { id: a.id, syntax_definition: a.syntax_definition, ..b }) }
pub open spec fn has_syntax(s: SyntaxSet, b: Buffer) -> bool { b.syntax_definition is Some && b.syntax_definition->0.name() == syntax_for(s, b) }
/// a buffer's id and syntax definition have nothing to do with the rest of it
pub proof fn lemma_meta(a: Buffer, b: Buffer)
    requires a.inv(), same_buffer(b, a), ensures b.inv(), b.text() == a.text(), b.is_modified() == a.is_modified(), path_of(b) == path_of(a), syntax_key(b) == syntax_key(a),
{
    assert(b.chain() == a.chain() && b.open_ops() == a.open_ops() && b.base() == a.base() && b.text() == a.text() && b.wf_data());
}
/// every buffer has an id of its own, below n
pub open spec fn seq_ids(s: Seq<Buffer>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id is Some && s[i].id->0 < n
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).id != (#[trigger] s[j]).id
}
pub open spec fn seq_inv(s: Seq<Buffer>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inv() }
pub proof fn lemma_seq_insert(s: Seq<Buffer>, at: int, b: Buffer, n: int)
    requires 0 <= at <= s.len(), b.id is Some, b.id->0 == n,
    ensures seq_ids(s, n) ==> seq_ids(s.insert(at, b), n + 1), seq_inv(s) && b.inv() ==> seq_inv(s.insert(at, b)),
{
    hide(Buffer::inv);
    let r = s.insert(at, b);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if i < at { s[i] } else if i == at { b } else { s[i - 1] }) by {}
}
pub proof fn lemma_seq_remove(s: Seq<Buffer>, at: int, n: int)
    requires 0 <= at < s.len(),
    ensures seq_ids(s, n) ==> seq_ids(s.remove(at), n), seq_inv(s) ==> seq_inv(s.remove(at)),
{
    hide(Buffer::inv);
    let r = s.remove(at);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == s[if i < at { i } else { i + 1 }] by {}
}
pub proof fn lemma_seq_update(s: Seq<Buffer>, at: int, b: Buffer, n: int)
    requires 0 <= at < s.len(), b.id == s[at].id,
    ensures seq_ids(s, n) ==> seq_ids(s.update(at, b), n), seq_inv(s) && b.inv() ==> seq_inv(s.update(at, b)),
{
    hide(Buffer::inv);
    let r = s.update(at, b);
    assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] == (if i == at { b } else { s[i] }) by {}
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).id == s[i].id by {}
}
impl Workspace {
    /// the open buffers, in order, the current one among them
    pub open spec fn open(&self) -> Seq<Buffer> {
        match self.current_buffer_index { Some(i) => if self.current_buffer is Some { self.buffers@.update(i as int, self.current_buffer->0) } else { self.buffers@ }, None => self.buffers@ }
    }
    pub open spec fn ids_ok(&self) -> bool { seq_ids(self.open(), self.next_buffer_id as int) }
    pub open spec fn ok(&self) -> bool {
        &&& self.current_buffer_index is Some == self.current_buffer is Some
        &&& self.current_buffer_index is Some == (self.buffers@.len() > 0)
        &&& self.current_buffer_index is Some ==> self.current_buffer_index->0 < self.buffers@.len()
        &&& seq_inv(self.open())
        &&& self.current_buffer is Some ==> self.current_buffer->0.inv() && self.current_buffer->0 == self.open()[self.current_buffer_index->0 as int]
            && self.buffers@[self.current_buffer_index->0 as int].path is None
    }
    pub open spec fn same_env(&self, o: Workspace) -> bool { self.path == o.path && self.syntax_set == o.syntax_set }
}
//@ fn Workspace::select_buffer
//@ ret r
//@ spec
    requires index < old(self).buffers@.len(), old(self).current_buffer is Some ==> old(self).current_buffer_index is Some && old(self).current_buffer_index->0 < old(self).buffers@.len(),
    ensures r, final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id,
        final(self).open() =~= old(self).open(), final(self).current_buffer == Some(old(self).open()[index as int]), final(self).current_buffer_index == Some(index), final(self).buffers@[index as int].path is None, final(self).buffers@.len() == old(self).buffers@.len(),
//@ fn Workspace::select_buffer_by_path
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures *final(vx_fs) == *old(vx_fs), final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id, final(self).open() == old(self).open(),
        r ==> old(vx_fs).resolve(path.pv()) is Some && final(self).current_buffer is Some && path_of(final(self).current_buffer->0) == old(vx_fs).resolve(path.pv()),
        !r ==> *final(self) == *old(self) && (old(vx_fs).resolve(path.pv()) is Some ==>
            forall|i: int| 0 <= i < old(self).open().len() ==> path_of(#[trigger] old(self).open()[i]) != old(vx_fs).resolve(path.pv())),
//@ loop 0
    invariant_except_break vx_n0 == vx_it0.pos(), vx_r0 is None,
    invariant
        vx_it0.wf(), vx_it0.all().len() == self.buffers@.len(), forall|k: int| 0 <= k < vx_it0.all().len() ==> *(#[trigger] vx_it0.all()[k]) == self.buffers@[k],
        forall|k: int| 0 <= k < vx_n0 ==> path_of(#[trigger] self.buffers@[k]) != Some(canonical_path.pv()),
    ensures
        match vx_r0 { Some(k) => k < self.buffers@.len() && path_of(self.buffers@[k as int]) == Some(canonical_path.pv()), None => vx_n0 == self.buffers@.len() },
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ fn Workspace::new
//@ ret r
//@ spec
    ensures *final(vx_fs) == *old(vx_fs),
        match r { Ok(w) => w.ok() && w.ids_ok() && w.open().len() == 0 && w.current_buffer_index is None && old(vx_fs).resolve(path.pv()) == Some(w.path.pv())
                && match opv_path(syntax_definitions) { Some(d) => folder_loads(d, true) && w.syntax_set == built(with_folder(builder_of(default_syntaxes()), d, true)), None => w.syntax_set == default_syntaxes() },
            Err(_) => old(vx_fs).resolve(path.pv()) is None || (syntax_definitions is Some && !folder_loads(syntax_definitions->0.pv(), true)) },
//@ fn Workspace::add_buffer
//@ spec
    requires old(self).ok(), buf.inv(), old(self).next_buffer_id < usize::MAX,
    ensures final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id + 1,
        final(self).current_buffer_index == Some(match old(self).current_buffer_index { Some(i) => (i + 1) as usize, None => 0usize }),
        final(self).current_buffer is Some, same_buffer(final(self).current_buffer->0, buf), final(self).current_buffer->0.id == Some(old(self).next_buffer_id),
        final(self).open() == old(self).open().insert(final(self).current_buffer_index->0 as int, final(self).current_buffer->0),
        buf.syntax_definition is Some ==> final(self).current_buffer->0.syntax_definition == buf.syntax_definition,
        buf.syntax_definition is None ==> has_syntax(old(self).syntax_set, final(self).current_buffer->0),
        old(self).ids_ok() ==> final(self).ids_ok(),
//@ at entry
let ghost at = (match self.current_buffer_index { Some(i) => i + 1, None => 0 });
let ghost b0 = Buffer { id: Some(self.next_buffer_id), ..buf };
proof { assert(self.buffers.len() == self.buffers@.len()); lemma_meta(buf, b0); }
//@ at before select_buffer#0
proof {
    assert(self.open() =~= old(self).open().insert(at, b0));
    lemma_seq_insert(old(self).open(), at, b0, old(self).next_buffer_id as int);
}
//@ at after select_buffer#0
let ghost s1 = *self;
//@ at exit
proof {
    let c = self.current_buffer->0;
    assert(self.open() =~= s1.open().update(at, c));
    assert(s1.open() =~= old(self).open().insert(at, b0));
    assert(self.open() =~= old(self).open().insert(at, c));
    lemma_seq_update(s1.open(), at, c, self.next_buffer_id as int);
}
//@ fn Workspace::open_buffer
//@ ret r
//@ spec
    requires old(self).ok(), old(self).next_buffer_id < usize::MAX,
    ensures *final(vx_fs) == *old(vx_fs), final(self).ok(), final(self).same_env(*old(self)),
        old(self).ids_ok() ==> final(self).ids_ok(), old(self).next_buffer_id <= final(self).next_buffer_id <= old(self).next_buffer_id + 1,
        match r {
            Ok(_) => old(vx_fs).resolve(path.pv()) is Some && final(self).current_buffer is Some && path_of(final(self).current_buffer->0) == old(vx_fs).resolve(path.pv())
                && if exists|i: int| 0 <= i < old(self).open().len() && path_of(#[trigger] old(self).open()[i]) == old(vx_fs).resolve(path.pv()) {
                    final(self).open() == old(self).open()
                } else {
                    &&& final(self).open() == old(self).open().insert(final(self).current_buffer_index->0 as int, final(self).current_buffer->0)
                    &&& final(self).current_buffer_index->0 == (match old(self).current_buffer_index { Some(i) => i + 1, None => 0 })
                    &&& old(vx_fs).holds(path.pv(), final(self).current_buffer->0.text()) && !final(self).current_buffer->0.is_modified()
                    &&& has_syntax(old(self).syntax_set, final(self).current_buffer->0)
                },
            Err(_) => *final(self) == *old(self) && !old(vx_fs).readable(path.pv()),
        },
//@ at entry
proof { assert(self.buffers.len() == self.buffers@.len()); }
//@ at before add_buffer#0
let ghost b0 = buffer;
//@ at after add_buffer#0
proof { lemma_meta(b0, self.current_buffer->0); }
//@ at exit
proof {
    if self.open() == old(self).open() && vx_ret is Ok { assert(path_of(old(self).open()[self.current_buffer_index->0 as int]) == old(vx_fs).resolve(path.pv())); }
}
//@ fn Workspace::current_buffer_path
//@ ret r
//@ spec
    ensures opv_path(r) == match self.current_buffer { Some(b) => shown(b.path, self.path.pv()), None => None },
//@ fn Workspace::current_buffer_index
//@ ret r
//@ spec
    ensures r == self.current_buffer_index,
//@ fn Workspace::close_current_buffer
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id,
        match old(self).current_buffer_index {
            Some(i) => final(self).open() == old(self).open().remove(i as int)
                && final(self).current_buffer_index == (if old(self).open().len() == 1 { None } else { Some((if i > 0 { i - 1 } else { 0 }) as usize) }),
            None => final(self).open() == old(self).open() && final(self).current_buffer_index is None,
        },
        old(self).ids_ok() ==> final(self).ids_ok(),
//@ at after remove#0
proof {
    let at = index as int;
    assert(self.open() =~= old(self).open().remove(at));
    lemma_seq_remove(old(self).open(), at, self.next_buffer_id as int);
}
//@ fn Workspace::previous_buffer
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id, final(self).open() == old(self).open(),
        final(self).current_buffer_index == match old(self).current_buffer_index { Some(i) => Some((if i > 0 { i - 1 } else { old(self).open().len() - 1 }) as usize), None => None },
//@ fn Workspace::next_buffer
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id, final(self).open() == old(self).open(),
        final(self).current_buffer_index == match old(self).current_buffer_index { Some(i) => Some((if i + 1 < old(self).open().len() { i + 1 } else { 0 }) as usize), None => None },
//@ fn Workspace::current_buffer_tokens
//@ ret r
//@ spec
    requires self.ok(),
    ensures match r {
        Ok(s) => self.current_buffer is Some && s.data.sb() == self.current_buffer->0.text() && self.current_buffer->0.syntax_definition == Some(*s.syntax_definition) && *s.syntaxes == self.syntax_set,
        Err(e) => e == Error::Kind(if self.current_buffer is None { ErrorKind::EmptyWorkspace } else { ErrorKind::MissingSyntax })
            && (self.current_buffer is None || self.current_buffer->0.syntax_definition is None),
    },
//@ fn Workspace::buffer_paths
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures *final(self) == *old(self), r@.len() == old(self).open().len(),
        forall|i: int| 0 <= i < r@.len() ==> opv_path(#[trigger] r@[i]) == shown(old(self).open()[i].path, old(self).path.pv()),
//@ loop 0
    invariant
        vx_it0.wf(), self.ok(), *self == *old(self), vx_it0.all().len() == self.buffers@.len(),
        forall|k: int| 0 <= k < vx_it0.all().len() ==> (#[trigger] vx_it0.all()[k]).0 == k && *vx_it0.all()[k].1 == self.buffers@[k],
        vx_out0@.len() == vx_it0.pos(),
        forall|k: int| 0 <= k < vx_out0@.len() ==> opv_path(#[trigger] vx_out0@[k]) == shown(self.open()[k].path, self.path.pv()),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ fn Workspace::update_current_syntax
//@ ret r
//@ spec
    requires old(self).ok(),
    ensures final(self).ok(), final(self).same_env(*old(self)), final(self).next_buffer_id == old(self).next_buffer_id,
        final(self).buffers == old(self).buffers, final(self).current_buffer_index == old(self).current_buffer_index,
        match r {
            Ok(_) => old(self).current_buffer is Some && final(self).current_buffer is Some && has_syntax(old(self).syntax_set, final(self).current_buffer->0)
                && final(self).open() == old(self).open().update(old(self).current_buffer_index->0 as int, final(self).current_buffer->0)
                && final(self).current_buffer->0 == (Buffer { syntax_definition: final(self).current_buffer->0.syntax_definition, ..old(self).current_buffer->0 }),
            Err(e) => old(self).current_buffer is None && *final(self) == *old(self) && e == Error::Kind(ErrorKind::EmptyWorkspace),
        },
//@ at exit
proof {
    if old(self).current_buffer is Some {
        lemma_meta(old(self).current_buffer->0, self.current_buffer->0);
        let k = self.current_buffer_index->0 as int;
        assert(self.open() =~= old(self).open().update(k, self.current_buffer->0));
        lemma_seq_update(old(self).open(), k, self.current_buffer->0, self.next_buffer_id as int);
    }
}
