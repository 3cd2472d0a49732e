//@ module operation
//@ raw
// ------------------------------------------------------------------ operations, abstractly
/// An operation, with strings as bytes: what it inserts, removes or replaces, and what it recorded when it ran.
pub enum OpV {
    Ins(Position, Seq<u8>, Option<int>),
    Del(Position, Position, Option<Seq<u8>>, Option<int>),
    Rep(Seq<u8>, Seq<u8>),
    Grp(Seq<OpV>),
}
pub open spec fn opt_int(o: Option<usize>) -> Option<int> { match o { Some(x) => Some(x as int), None => None } }
pub open spec fn opt_sb(o: Option<String>) -> Option<Seq<u8>> { match o { Some(x) => Some(x.sb()), None => None } }
pub open spec fn opv(op: DynOperation) -> OpV decreases op {
    match op {
        DynOperation::Insert(i) => i.v(),
        DynOperation::Delete(d) => d.v(),
        DynOperation::Replace(r) => r.v(),
        DynOperation::OperationGroup(g) => OpV::Grp(opsv(g.operations, g.operations@.len() as int)),
    }
}
pub open spec fn opsv(v: Vec<DynOperation>, n: int) -> Seq<OpV> decreases v, n {
    if n <= 0 || n > v@.len() { Seq::empty() } else { opsv(v, n - 1).push(opv(v@[n - 1])) }
}
impl Insert { pub open spec fn v(&self) -> OpV { OpV::Ins(self.position, self.content.sb(), opt_int(self.offset)) } }
impl Delete { pub open spec fn v(&self) -> OpV { OpV::Del(self.range.start, self.range.end, opt_sb(self.content), opt_int(self.offset)) } }
impl Replace { pub open spec fn v(&self) -> OpV { OpV::Rep(self.old_content.sb(), self.new_content.sb()) } }
impl OperationGroup {
    pub open spec fn ops(&self) -> Seq<OpV> { opsv(self.operations, self.operations@.len() as int) }
    pub open spec fn v(&self) -> OpV { OpV::Grp(self.ops()) }
}
pub proof fn lemma_opsv(v: Vec<DynOperation>, n: int)
    requires 0 <= n <= v@.len(),
    ensures opsv(v, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] opsv(v, n)[i] == opv(v@[i]),
    decreases n,
{ if n > 0 { lemma_opsv(v, n - 1); } }
/// the view of a vector of operations, element by element
pub proof fn lemma_ops(v: Vec<DynOperation>)
    ensures opsv(v, v@.len() as int).len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] opsv(v, v@.len() as int)[i] == opv(v@[i]),
{ lemma_opsv(v, v@.len() as int); }
pub proof fn lemma_opsv_ext(v: Vec<DynOperation>, w: Vec<DynOperation>, n: int)
    requires 0 <= n <= v@.len(), n <= w@.len(), forall|j: int| 0 <= j < n ==> v@[j] == w@[j],
    ensures opsv(v, n) == opsv(w, n), decreases n,
{ if n > 0 { lemma_opsv_ext(v, w, n - 1); } }

/// the text after running an operation on t
pub open spec fn run_text(o: OpV, t: Seq<u8>) -> Seq<u8> decreases o {
    match o {
        OpV::Ins(p, c, _) => text_insert(t, c, p),
        OpV::Del(s, e, _, _) => text_delete(t, s, e),
        OpV::Rep(_, n) => n,
        OpV::Grp(ops) => run_all(ops, ops.len() as int, t),
    }
}
/// the text after running the first n operations on t
pub open spec fn run_all(ops: Seq<OpV>, n: int, t: Seq<u8>) -> Seq<u8> decreases ops, n {
    if n <= 0 || n > ops.len() { t } else { run_text(ops[n - 1], run_all(ops, n - 1, t)) }
}
/// the operation as it is after having run on t: with what it recorded
pub open spec fn ran(o: OpV, t: Seq<u8>) -> OpV decreases o {
    match o {
        OpV::Ins(p, c, _) => OpV::Ins(p, c, offset_of(t, p)),
        OpV::Del(s, e, _, _) => match offset_of(t, s) {
            Some(a) => OpV::Del(s, e, Some(t.subrange(a, del_end(t, e))), Some(a)),
            None => OpV::Del(s, e, None, None),
        },
        OpV::Rep(a, b) => OpV::Rep(a, b),
        OpV::Grp(ops) => OpV::Grp(ran_all(ops, ops.len() as int, t)),
    }
}
pub open spec fn ran_all(ops: Seq<OpV>, n: int, t: Seq<u8>) -> Seq<OpV> decreases ops, n {
    if n <= 0 || n > ops.len() { Seq::empty() } else { ran_all(ops, n - 1, t).push(ran(ops[n - 1], run_all(ops, n - 1, t))) }
}
/// an operation that can be run
pub open spec fn op_ok(o: OpV) -> bool decreases o {
    match o {
        OpV::Ins(p, c, _) => valid_utf8(c),
        OpV::Del(s, e, _, _) => pos_le(s, e) && e.line < usize::MAX,
        OpV::Rep(a, b) => valid_utf8(a) && valid_utf8(b),
        OpV::Grp(ops) => all_ok(ops, ops.len() as int),
    }
}
pub open spec fn all_ok(ops: Seq<OpV>, n: int) -> bool decreases ops, n {
    if n <= 0 || n > ops.len() { true } else { all_ok(ops, n - 1) && op_ok(ops[n - 1]) }
}
/// the operation was run on t (and recorded what is needed to reverse it)
pub open spec fn linked(o: OpV, t: Seq<u8>) -> bool decreases o {
    match o {
        OpV::Ins(p, c, off) => off == offset_of(t, p),
        OpV::Del(s, e, c, off) => off == offset_of(t, s)
            && c == (match offset_of(t, s) { Some(a) => Some(t.subrange(a, del_end(t, e))), None => None::<Seq<u8>> }),
        OpV::Rep(a, b) => a == t,
        OpV::Grp(ops) => all_linked(ops, ops.len() as int, t),
    }
}
pub open spec fn all_linked(ops: Seq<OpV>, n: int, t: Seq<u8>) -> bool decreases ops, n {
    if n <= 0 || n > ops.len() { true } else { all_linked(ops, n - 1, t) && linked(ops[n - 1], run_all(ops, n - 1, t)) }
}
/// the text after reversing an operation on t
pub open spec fn rev_text(o: OpV, t: Seq<u8>) -> Seq<u8> decreases o {
    match o {
        OpV::Ins(p, c, off) => match off { Some(a) => del(t, a, a + c.len()), None => t },
        OpV::Del(s, e, c, off) => match (off, c) { (Some(a), Some(d)) => ins(t, a, d), _ => t },
        OpV::Rep(a, _) => a,
        OpV::Grp(ops) => rev_all(ops, 0, t),
    }
}
/// the text after reversing the operations from the last one down to the i-th
pub open spec fn rev_all(ops: Seq<OpV>, i: int, t: Seq<u8>) -> Seq<u8> decreases ops, ops.len() - i {
    if i < 0 || i >= ops.len() { t } else { rev_text(ops[i], rev_all(ops, i + 1, t)) }
}
/// the operation can be reversed on t
pub open spec fn rev_ok(o: OpV, t: Seq<u8>) -> bool decreases o {
    match o {
        OpV::Ins(p, c, off) => match off { Some(a) => boundary(t, a) && boundary(t, a + c.len()), None => true },
        OpV::Del(s, e, c, off) => match (off, c) { (Some(a), Some(d)) => boundary(t, a) && valid_utf8(d), _ => true },
        OpV::Rep(a, _) => valid_utf8(a),
        OpV::Grp(ops) => rev_all_ok(ops, 0, t),
    }
}
pub open spec fn rev_all_ok(ops: Seq<OpV>, i: int, t: Seq<u8>) -> bool decreases ops, ops.len() - i {
    if i < 0 || i >= ops.len() { true } else { rev_all_ok(ops, i + 1, t) && rev_ok(ops[i], rev_all(ops, i + 1, t)) }
}
/// what a change callback is told while an operation runs on t: positions, and the text visible at that time
pub open spec fn run_notes(o: OpV, t: Seq<u8>) -> Seq<(Position, Seq<u8>)> decreases o {
    match o {
        OpV::Ins(p, c, _) => seq![(p, run_text(o, t))],
        OpV::Del(s, e, _, _) => seq![(s, run_text(o, t))],
        OpV::Rep(_, n) => seq![(Position { line: 0, offset: 0 }, n)],
        OpV::Grp(ops) => run_all_notes(ops, ops.len() as int, t),
    }
}
pub open spec fn run_all_notes(ops: Seq<OpV>, n: int, t: Seq<u8>) -> Seq<(Position, Seq<u8>)> decreases ops, n {
    if n <= 0 || n > ops.len() { Seq::empty() } else { run_all_notes(ops, n - 1, t) + run_notes(ops[n - 1], run_all(ops, n - 1, t)) }
}
/// the same, while it is reversed
pub open spec fn rev_notes(o: OpV, t: Seq<u8>) -> Seq<(Position, Seq<u8>)> decreases o {
    match o {
        OpV::Ins(p, c, _) => seq![(p, rev_text(o, t))],
        OpV::Del(s, e, c, off) => if off is Some && c is Some { seq![(s, rev_text(o, t))] } else { Seq::empty() },
        OpV::Rep(a, _) => seq![(Position { line: 0, offset: 0 }, a)],
        OpV::Grp(ops) => rev_all_notes(ops, 0, t),
    }
}
pub open spec fn rev_all_notes(ops: Seq<OpV>, i: int, t: Seq<u8>) -> Seq<(Position, Seq<u8>)> decreases ops, ops.len() - i {
    if i < 0 || i >= ops.len() { Seq::empty() } else { rev_all_notes(ops, i + 1, t) + rev_notes(ops[i], rev_all(ops, i + 1, t)) }
}
/// where the cursor goes when the whole text becomes n: it stays, or keeps its line, or goes to the start
pub open spec fn retarget(n: Seq<u8>, p: Position) -> Position {
    if offset_of(n, p) is Some { p } else if place(n, p.line as int, 0) is Some { Position { line: p.line, offset: 0 } } else { Position { line: 0, offset: 0 } }
}
pub open spec fn run_cursor(o: OpV, p: Position) -> Position decreases o {
    match o { OpV::Rep(_, n) => retarget(n, p), OpV::Grp(ops) => run_all_cursor(ops, ops.len() as int, p), _ => p }
}
pub open spec fn run_all_cursor(ops: Seq<OpV>, n: int, p: Position) -> Position decreases ops, n {
    if n <= 0 || n > ops.len() { p } else { run_cursor(ops[n - 1], run_all_cursor(ops, n - 1, p)) }
}
pub open spec fn rev_cursor(o: OpV, p: Position) -> Position decreases o {
    match o { OpV::Rep(a, _) => retarget(a, p), OpV::Grp(ops) => rev_all_cursor(ops, 0, p), _ => p }
}
pub open spec fn rev_all_cursor(ops: Seq<OpV>, i: int, p: Position) -> Position decreases ops, ops.len() - i {
    if i < 0 || i >= ops.len() { p } else { rev_cursor(ops[i], rev_all_cursor(ops, i + 1, p)) }
}

// ------------------------------------------------------------------ lemmas
pub proof fn lemma_ins(t: Seq<u8>, o: int, d: Seq<u8>)
    requires valid_utf8(t), boundary(t, o), valid_utf8(d),
    ensures valid_utf8(ins(t, o, d)), boundary(ins(t, o, d), o), boundary(ins(t, o, d), o + d.len()), del(ins(t, o, d), o, o + d.len()) == t,
        ins(t, o, d).len() == t.len() + d.len(),
{
    lemma_split(t, o);
    let (a, b) = (t.subrange(0, o), t.subrange(o, t.len() as int));
    valid_utf8_concat(a, d);
    valid_utf8_concat(a + d, b);
    let r = ins(t, o, d);
    if d.len() > 0 { lemma_ends_boundary(d); assert(r[o] == d[0]); } else if o < t.len() { assert(r[o] == t[o]); }
    if o < t.len() { assert(r[o + d.len()] == t[o]); }
    assert(del(r, o, o + d.len()) =~= t);
}
pub proof fn lemma_del(t: Seq<u8>, a: int, b: int)
    requires valid_utf8(t), boundary(t, a), boundary(t, b), a <= b,
    ensures valid_utf8(del(t, a, b)), boundary(del(t, a, b), a), valid_utf8(t.subrange(a, b)), ins(del(t, a, b), a, t.subrange(a, b)) == t,
        del(t, a, b).len() == t.len() - (b - a),
{
    lemma_boundaries(t, a, b);
    valid_utf8_concat(t.subrange(0, a), t.subrange(b, t.len() as int));
    let r = del(t, a, b);
    if b < t.len() { assert(r[a] == t[b]); }
    assert(ins(r, a, t.subrange(a, b)) =~= t);
}
/// running an operation keeps the text valid, and reversing it right away restores the text
pub proof fn lemma_reverse(o: OpV, t: Seq<u8>)
    requires valid_utf8(t), op_ok(o), linked(o, t),
    ensures valid_utf8(run_text(o, t)), rev_ok(o, run_text(o, t)), rev_text(o, run_text(o, t)) == t,
    decreases o,
{
    match o {
        OpV::Ins(p, c, off) => { lemma_place_bounds(t, p.line as int, p.offset as int); if offset_of(t, p) is Some { lemma_ins(t, offset_of(t, p)->0, c); } }
        OpV::Del(s, e, c, off) => {
            lemma_place_bounds(t, s.line as int, s.offset as int);
            if offset_of(t, s) is Some { lemma_del_end(t, s, e); lemma_del(t, offset_of(t, s)->0, del_end(t, e)); }
        }
        OpV::Rep(a, b) => {}
        OpV::Grp(ops) => { lemma_run_valid(ops, ops.len() as int, t); lemma_reverse_down(ops, 0, t); }
    }
}
pub proof fn lemma_all_ok(ops: Seq<OpV>, n: int)
    requires all_ok(ops, n), 0 <= n <= ops.len(),
    ensures forall|i: int| 0 <= i < n ==> op_ok(#[trigger] ops[i]), decreases n,
{ if n > 0 { lemma_all_ok(ops, n - 1); } }
/// an operation in a group that can be run can be run
pub proof fn lemma_op_ok(ops: Seq<OpV>, i: int)
    requires op_ok(OpV::Grp(ops)), 0 <= i < ops.len(), ensures op_ok(ops[i]),
{ lemma_all_ok(ops, ops.len() as int); }
/// reversing from the last one down to the i-th, after running them all, is running the first i
pub proof fn lemma_reverse_down(ops: Seq<OpV>, i: int, t: Seq<u8>)
    requires valid_utf8(t), op_ok(OpV::Grp(ops)), all_linked(ops, ops.len() as int, t), 0 <= i <= ops.len(),
    ensures rev_all(ops, i, run_all(ops, ops.len() as int, t)) == run_all(ops, i, t), rev_all_ok(ops, i, run_all(ops, ops.len() as int, t)),
    decreases ops, 1int, ops.len() - i,
{
    if i < ops.len() {
        lemma_reverse_down(ops, i + 1, t);
        lemma_all_linked(ops, i + 1, t);
        lemma_run_valid(ops, i, t);
        lemma_op_ok(ops, i);
        lemma_reverse(ops[i], run_all(ops, i, t));
    }
}
pub proof fn lemma_run_valid(ops: Seq<OpV>, n: int, t: Seq<u8>)
    requires valid_utf8(t), op_ok(OpV::Grp(ops)), all_linked(ops, ops.len() as int, t), 0 <= n <= ops.len(),
    ensures valid_utf8(run_all(ops, n, t)),
    decreases ops, 0int, n,
{
    if n > 0 {
        lemma_run_valid(ops, n - 1, t);
        lemma_all_linked(ops, n, t);
        lemma_op_ok(ops, n - 1);
        lemma_reverse(ops[n - 1], run_all(ops, n - 1, t));
    }
}
pub proof fn lemma_all_linked(ops: Seq<OpV>, n: int, t: Seq<u8>)
    requires all_linked(ops, ops.len() as int, t), 0 <= n <= ops.len(),
    ensures all_linked(ops, n, t), n > 0 ==> linked(ops[n - 1], run_all(ops, n - 1, t)),
    decreases ops.len() - n,
{ if n < ops.len() { lemma_all_linked(ops, n + 1, t); } }
/// only the first n operations matter
pub proof fn lemma_same_prefix(a: Seq<OpV>, b: Seq<OpV>, n: int, t: Seq<u8>)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures run_all(a, n, t) == run_all(b, n, t), all_linked(a, n, t) == all_linked(b, n, t), ran_all(a, n, t) == ran_all(b, n, t),
    decreases n,
{ if n > 0 { lemma_same_prefix(a, b, n - 1, t); } }
/// an operation that was run on t is as it would be after running it on t again
pub proof fn lemma_ran(o: OpV, t: Seq<u8>)
    requires linked(o, t), ensures ran(o, t) == o, decreases o,
{ if let OpV::Grp(ops) = o { lemma_ran_all(ops, ops.len() as int, t); assert(ran_all(ops, ops.len() as int, t) =~= ops); } }
pub proof fn lemma_ran_all(ops: Seq<OpV>, n: int, t: Seq<u8>)
    requires all_linked(ops, ops.len() as int, t), 0 <= n <= ops.len(), ensures ran_all(ops, n, t) =~= ops.subrange(0, n), decreases ops, n,
{ if n > 0 { lemma_ran_all(ops, n - 1, t); lemma_all_linked(ops, n, t); lemma_ran(ops[n - 1], run_all(ops, n - 1, t)); } }
pub proof fn lemma_rev_ok(ops: Seq<OpV>, i: int, t: Seq<u8>)
    requires rev_all_ok(ops, 0, t), 0 <= i < ops.len(),
    ensures rev_ok(ops[i], rev_all(ops, i + 1, t)), rev_all_ok(ops, i, t), decreases i,
{ if i > 0 { lemma_rev_ok(ops, i - 1, t); assert(rev_all_ok(ops, i - 1, t)); } assert(rev_all_ok(ops, i, t)); }

//@ fn DynOperation::run
//@ spec
    requires old(buffer).wf_data(), op_ok(opv(*old(self))),
    ensures run_post(opv(*old(self)), opv(*final(self)), *old(buffer), *final(buffer)),
    decreases *old(self),
//@ fn DynOperation::reverse
//@ spec
    requires old(buffer).wf_data(), rev_ok(opv(*old(self)), old(buffer).text()),
    ensures rev_post(opv(*old(self)), *old(buffer), *final(buffer)), opv(*final(self)) == opv(*old(self)),
    decreases *old(self),
//@ fn DynOperation::clone_operation
//@ spec
    ensures opv(r) == opv(*self),
    decreases *self,
