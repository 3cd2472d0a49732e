//@ module group
//@ fn OperationGroup::new
//@ ret r
//@ spec
    ensures r.ops() == Seq::<OpV>::empty(),
//@ fn OperationGroup::add
//@ spec
    ensures final(self).ops() == old(self).ops().push(opv(operation)),
//@ at exit
proof { lemma_ops(old(self).operations); lemma_ops(self.operations); assert(self.ops() =~= old(self).ops().push(opv(operation))); }
//@ fn OperationGroup::is_empty
//@ ret r
//@ spec
    ensures r == (self.ops().len() == 0),
//@ at entry
proof { lemma_ops(self.operations); }
//@ fn OperationGroup::run
//@ spec
    requires old(buffer).wf_data(), op_ok(old(self).v()),
    ensures run_post(old(self).v(), final(self).v(), *old(buffer), *final(buffer)),
    decreases *old(self),
//@ at entry
let ghost g0 = *self;
let ghost v0 = self.operations;
let ghost ops0 = self.ops();
let ghost b0 = *buffer;
let ghost t0 = buffer.text();
proof { lemma_ops(v0); }
//@ loop 0
    invariant
        g0 == *old(self), v0 == g0.operations, ops0 == opsv(v0, v0@.len() as int), t0 == b0.text(), op_ok(OpV::Grp(ops0)),
        ops0.len() == v0@.len(), forall|i: int| 0 <= i < v0@.len() ==> #[trigger] ops0[i] == opv(v0@[i]),
        vx_i0 <= self.operations@.len() == v0@.len(),
        forall|j: int| vx_i0 <= j < v0@.len() ==> #[trigger] self.operations@[j] == v0@[j],
        opsv(self.operations, vx_i0 as int) == ran_all(ops0, vx_i0 as int, t0),
        buffer.wf_data(), buffer.same_meta(b0), buffer.same_history(b0),
        buffer.text() == run_all(ops0, vx_i0 as int, t0),
        buffer.told(b0, run_all_notes(ops0, vx_i0 as int, t0)),
        buffer.cursor.position == run_all_cursor(ops0, vx_i0 as int, b0.cursor.position),
    ensures vx_i0 == self.operations@.len(),
    decreases v0@.len() - vx_i0,
//@ at loop0.start
let ghost v1 = self.operations;
proof { lemma_op_ok(ops0, vx_i0 as int); assert(self.operations@[vx_i0 as int] == v0@[vx_i0 as int]); }
//@ at loop0.end
proof {
    lemma_opsv_ext(v1, self.operations, vx_i0 - 1);
}
//@ fn OperationGroup::reverse
//@ spec
    requires old(buffer).wf_data(), rev_ok(old(self).v(), old(buffer).text()),
    ensures rev_post(old(self).v(), *old(buffer), *final(buffer)), final(self).v() == old(self).v(),
    decreases *old(self),
//@ at entry
let ghost g0 = *self;
let ghost v0 = self.operations;
let ghost ops0 = self.ops();
let ghost b0 = *buffer;
let ghost t0 = buffer.text();
proof { lemma_ops(v0); }
//@ loop 0
    invariant
        g0 == *old(self), v0 == g0.operations, ops0 == opsv(v0, v0@.len() as int), t0 == b0.text(),
        ops0.len() == v0@.len(), forall|i: int| 0 <= i < v0@.len() ==> #[trigger] ops0[i] == opv(v0@[i]),
        vx_i0 <= self.operations@.len() == v0@.len(),
        forall|j: int| 0 <= j < vx_i0 ==> #[trigger] self.operations@[j] == v0@[j],
        forall|j: int| 0 <= j < v0@.len() ==> opv(#[trigger] self.operations@[j]) == opv(v0@[j]),
        rev_all_ok(ops0, 0, t0),
        buffer.wf_data(), buffer.same_meta(b0), buffer.same_history(b0),
        buffer.text() == rev_all(ops0, vx_i0 as int, t0),
        buffer.told(b0, rev_all_notes(ops0, vx_i0 as int, t0)),
        buffer.cursor.position == rev_all_cursor(ops0, vx_i0 as int, b0.cursor.position),
    ensures vx_i0 == 0,
    decreases vx_i0,
//@ at loop0.start
proof { lemma_rev_ok(ops0, vx_i0 - 1, t0); }
//@ at exit
proof { lemma_ops(self.operations); assert(self.ops() =~= ops0); }
//@ fn OperationGroup::clone_operation
//@ ret r
//@ spec
    ensures opv(r) == self.v(),
    decreases *self,
//@ at entry
proof { lemma_ops(self.operations); }
//@ loop 0
    invariant
        vx_it0.wf(), vx_it0.all().len() == self.operations@.len(), forall|i: int| 0 <= i < vx_it0.all().len() ==> *(#[trigger] vx_it0.all()[i]) == self.operations@[i],
        vx_out0@.len() == vx_it0.pos(), forall|i: int| 0 <= i < vx_it0.pos() ==> opv(#[trigger] vx_out0@[i]) == opv(self.operations@[i]),
    ensures vx_it0.pos() == vx_it0.all().len(),
    decreases vx_it0.all().len() - vx_it0.pos(),
//@ at exit
proof {
    if let DynOperation::OperationGroup(ref g) = vx_ret { lemma_ops(g.operations); assert(g.ops() =~= self.ops()); }
}
//@ fn Buffer::start_operation_group
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).history == old(self).history, final(self).operation_group is Some,
        final(self).open_ops() == old(self).open_ops(), final(self).cursor == old(self).cursor, final(self).data == old(self).data,
        final(self).notified == old(self).notified,
//@ fn Buffer::end_operation_group
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).operation_group is None, final(self).committed(*old(self)),
//@ at entry
let ghost b0 = *self;
//@ at exit
proof { if b0.open_ops().len() > 0 { lemma_commit(b0, *self); } }
