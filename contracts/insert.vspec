//@ module insert
//@ fn Insert::new
//@ ret r
//@ spec
    ensures r.v() == OpV::Ins(position, content.sb(), None),
//@ fn Insert::clone
//@ ret r
//@ spec
    ensures r.v() == self.v(),
//@ fn Insert::clone_operation
//@ ret r
//@ spec
    ensures opv(r) == self.v(),
//@ fn Insert::run
//@ spec
    requires old(buffer).wf_data(), op_ok(old(self).v()),
    ensures run_post(old(self).v(), final(self).v(), *old(buffer), *final(buffer)),
//@ fn Insert::reverse
//@ spec
    requires old(buffer).wf_data(), rev_ok(old(self).v(), old(buffer).text()),
    ensures rev_post(old(self).v(), *old(buffer), *final(buffer)), final(self).v() == old(self).v(),
//@ fn Buffer::insert
//@ spec
    requires old(self).inv(),
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).edited(*old(self)),
        final(self).text() == text_insert(old(self).text(), data.i_bytes(), old(self).cursor.position),
        final(self).cursor.position == old(self).cursor.position,
        final(self).told(*old(self), seq![(old(self).cursor.position, final(self).text())]),
//@ at entry
let ghost b0 = *self;
let ghost d = data.i_bytes();
//@ at exit
proof { lemma_edit(b0, *self, ran(OpV::Ins(b0.cursor.position, d, None), b0.text())); }
