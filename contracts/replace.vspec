//@ module replace
//@ fn Replace::new
//@ ret r
//@ spec
    ensures r.v() == OpV::Rep(old_content.sb(), new_content.sb()),
//@ fn Replace::clone
//@ ret r
//@ spec
    ensures r.v() == self.v(),
//@ fn Replace::clone_operation
//@ ret r
//@ spec
    ensures opv(r) == self.v(),
//@ fn Replace::run
//@ spec
    requires old(buffer).wf_data(), op_ok(old(self).v()),
    ensures run_post(old(self).v(), final(self).v(), *old(buffer), *final(buffer)),
//@ fn Replace::reverse
//@ spec
    requires old(buffer).wf_data(), rev_ok(old(self).v(), old(buffer).text()),
    ensures rev_post(old(self).v(), *old(buffer), *final(buffer)), final(self).v() == old(self).v(),
//@ fn replace_content
//@ spec
    requires old(buffer).wf_data(),
    ensures final(buffer).wf_data(), final(buffer).same_meta(*old(buffer)), final(buffer).same_history(*old(buffer)),
        final(buffer).text() == content.sb(),
        final(buffer).told(*old(buffer), seq![(Position { line: 0, offset: 0 }, content.sb())]),
        final(buffer).cursor.position == retarget(content.sb(), old(buffer).cursor.position),
//@ fn Buffer::replace
//@ spec
    requires old(self).inv(), content.i_bytes() == content.t_bytes(),
    ensures final(self).inv(), final(self).kept(*old(self)), final(self).text() == content.i_bytes(),
        content.i_bytes() == old(self).text() ==> *final(self) == *old(self),
        content.i_bytes() != old(self).text() ==> {
            &&& final(self).edited(*old(self))
            &&& final(self).cursor.position == retarget(content.i_bytes(), old(self).cursor.position)
            &&& final(self).told(*old(self), seq![(Position { line: 0, offset: 0 }, final(self).text())])
        },
//@ at entry
let ghost b0 = *self;
let ghost d = content.i_bytes();
proof { lemma_text_valid(&self.cursor.buf()); lemma_sb_inj_all(); }
//@ at exit
proof { lemma_edit(b0, *self, OpV::Rep(b0.text(), d)); }
