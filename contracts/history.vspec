//@ module history
//@ raw
impl History {
    /// the operations that can be undone, oldest first
    pub open spec fn prev(&self) -> Seq<OpV> { opsv(self.previous, self.previous@.len() as int) }
    /// the operations that can be redone, in the order in which they will be
    pub open spec fn nxt(&self) -> Seq<OpV> { opsv(self.next, self.next@.len() as int).reverse() }
    pub open spec fn chain(&self) -> Seq<OpV> { self.prev() + self.nxt() }
    pub open spec fn mark_at(&self) -> Option<int> { opt_int(self.marked_position) }
}
//@ fn History::new
//@ ret r
//@ spec
    ensures r.prev().len() == 0, r.nxt().len() == 0, r.mark_at() is None,
//@ fn History::add
//@ spec
    ensures final(self).prev() == old(self).prev().push(opv(operation)), final(self).nxt().len() == 0,
        // a mark in the part of the history that was discarded is lost
        final(self).mark_at() == match old(self).mark_at() { Some(m) => if m > old(self).prev().len() { None } else { Some(m) }, None => None },
//@ at entry
proof { lemma_ops(self.previous); }
//@ at exit
proof { lemma_ops(self.previous); assert(self.prev() =~= old(self).prev().push(opv(operation))); }
//@ fn History::previous
//@ ret r
//@ spec
    ensures final(self).mark_at() == old(self).mark_at(), final(self).chain() == old(self).chain(),
        match r {
            Some(op) => old(self).prev().len() > 0 && opv(op) == old(self).prev().last() && final(self).prev() == old(self).prev().drop_last(),
            None => old(self).prev().len() == 0 && final(self).prev() == old(self).prev() },
//@ at entry
let ghost h0 = *self;
proof { lemma_ops(self.previous); lemma_ops(self.next); }
//@ at exit
proof {
    lemma_ops(self.previous); lemma_ops(self.next);
    if h0.prev().len() > 0 { assert(self.prev() =~= h0.prev().drop_last()); }
    assert(self.chain() =~= h0.chain());
}
//@ fn History::next
//@ ret r
//@ spec
    ensures final(self).mark_at() == old(self).mark_at(), final(self).chain() == old(self).chain(),
        match r {
            Some(op) => old(self).nxt().len() > 0 && opv(op) == old(self).nxt()[0] && final(self).prev() == old(self).prev().push(old(self).nxt()[0]),
            None => old(self).nxt().len() == 0 && final(self).prev() == old(self).prev() },
//@ at entry
let ghost h0 = *self;
proof { lemma_ops(self.previous); lemma_ops(self.next); }
//@ at exit
proof {
    lemma_ops(self.previous); lemma_ops(self.next);
    if h0.nxt().len() > 0 { assert(self.prev() =~= h0.prev().push(h0.nxt()[0])); }
    assert(self.chain() =~= h0.chain());
}
//@ fn History::mark
//@ spec
    ensures final(self).prev() == old(self).prev(), final(self).nxt() == old(self).nxt(), final(self).mark_at() == Some(old(self).prev().len() as int),
//@ at entry
proof { lemma_ops(self.previous); }
//@ fn History::at_mark
//@ ret r
//@ spec
    ensures r == (self.mark_at() == Some(self.prev().len() as int)),
//@ at entry
proof { lemma_ops(self.previous); }
