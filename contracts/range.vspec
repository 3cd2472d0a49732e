//@ module range
//@ raw
impl Range {
    /// the end never precedes the start
    pub open spec fn wf(&self) -> bool { pos_le(self.start, self.end) }
}
//@ fn Range::new
//@ ret r
//@ spec
    ensures r.wf(),
        pos_le(start, end) ==> r.start == start && r.end == end,
        !pos_le(start, end) ==> r.start == end && r.end == start,
//@ fn Range::start
//@ ret r
//@ spec
    ensures r == self.start,
//@ fn Range::end
//@ ret r
//@ spec
    ensures r == self.end,
//@ fn Range::includes
//@ ret r
//@ spec
    ensures r == (pos_le(self.start, *position) && pos_lt(*position, self.end)),
//@ fn Range::clone
//@ ret r
//@ spec
    ensures r == *self,
