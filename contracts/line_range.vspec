//@ module line_range
//@ raw
impl LineRange {
    /// the end never precedes the start
    pub open spec fn wf(&self) -> bool { self.start <= self.end }
}
//@ fn LineRange::new
//@ ret r
//@ spec
    ensures r.wf(), start <= end ==> r.start == start && r.end == end, end <= start ==> r.start == end && r.end == start,
//@ fn LineRange::start
//@ ret r
//@ spec
    ensures r == self.start,
//@ fn LineRange::end
//@ ret r
//@ spec
    ensures r == self.end,
//@ fn LineRange::to_range
//@ ret r
//@ spec
    requires self.wf(),
    ensures r.wf(), r.start == (Position { line: self.start, offset: 0 }), r.end == (Position { line: self.end, offset: 0 }),
//@ fn LineRange::to_inclusive_range
//@ ret r
//@ spec
    requires self.wf(), self.end < usize::MAX,
    ensures r.wf(), r.start == (Position { line: self.start, offset: 0 }), r.end.line == self.end + 1, r.end.offset == 0,
//@ fn LineRange::includes
//@ ret r
//@ spec
    ensures r == (self.start <= line < self.end),
