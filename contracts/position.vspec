//@ module position
//@ raw
pub open spec fn pos_lt(p: Position, q: Position) -> bool { p.line < q.line || (p.line == q.line && p.offset < q.offset) }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Position {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &Position) -> Option<Ordering> {
        Some(if pos_lt(*self, *other) { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater })
    }
}
//@ fn Position::partial_cmp
//@ ret r
//@ spec
    ensures r == Some(if pos_lt(*self, *other) { Ordering::Less } else if *self == *other { Ordering::Equal } else { Ordering::Greater }),
//@ fn Position::add
//@ ret r
//@ spec
    requires self.line + distance.lines <= usize::MAX, distance.lines == 0 ==> self.offset + distance.offset <= usize::MAX,
    ensures r.line == self.line + distance.lines, r.offset == if distance.lines > 0 { distance.offset as int } else { self.offset + distance.offset },
//@ fn Position::add_assign
//@ spec
    requires old(self).line + distance.lines <= usize::MAX, distance.lines == 0 ==> old(self).offset + distance.offset <= usize::MAX,
    ensures final(self).line == old(self).line + distance.lines, final(self).offset == if distance.lines > 0 { distance.offset as int } else { old(self).offset + distance.offset },
//@ fn Position::new
//@ ret r
//@ spec
    ensures r.line == 0, r.offset == 0,
//@ fn Position::default
//@ ret r
//@ spec
    ensures r.line == 0, r.offset == 0,
