"""tombi-text position types, sliced from /repo (the zero-sized `_align` field is dropped)."""
from vgen import *
D = "crates/tombi-text/src/"
NOALIGN = [("_align: PointerAlign,", ""), ("_align: PointerAlign([]),", ""), ("_align: PointerAlign([0; 0]),", "")]
RULES = NOALIGN + [
    ("RawTextSize", "u32"), ("crate::RawOffset", "u32"), ("RawOffset", "u32"),
    ("tombi_text::Offset", "Offset"), ("tombi_text::Position", "Position"), ("tombi_text::RelativePosition", "RelativePosition"),
    ("tombi_text::Span", "Span"), ("tombi_text::Range", "Range"),
    ("crate::Offset", "Offset"),
    ("RelativePosition::from(c)", "RelativePosition::vx_from_char(c)"),
    ("log::warn!($$x);", ""),
    ("debug_assert!($l.len() == $n);", ""),
    ("debug_assert!($$x, $m);", "vx_debug_assert($$x);"),
    ("debug_assert!($$x);", "vx_debug_assert($$x);"),
]
DER = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
TYPES = [
    Raw(D + "offset.rs", "struct Offset", attrs=DER, rewrites=[("pub(crate)", "pub")]),
    Raw(D + "position.rs", "struct Position", attrs=DER, rewrites=[("Line", "u32"), ("Column", "u32")]),
    Raw(D + "relative_position.rs", "struct RelativePosition", attrs=DER, rewrites=[("Line", "u32"), ("Column", "u32")]),
    Raw(D + "span.rs", "struct Span", attrs=DER),
    Raw(D + "range.rs", "struct Range", attrs=DER),
    Raw(D + "line_ending.rs", "enum LineEnding", attrs=DER),
    Text(r'''
pub open spec fn pos_le(a: Position, b: Position) -> bool { a.line < b.line || (a.line == b.line && a.column <= b.column) }
pub open spec fn padd(a: Position, b: RelativePosition) -> (int, int) {
    (a.line + b.line, if b.line == 0 { a.column + b.column } else { b.column as int })
}
pub const fn vx_debug_assert(b: bool) requires b {}
pub fn vx_cmp_u32(a: u32, b: u32) -> (r: std::cmp::Ordering)
    ensures a < b ==> r == std::cmp::Ordering::Less, a == b ==> r == std::cmp::Ordering::Equal, a > b ==> r == std::cmp::Ordering::Greater,
{ if a < b { std::cmp::Ordering::Less } else if a == b { std::cmp::Ordering::Equal } else { std::cmp::Ordering::Greater } }
pub fn vx_then(a: std::cmp::Ordering, b: std::cmp::Ordering) -> (r: std::cmp::Ordering)
    ensures r == (if a == std::cmp::Ordering::Equal { b } else { a }),
{ match a { std::cmp::Ordering::Equal => b, x => x } }
/// what PartialOrd's provided `<=` does with partial_cmp = Some(cmp)
pub fn vx_le(a: Position, b: Position) -> (r: bool) ensures r == pos_le(a, b) { !matches!(a.cmp(&b), std::cmp::Ordering::Greater) }
impl Offset {
    pub fn vx_default() -> (r: Offset) ensures r.raw == 0 { Offset { raw: 0 } }
}
impl Position {
    pub fn vx_default() -> (r: Position) ensures r.line == 0, r.column == 0 { Position { line: 0, column: 0 } }
}
'''),
]
FNS = [
    Fn(D + "offset.rs", "Offset::new", ensures="r.raw == raw"),
    Fn(D + "offset.rs", "Add for Offset::add", header="impl Offset", rename="add", requires="self.raw + rhs.raw <= u32::MAX",
       ensures="r.raw == self.raw + rhs.raw", rewrites=[("Self::Output", "Offset")]),
    Fn(D + "offset.rs", "AddAssign<A> for Offset::add_assign", header="impl Offset",
       rewrites=[("rhs: A", "rhs: Offset"), ("*self + rhs", "(*self).add(rhs);")],
       requires="old(self).raw + rhs.raw <= u32::MAX", ensures="final(self).raw == old(self).raw + rhs.raw"),
    Fn(D + "position.rs", "Position::new", rewrites=[("Line", "u32"), ("Column", "u32")], ensures="r.line == line, r.column == column"),
    Fn(D + "position.rs", "Ord for Position::cmp", header="impl Position",
       rewrites=[("$$a.then_with(|| $$b)", "vx_then($$a, $$b)"), ("self.$f.cmp(&other.$g)", "vx_cmp_u32(self.$f, other.$g)"), ("-> Ordering", "-> std::cmp::Ordering")],
       ensures="(r == std::cmp::Ordering::Less) == (pos_le(*self, *other) && *self != *other), (r == std::cmp::Ordering::Equal) == (*self == *other), (r == std::cmp::Ordering::Greater) == !pos_le(*self, *other)"),
    Fn(D + "position.rs", "Add<RelativePosition> for Position::add", header="impl Position", rename="add", rewrites=[("Self::Output", "Position")],
       requires="padd(self, rhs).0 <= u32::MAX, padd(self, rhs).1 <= u32::MAX", ensures="r.line == padd(self, rhs).0, r.column == padd(self, rhs).1"),
    Fn(D + "position.rs", "AddAssign<RelativePosition> for Position::add_assign", header="impl Position",
       requires="padd(*old(self), rhs).0 <= u32::MAX, padd(*old(self), rhs).1 <= u32::MAX",
       ensures="final(self).line == padd(*old(self), rhs).0, final(self).column == padd(*old(self), rhs).1"),
    Fn(D + "relative_position.rs", "From<char> for RelativePosition::from", header="impl RelativePosition", rename="vx_from_char",
       ensures="r == (if c == '\\n' { RelativePosition { line: 1, column: 0 } } else { RelativePosition { line: 0, column: 1 } })"),
    Fn(D + "span.rs", "Span::new", requires="start.raw <= end.raw", ensures="r.start == start, r.end == end"),
    Fn(D + "range.rs", "Range::new", rewrites=[("start <= end", "vx_le(start, end)")],
       ensures="r.start == start, r.end == (if pos_le(start, end) { end } else { start })"),
]
