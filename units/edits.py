"""C13: the edit sent to the editor turns the document it has into the formatted text; semantic tokens lie where they belong."""
from vgen import *
from shims import *
import positions as P
from text_types import TYPES, FNS as TTF

H = "crates/tombi-lsp/src/handler/formatting.rs"
SPEC = r'''
pub struct TextEdit { pub range: LspRange, pub new_text: String }
/// what a position of the protocol points at: the character of the line with so many units before it
pub open spec fn at(li: LineIndex, p: LspPosition, i: int) -> bool {
    li.has(p.line as int) && ({ let l = lines_of(li.text@)[p.line as int]; l.0 <= i <= l.1 && p.character == units(li.encoding_kind, li.text@.subrange(l.0, i)) })
}
/// the editor, replacing what lies between two positions of its document
pub open spec fn applied(li: LineIndex, e: TextEdit, a: int, b: int) -> Seq<char> { li.text@.take(a) + e.new_text@ + li.text@.skip(b) }
pub open spec fn turns(li: LineIndex, e: TextEdit, new: Seq<char>) -> bool {
    exists|a: int, b: int| 0 <= a <= b <= li.text@.len() && #[trigger] at(li, e.range.start, a) && #[trigger] at(li, e.range.end, b) && applied(li, e, a, b) == new
}
/// p is the position of the i-th character
pub open spec fn place(li: LineIndex, p: Position, i: int) -> bool {
    let l = lines_of(li.text@)[lno(li.text@, i)];
    p.line == lno(li.text@, i) && li.has(p.line as int) && l.0 <= i <= l.1 && p.column == gn(li.line(p.line as int), i - l.0) && isb(li.line(p.line as int), i - l.0)
}
/// two pieces of text at a time
pub struct VZip<'a> { pub v: Vec<(&'a str, &'a str)> }
pub open spec fn lefts(v: Seq<(&str, &str)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].0@) }
pub open spec fn rights(v: Seq<(&str, &str)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].1@) }
impl<'a> VIter<'a> {
    #[verifier::external_body] pub fn zip(self, o: VIter<'a>) -> (r: VZip<'a>)
        ensures ({ let n = if self@.len() <= o@.len() { self@.len() as int } else { o@.len() as int }; lefts(r.v@) =~= self@.take(n) && rights(r.v@) =~= o@.take(n) && r.v@.len() == n })
    { VZip { v: self.v.into_iter().zip(o.v).collect() } }
}
impl<'a> VZip<'a> {
    #[verifier::external_body] pub fn vx_take_while<F: Fn(&(&'a str, &'a str)) -> bool>(self, f: F) -> (r: VZip<'a>)
        requires forall|p: &(&'a str, &'a str)| #[trigger] call_requires(f, (p,))
        ensures r.v@.len() <= self.v@.len(), r.v@ =~= self.v@.take(r.v@.len() as int), forall|i: int| 0 <= i < r.v@.len() ==> call_ensures(f, (&#[trigger] r.v@[i],), true),
            r.v@.len() < self.v@.len() ==> call_ensures(f, (&self.v@[r.v@.len() as int],), false)
    { VZip { v: self.v.into_iter().take_while(f).collect() } }
    /// map to a number and sum (the sum of the lengths of pieces of a text cannot overflow)
    #[verifier::external_body] pub fn vx_sum_map<F: Fn((&'a str, &'a str)) -> usize>(self, f: F) -> (r: usize)
        requires forall|p: (&'a str, &'a str)| #[trigger] call_requires(f, (p,)), forall|p: (&'a str, &'a str), u: usize| #[trigger] call_ensures(f, (p,), u) ==> u == blen(p.0@)
        ensures blen(cat(lefts(self.v@))) <= usize::MAX ==> r == blen(cat(lefts(self.v@)))
    { self.v.into_iter().map(f).sum::<usize>() }
}
#[verifier::external_body] pub fn vx_units_of_lines(range: Range, li: &LineIndex) -> u32 { unimplemented!() }
pub fn vx_one(e: TextEdit) -> (r: Vec<TextEdit>) ensures r@ == seq![e] { let mut v: Vec<TextEdit> = Vec::new(); v.push(e); proof { assert(v@ =~= seq![e]); } v }
pub trait VxNum { fn vx_sat_sub(self, o: usize) -> usize; fn vx_min(self, o: usize) -> usize; fn vx_max(self, o: usize) -> usize; }
impl VxNum for usize {
    fn vx_sat_sub(self, o: usize) -> (r: usize) ensures r == (if self >= o { (self - o) as usize } else { 0usize }) { if self >= o { self - o } else { 0 } }
    fn vx_min(self, o: usize) -> (r: usize) ensures r == (if self <= o { self } else { o }) { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) ensures r == (if self >= o { self } else { o }) { if self >= o { self } else { o } }
}
pub fn vx_copied(v: &Vec<Span>) -> (r: Vec<Span>) ensures r@ == v@ { let mut o: Vec<Span> = Vec::new(); for i in 0..v.len() invariant o@.len() == i, forall|k: int| 0 <= k < i ==> o@[k] == v@[k] { o.push(v[i]); } proof { assert(o@ =~= v@); } o }

pub proof fn lemma_rev_len(g: Seq<Seq<char>>) ensures blen(cat(g.reverse())) == blen(cat(g)) decreases g.len()
{
    if g.len() == 0 { assert(g.reverse() =~= g); }
    else {
        lemma_rev_len(g.drop_last());
        assert(g.reverse() =~= seq![g.last()] + g.drop_last().reverse());
        lemma_cat(seq![g.last()], g.drop_last().reverse()); lemma_cat_one(g.last());
        lemma_blen_concat(g.last(), cat(g.drop_last().reverse())); lemma_blen_concat(cat(g.drop_last()), g.last());
    }
}
/// the common start: the same characters in both, and a boundary of both
pub proof fn lemma_prefix(old: Seq<char>, new: Seq<char>, z: VZip, t: VZip)
    requires lefts(z.v@) == gr(old).take(z.v@.len() as int), rights(z.v@) == gr(new).take(z.v@.len() as int), z.v@.len() <= gr(old).len(), z.v@.len() <= gr(new).len(),
        t.v@.len() <= z.v@.len(), t.v@ == z.v@.take(t.v@.len() as int), forall|i: int| 0 <= i < t.v@.len() ==> (#[trigger] t.v@[i]).0@ == t.v@[i].1@
    ensures ({ let n = t.v@.len() as int; let a = gat(old, n); &&& gat(new, n) == a &&& 0 <= a <= old.len() &&& a <= new.len() &&& old.take(a) == new.take(a) &&& isb(old, a) &&& isb(new, a)
        &&& blen(cat(lefts(t.v@))) == blen(old.take(a)) &&& blen(old.take(a)) <= blen(old) && blen(new.take(a)) <= blen(new) &&& gn(old, a) == n
        &&& is_bound(old, blen(old.take(a)) as int) && cidx(old, blen(old.take(a)) as int) == a && is_bound(new, blen(old.take(a)) as int) && cidx(new, blen(old.take(a)) as int) == a })
{
    let n = t.v@.len() as int; let a = gat(old, n);
    assert(lefts(t.v@) =~= gr(old).take(n)) by { assert forall|i: int| 0 <= i < n implies lefts(t.v@)[i] == gr(old).take(n)[i] by { assert(t.v@[i] == z.v@[i]); assert(lefts(z.v@)[i] == gr(old)[i]); } }
    assert(gr(new).take(n) =~= gr(old).take(n)) by { assert forall|i: int| 0 <= i < n implies gr(new).take(n)[i] == gr(old).take(n)[i] by { assert(t.v@[i] == z.v@[i]); assert(lefts(z.v@)[i] == gr(old)[i]); assert(rights(z.v@)[i] == gr(new)[i]); } }
    lemma_gat(old, n); lemma_gat(new, n);
    lemma_blen_split(old, a); lemma_blen_split(new, a); lemma_cidx(old, a); lemma_cidx(new, a);
}
/// the common end
pub proof fn lemma_suffix(old: Seq<char>, new: Seq<char>, z: VZip, t: VZip)
    requires lefts(z.v@) == gr(old).reverse().take(z.v@.len() as int), rights(z.v@) == gr(new).reverse().take(z.v@.len() as int), z.v@.len() <= gr(old).len(), z.v@.len() <= gr(new).len(),
        t.v@.len() <= z.v@.len(), t.v@ == z.v@.take(t.v@.len() as int), forall|i: int| 0 <= i < t.v@.len() ==> (#[trigger] t.v@[i]).0@ == t.v@[i].1@
    ensures ({ let n = t.v@.len() as int; let (b, d) = (gat(old, gr(old).len() - n), gat(new, gr(new).len() - n));
        &&& 0 <= b <= old.len() &&& 0 <= d <= new.len() &&& old.skip(b) == new.skip(d) &&& isb(old, b)
        &&& blen(cat(lefts(t.v@))) == blen(old.skip(b)) &&& blen(old.take(b)) + blen(old.skip(b)) == blen(old) &&& blen(new.take(d)) + blen(new.skip(d)) == blen(new) })
{
    let n = t.v@.len() as int; let (l, m) = (gr(old).len() - n, gr(new).len() - n); let (b, d) = (gat(old, l), gat(new, m));
    assert(lefts(t.v@) =~= gr(old).skip(l).reverse()) by { assert forall|i: int| 0 <= i < n implies lefts(t.v@)[i] == gr(old).skip(l).reverse()[i] by { assert(t.v@[i] == z.v@[i]); assert(lefts(z.v@)[i] == gr(old).reverse()[i]); } }
    assert(gr(new).skip(m) =~= gr(old).skip(l)) by { assert forall|i: int| 0 <= i < n implies gr(new).skip(m)[i] == gr(old).skip(l)[i] by { let j = n - 1 - i; assert(t.v@[j] == z.v@[j]); assert(lefts(z.v@)[j] == gr(old).reverse()[j]); assert(rights(z.v@)[j] == gr(new).reverse()[j]); assert(t.v@[j].0@ == t.v@[j].1@); } }
    lemma_gat(old, l); lemma_gat(new, m); lemma_rev_len(gr(old).skip(l));
    lemma_blen_split(old, b); lemma_blen_split(new, d);
}
/// a boundary of the rest of a text is a boundary of the text
pub proof fn lemma_isb_skip(s: Seq<char>, p: int, j: int)
    requires isb(s, p), isb(s.skip(p), j)
    ensures isb(s, p + j)
{
    let t = s.skip(p);
    lemma_gn(s, p); lemma_gn(t, j);
    let k = gn(s, p) + gn(t, j);
    assert(gr(s).take(k) =~= gr(s).take(gn(s, p)) + gr(t).take(gn(t, j)));
    lemma_cat(gr(s).take(gn(s, p)), gr(t).take(gn(t, j)));
    lemma_gat(s, k);
}
/// a place of the index comes out as the position the editor understands
pub proof fn lemma_place(li: LineIndex, p: Position, i: int, c: int)
    requires li.wf(), place(li, p, i), c == to_char(li, p)
    ensures c == units(li.encoding_kind, li.text@.subrange(lines_of(li.text@)[p.line as int].0, i)),
{
    let l = lines_of(li.text@)[p.line as int]; let t = li.line(p.line as int);
    lemma_line_bounds(li.text@, p.line as int);
    lemma_gn(t, i - l.0);
    theorem_meaning(li, p);
    assert(t.take(i - l.0) =~= li.text@.subrange(l.0, i));
}
pub proof fn lemma_place_mono(li: LineIndex, p: Position, q: Position, i: int, j: int)
    requires li.wf(), place(li, p, i), place(li, q, j), i <= j <= li.text@.len(), 0 <= i
    ensures pos_le(p, q)
{
    let s = li.text@;
    lemma_lno_mono(s, i, j);
    if p.line == q.line {
        let l = lines_of(s)[p.line as int]; let t = li.line(p.line as int);
        lemma_line_bounds(s, p.line as int); lemma_isb_ends(t);
        if gn(t, i - l.0) > gn(t, j - l.0) { lemma_gn(t, i - l.0); lemma_gn(t, j - l.0); lemma_gat_mono(t, gn(t, j - l.0), gn(t, i - l.0)); }
    }
}
/// offset -> line: the first line that ends at or after the place is its line
pub proof fn lemma_line_at(li: LineIndex, i: int, k: int, o: int)
    requires li.wf(), isb(li.text@, i), o == blen(li.text@.take(i)), 0 <= k < lines_of(li.text@).len(), forall|j: int| 0 <= j < k ==> (#[trigger] li.lines@[j]).end.raw < o
    ensures k <= lno(li.text@, i) < lines_of(li.text@).len(), (o <= li.lines@[k].end.raw) == (k == lno(li.text@, i)),
        k == lno(li.text@, i) ==> ({ let l = lines_of(li.text@)[k]; l.0 <= i <= l.1 <= li.text@.len() && isb(li.line(k), i - l.0) && o - li.lines@[k].start.raw == blen(li.line(k).take(i - l.0)) && li.lines@[k].start.raw <= o && blen(li.line(k).take(i - l.0)) <= blen(li.line(k))
            && is_bound(li.line(k), blen(li.line(k).take(i - l.0)) as int) && cidx(li.line(k), blen(li.line(k).take(i - l.0)) as int) == i - l.0 && gn(li.line(k), i - l.0) <= gr(li.line(k)).len() <= blen(li.line(k)) <= u32::MAX }),
{
    let s = li.text@; let m = lno(s, i); let lm = lines_of(s)[m];
    theorem_position_of_prefix(s, i);
    lemma_line_bounds(s, m); lemma_line_bounds(s, k);
    assert(span_is(s, li.lines@[m], lm)); assert(span_is(s, li.lines@[k], lines_of(s)[k]));
    lemma_blen_mono(s, i, lm.1);
    let lk = lines_of(s)[k];
    if k < m {
        lemma_same_line(s, lk.0, lk.1);
        if lm.0 <= lk.1 { lemma_lno_mono(s, lm.0, lk.1); }
        lemma_blen_mono(s, lk.1, lm.0); lemma_blen_mono(s, lm.0, i);
    }
    if k == m {
        let t = li.line(k);
        lemma_blen_mono(s, lk.0, i); assert(t.take(i - lk.0) =~= s.subrange(lk.0, i));
        lemma_blen_split(t, i - lk.0); lemma_cidx(t, i - lk.0); lemma_gn(t, i - lk.0); lemma_gr_len(t); lemma_blen_ge(t); lemma_line_len(li, k);
    }
}
'''
RW = P.RW + [
    ("tombi_text::LineIndex", "LineIndex"), ("tower_lsp::lsp_types::TextEdit", "TextEdit"),
    (".saturating_sub($$a)", ".vx_sat_sub($$a)"), (".min($$a)", ".vx_min($$a)"), (".max($$a)", ".vx_max($$a)"),
    ("old_text == new_text", "vx_eq(old_text, new_text)"),
    ("let common_prefix_bytes = $$a.take_while($$c).map($$d).sum::<usize>();", "let vx_z = $$a; let vx_t = vx_z.vx_tw($$c); let common_prefix_bytes = vx_t.vx_sm($$d);"),
    ("let common_suffix_bytes = $$a.take_while($$c).map($$d).sum::<usize>()", "let vx_y = $$a; let vx_u = vx_y.vx_tw($$c); let common_suffix_bytes = vx_u.vx_sm($$d)"),
    (".vx_tw(|($a, $b)| $c == $d)", ".vx_take_while(|vx_p: &(&str, &str)| -> (vx_r: bool) ensures vx_r == (vx_p.0@ == vx_p.1@) { let ($a, $b) = (vx_p.0, vx_p.1); vx_eq($c, $d) })"),
    (".vx_tw(|($a, $b)| $c != $d)", ".vx_take_while(|vx_p: &(&str, &str)| -> (vx_r: bool) ensures vx_r == (vx_p.0@ != vx_p.1@) { let ($a, $b) = (vx_p.0, vx_p.1); !vx_eq($c, $d) })"),
    (".vx_sm(|($a, $b)| vx_len($e))", ".vx_sum_map(|vx_p: (&str, &str)| -> (vx_r: usize) ensures vx_r == blen(vx_p.0@) { let ($a, $b) = vx_p; vx_len($e) })"),
    (".vx_sm(|($a, $b)| $e.len())", ".vx_sum_map(|vx_p: (&str, &str)| -> (vx_r: usize) ensures vx_r == blen(vx_p.0@) { let ($a, $b) = vx_p; vx_len($e) })"),
    ("&old_text[$x..]", "vx_slice_from(old_text, $x)"), ("&new_text[$x..]", "vx_slice_from(new_text, $x)"), ("new_text[$x..$y].to_string()", "vx_to_string(vx_slice(new_text, $x, $y))"),
    ("old_suffix.len()", "vx_len(old_suffix)"), ("new_suffix.len()", "vx_len(new_suffix)"), ("old_text.len()", "vx_len(old_text)"), ("new_text.len()", "vx_len(new_text)"), ("line_text.len()", "vx_len(line_text)"),
    ("Range::new($$a).into_lsp(line_index)", "LspRange::from_lsp(Range::new($$a), line_index)"),
    ("vec![$$a]", "{ let vx_e = $$a; proof { assert(at(*line_index, vx_e.range.start, vx_a)); assert(at(*line_index, vx_e.range.end, vx_b)); assert(applied(*line_index, vx_e, vx_a, vx_b) == new_text@); } vx_one(vx_e) }"),
    ("return Vec::new()", "return Vec::<TextEdit>::new()"),
    ("for ($i, $s) in line_index.iter().enumerate() {", "let vx_v = line_index.iter(); for vx_k in 0..vx_v.len() { let ($i, $s) = (vx_k, vx_v[vx_k]);"),
    ('$l.line_text($x).unwrap_or("")', 'match $l.line_text($x) { Some(vx_t) => vx_t, None => "" }'), ("&line_text[..$$e]", "vx_slice_to(line_text, $$e)"), ("usize::from($a.$b)", "($a.$b.raw as usize)"),
]
EDIT = [
    Fn(P.F + "line_index.rs", "LineIndex::iter", ensures="r@ == self.lines@", pre=lambda t: t.replace("impl Iterator<Item = Span> + '_", "Vec<Span>"), rewrites=[("self.lines.iter().copied()", "vx_copied(&self.lines)")]),
    Fn(H, "fn position_at_offset", requires="line_index.wf(), exists|i: int| #[trigger] isb(line_index.text@, i) && offset == blen(line_index.text@.take(i))",
       ensures="place(*line_index, r, cidx(line_index.text@, offset as int))",
       entry="let ghost vx_i = cidx(line_index.text@, offset as int); proof { let i = choose|i: int| #[trigger] isb(line_index.text@, i) && offset == blen(line_index.text@.take(i)); lemma_cidx(line_index.text@, i); }",
       loops={0: Loop("for", invariant="line_index.wf(), isb(line_index.text@, vx_i), vx_i == cidx(line_index.text@, offset as int), offset == blen(line_index.text@.take(vx_i)), vx_v@ == line_index.lines@, forall|j: int| 0 <= j < vx_k ==> (#[trigger] line_index.lines@[j]).end.raw < offset, blen(line_index.text@) <= u32::MAX, vx_v@.len() <= 0x1_0000_0000",
                      start="proof { lemma_line_at(*line_index, vx_i, vx_k as int, offset as int); }",
                      before="proof { lemma_lines(line_index.text@, line_index.text@.len() as int); lemma_blen_ge(line_index.text@); }",
                      after="proof { let m = lno(line_index.text@, vx_i); theorem_position_of_prefix(line_index.text@, vx_i); lemma_line_at(*line_index, vx_i, m, offset as int); assert(line_index.lines@[m].end.raw < offset); assert(false); }")}),
    Fn(H, "fn compute_text_edits", requires="line_index.wf(), line_index.text@ == old_text@",
       ensures="r@.len() == 0 ==> old_text@ == new_text@, r@.len() <= 1, r@.len() == 1 ==> turns(*line_index, r@[0], new_text@)",
       ghost=[("after", "let common_prefix_bytes = $$x;", "proof { lemma_prefix(old_text@, new_text@, vx_z, vx_t); } let ghost vx_a = gat(old_text@, vx_t.v@.len() as int);"),
              ("after", "let common_suffix_bytes = $$x;", "let ghost (vx_b, vx_d) = (vx_a + gat(old_suffix@, gr(old_suffix@).len() - vx_u.v@.len()), vx_a + gat(new_suffix@, gr(new_suffix@).len() - vx_u.v@.len())); proof { let s = line_index.text@; lemma_suffix(old_suffix@, new_suffix@, vx_y, vx_u); lemma_isb_skip(old_text@, vx_a, vx_b - vx_a); "
               "lemma_blen_split(old_text@, vx_a); lemma_blen_split(new_text@, vx_a); lemma_blen_mono(old_text@, vx_a, vx_b); lemma_blen_mono(new_text@, vx_a, vx_d); assert(old_suffix@.take(vx_b - vx_a) =~= old_text@.subrange(vx_a, vx_b)); assert(new_suffix@.take(vx_d - vx_a) =~= new_text@.subrange(vx_a, vx_d)); "
               "assert(old_suffix@.skip(vx_b - vx_a) =~= old_text@.skip(vx_b)); assert(new_suffix@.skip(vx_d - vx_a) =~= new_text@.skip(vx_d)); lemma_cidx(old_text@, vx_b); lemma_cidx(new_text@, vx_d); lemma_blen_split(old_text@, vx_b); lemma_blen_split(new_text@, vx_d); "
               "if vx_a == vx_b && vx_a == vx_d { assert(old_text@ =~= old_text@.take(vx_a) + old_text@.skip(vx_b)); assert(new_text@ =~= new_text@.take(vx_a) + new_text@.skip(vx_d)); } }"),
              ("after", "let replacement = $$x;", "proof { lemma_place_mono(*line_index, start_position, end_position, vx_a, vx_b); lemma_place(*line_index, start_position, vx_a, to_char(*line_index, start_position)); lemma_place(*line_index, end_position, vx_b, to_char(*line_index, end_position)); "
               "let s = line_index.text@; assert(new_text@ =~= s.take(vx_a) + replacement@ + s.skip(vx_b)) by { assert(new_text@ =~= new_text@.take(vx_a) + new_text@.subrange(vx_a, vx_d) + new_text@.skip(vx_d)); } }")],
       tail="")
]

B = "crates/tombi-lsp/src/semantic_tokens/builder.rs"
DS = "crates/tombi-lsp/src/document.rs"
TOK = r"""
#[verifier::external_body] pub struct Uri { _x: () }
pub struct SemanticToken { pub delta_line: u32, pub delta_start: u32, pub length: u32, pub token_type: u32, pub token_modifiers_bitset: u32 }
#[verifier::external_body] pub struct TokenType { _x: () }
#[verifier::external_body] pub struct SyntaxElement { _x: () }
#[verifier::external_body] pub struct Comment { _x: () }
impl SyntaxElement { pub uninterp spec fn rng(&self) -> Range; #[verifier::external_body] pub fn range(&self) -> (r: Range) ensures r == self.rng() { unimplemented!() } }
impl Comment { pub uninterp spec fn rng(&self) -> Range; }
#[verifier::external_body] pub fn vx_comment_range(c: &Comment) -> (r: Range) ensures r == c.rng() { unimplemented!() }
pub uninterp spec fn type_no(t: TokenType) -> u32;
#[verifier::external_body] pub fn vx_type(t: TokenType) -> (r: u32) ensures r == type_no(t) { unimplemented!() }
pub uninterp spec fn comment_no() -> u32;
pub uninterp spec fn keyword_no() -> u32;
#[verifier::external_body] pub fn vx_comment_no() -> (r: u32) ensures r == comment_no() { unimplemented!() }
#[verifier::external_body] pub fn vx_keyword_no() -> (r: u32) ensures r == keyword_no() { unimplemented!() }
/// where the last of the tokens starts: the editor adds up the distances
pub open spec fn walked(t: Seq<SemanticToken>) -> (int, int) decreases t.len() {
    if t.len() == 0 { (0, 0) } else { let w = walked(t.drop_last()); let d = t.last(); if d.delta_line == 0 { (w.0, w.1 + d.delta_start) } else { (w.0 + d.delta_line, d.delta_start as int) } }
}
pub open spec fn shown(li: LineIndex, p: Position) -> (int, int) { (p.line as int, to_char(li, p)) }
/// the tokens so far lie where they belong, and the next may start at p
pub open spec fn ready(b: SemanticTokensBuilder, p: Position) -> bool {
    b.line_index.wf() && pos_le(b.last_range.start, p) && walked(b.tokens@).0 == b.last_range.start.line && (p.line == b.last_range.start.line ==> walked(b.tokens@).1 == to_char(*b.line_index, b.last_range.start))
}
pub proof fn lemma_push(t: Seq<SemanticToken>, d: SemanticToken)
    ensures walked(t.push(d)) == if d.delta_line == 0 { (walked(t).0, walked(t).1 + d.delta_start) } else { (walked(t).0 + d.delta_line, d.delta_start as int) }
{ assert(t.push(d).drop_last() =~= t); }
pub proof fn lemma_to_char(li: LineIndex, p: Position) requires li.wf() ensures 0 <= to_char(li, p) <= u32::MAX
{ if li.has(p.line as int) { let g = gr(li.line(p.line as int)); lemma_line_len(li, p.line as int); lemma_wsum(li.encoding_kind, li.line(p.line as int), if p.column <= g.len() { p.column as int } else { g.len() as int }); } }
pub proof fn lemma_wsum_cat(k: EncodingKind, a: Seq<Seq<char>>, b: Seq<Seq<char>>) ensures wsum(k, a + b) == wsum(k, a) + wsum(k, b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_wsum_cat(k, a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
/// the clusters between two places of a line
pub proof fn lemma_between_places(li: LineIndex, r: Range)
    requires li.wf(), r.start.line == r.end.line, r.start.column <= r.end.column, li.has(r.start.line as int)
    ensures ({ let g = gr(li.line(r.start.line as int)); let s = g.skip(if r.start.column <= g.len() { r.start.column as int } else { g.len() as int }); let n = r.end.column - r.start.column; let t = s.take(if n <= s.len() { n } else { s.len() as int });
        wsum(li.encoding_kind, t) == to_char(li, r.end) - to_char(li, r.start) && wsum(li.encoding_kind, t) <= u32::MAX && blen(cat(t)) <= u32::MAX })
{
    let l = li.line(r.start.line as int); let g = gr(l); let k = li.encoding_kind;
    let a = if r.start.column <= g.len() { r.start.column as int } else { g.len() as int };
    let b = if r.end.column <= g.len() { r.end.column as int } else { g.len() as int };
    let s = g.skip(a); let n = r.end.column - r.start.column; let t = s.take(if n <= s.len() { n } else { s.len() as int });
    assert(t =~= g.subrange(a, b)); assert(g.take(b) =~= g.take(a) + g.subrange(a, b));
    lemma_wsum_cat(k, g.take(a), g.subrange(a, b)); lemma_wsum_cat(EncodingKind::Utf8, g.take(a), g.subrange(a, b)); lemma_wsum(k, l, b); lemma_wsum(k, l, a); lemma_line_len(li, r.start.line as int);
    lemma_gat(l, b); lemma_cat(g.take(a), g.subrange(a, b)); lemma_blen_concat(cat(g.take(a)), cat(g.subrange(a, b))); lemma_blen_split(l, gat(l, b));
}
"""
TB = [
    ("tombi_text::Range::default()", "Range::vx_default()"), ("tombi_uri::Uri", "Uri"), ("tombi_syntax::SyntaxElement", "SyntaxElement"), ("TokenType::COMMENT as u32", "vx_comment_no()"), ("TokenType::KEYWORD as u32", "vx_keyword_no()"), ("token_type as u32", "vx_type(token_type)"),
    ("comment: impl AsRef<tombi_ast::Comment>", "comment: &Comment"), ("comment.as_ref().syntax().range()", "vx_comment_range(comment)"), ("tombi_text::Position", "Position"),
    ("LspRange::from_lsp($a, self.line_index)", "LspRange::from_lsp($a, self.line_index)"), ("log::error!($$x);", ""),
]
NEXT = "ready(*old(self), %s)"
BUILD = [
    Raw(B, "struct SemanticTokensBuilder", pub=True, rewrites=TB + [("tokens: Vec", "pub tokens: Vec"), ("last_range:", "pub last_range:"), ("line_index:", "pub line_index:")]),
    Text("impl Range { pub fn vx_default() -> (r: Range) ensures r.start.line == 0, r.start.column == 0, r.end == r.start { Range { start: Position::vx_default(), end: Position::vx_default() } } }"),
    Fn(B, "SemanticTokensBuilder::new", header="impl<'a> SemanticTokensBuilder<'a>", rewrites=TB, requires="line_index.wf()", ensures="r.tokens@.len() == 0, forall|p: Position| ready(r, p)",
       entry="proof { lemma_gat(line_index.line(0), 0); lemma_column0(line_index.line(0), line_index.encoding_kind); }"),
    Fn(B, "fn delta_line_and_start", rewrites=TB, requires="line_index.wf(), pos_le(start, end)", ensures="r.0 == end.line - start.line, r.1 == to_char(*line_index, end) - if start.line == end.line { to_char(*line_index, start) } else { 0 }",
       entry="proof { theorem_order(*line_index, start, end); }"),
    Fn(B, "fn token_length", rewrites=TB + [("(range.start.line..=range.end.line).fold($$x)", "vx_units_of_lines(range, line_index)"), (".fold(0, |$a, $c| $$b)", ".vx_fold(0, |$a: u32, $c: &str| -> (vx_r: u32) requires $a + units(encoding_kind, $c@) <= u32::MAX, blen($c@) <= u32::MAX ensures vx_r == $a + units(encoding_kind, $c@) {$$b}, Ghost(encoding_kind))"),
                                             ("line_text_graphemes.skip($$a)", "vx_graphemes(line_text).skip($$a)"), ("let line_text_graphemes = vx_graphemes(line_text);", ""), ("let line_text_graphemes = line_text.graphemes(true);", "")],
       requires="line_index.wf(), pos_le(range.start, range.end)", ensures="range.start.line == range.end.line && line_index.has(range.start.line as int) ==> r == to_char(*line_index, range.end) - to_char(*line_index, range.start)",
       entry="proof { if range.start.line == range.end.line && line_index.has(range.start.line as int) { lemma_between_places(*line_index, range); } }"),
    Fn(B, "SemanticTokensBuilder::add_token", header="impl<'a> SemanticTokensBuilder<'a>", rewrites=TB, requires="ready(*old(self), elem.rng().start), pos_le(elem.rng().start, elem.rng().end)",
       ensures="final(self).line_index == old(self).line_index, final(self).last_range == elem.rng(), final(self).tokens@.len() == old(self).tokens@.len() + 1, final(self).tokens@.take(old(self).tokens@.len() as int) == old(self).tokens@, "
               "walked(final(self).tokens@) == shown(*old(self).line_index, elem.rng().start), forall|p: Position| pos_le(elem.rng().start, p) ==> ready(*final(self), p), final(self).tokens@.last().token_type == type_no(token_type), "
               "elem.rng().start.line == elem.rng().end.line && old(self).line_index.has(elem.rng().start.line as int) ==> final(self).tokens@.last().length == to_char(*old(self).line_index, elem.rng().end) - to_char(*old(self).line_index, elem.rng().start)",
       ghost=[("before", "self.last_range = $$x;", "proof { lemma_push(old(self).tokens@, self.tokens@.last()); assert(self.tokens@.take(old(self).tokens@.len() as int) =~= old(self).tokens@); assert(self.tokens@ =~= old(self).tokens@.push(self.tokens@.last())); }")]),
    Fn(B, "SemanticTokensBuilder::add_comment_directive", header="impl<'a> SemanticTokensBuilder<'a>", rewrites=TB,
       requires="ready(*old(self), comment.rng().start), pos_le(comment.rng().start, directive_range.start), pos_le(directive_range.start, directive_range.end), pos_le(directive_range.end, comment.rng().end), comment.rng().start.line == comment.rng().end.line",
       ensures="final(self).line_index == old(self).line_index, final(self).last_range == comment.rng(), final(self).tokens@.len() == old(self).tokens@.len() + 3, forall|p: Position| p.line > comment.rng().start.line ==> ready(*final(self), p), ({ let (n, t, li) = (old(self).tokens@.len() as int, final(self).tokens@, *old(self).line_index); "
               "&&& t.take(n) == old(self).tokens@ &&& walked(t.take(n + 1)) == shown(li, comment.rng().start) &&& walked(t.take(n + 2)) == shown(li, directive_range.start) &&& walked(t) == shown(li, directive_range.end) "
               "&&& t[n].length == to_char(li, directive_range.start) - to_char(li, comment.rng().start) &&& t[n + 1].length == to_char(li, directive_range.end) - to_char(li, directive_range.start) &&& t[n + 2].length == to_char(li, comment.rng().end) - to_char(li, directive_range.end) "
               "&&& t[n].token_type == comment_no() &&& t[n + 1].token_type == keyword_no() &&& t[n + 2].token_type == comment_no() })",
       entry="let ghost vx_o = self.tokens@; let ghost vx_d = directive_range; proof { let li = *self.line_index; theorem_order(li, comment.rng().start, directive_range.start); theorem_order(li, directive_range.start, directive_range.end); theorem_order(li, directive_range.end, comment.rng().end); lemma_to_char(li, comment.rng().start); }",
       exit="proof { let n = vx_o.len() as int; let t = self.tokens@; assert(t.take(n) =~= vx_o); assert(t.take(n + 1) =~= vx_o.push(t[n])); assert(t.take(n + 2) =~= t.take(n + 1).push(t[n + 1])); assert(t =~= t.take(n + 2).push(t[n + 2])); lemma_push(vx_o, t[n]); lemma_push(t.take(n + 1), t[n + 1]); lemma_push(t.take(n + 2), t[n + 2]); }"),
    Fn(B, "SemanticTokensBuilder::build", header="impl<'a> SemanticTokensBuilder<'a>", ensures="r@ == self.tokens@"),
]

DOC = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum TomlVersion { V1_0_0, V1_1_0_Preview }
#[verifier::external_body] pub struct Root { _x: () }
#[verifier::external_body] pub struct DocumentTree { _x: () }
#[verifier::external_body] pub struct Diagnostic { _x: () }
#[verifier::external_body] pub struct ParseError { _x: () }
#[verifier::external_body] pub struct TreeError { _x: () }
impl Root { #[verifier::external_body] pub fn clone(&self) -> (r: Root) ensures r == *self { unimplemented!() } }
impl EncodingKind { pub fn clone(&self) -> (r: EncodingKind) ensures r == *self { *self } }
/// what the parser and the tree builder make of a text
pub uninterp spec fn parsed(t: Seq<char>) -> (Root, Seq<ParseError>);
pub uninterp spec fn grown(r: Root, v: TomlVersion) -> (DocumentTree, Seq<TreeError>);
pub uninterp spec fn pdiag(e: ParseError) -> Seq<Diagnostic>;
pub uninterp spec fn tdiag(e: TreeError) -> Seq<Diagnostic>;
pub open spec fn pdiags(e: Seq<ParseError>) -> Seq<Diagnostic> decreases e.len() { if e.len() == 0 { Seq::empty() } else { pdiags(e.drop_last()) + pdiag(e.last()) } }
pub open spec fn tdiags(e: Seq<TreeError>) -> Seq<Diagnostic> decreases e.len() { if e.len() == 0 { Seq::empty() } else { tdiags(e.drop_last()) + tdiag(e.last()) } }
impl ParseError { #[verifier::external_body] pub fn set_diagnostics(&self, d: &mut Vec<Diagnostic>) ensures final(d)@ == old(d)@ + pdiag(*self) { unimplemented!() } }
impl TreeError { #[verifier::external_body] pub fn set_diagnostics(&self, d: &mut Vec<Diagnostic>) ensures final(d)@ == old(d)@ + tdiag(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vx_parse(t: &String) -> (r: (Root, Vec<ParseError>)) ensures r.0 == parsed(t@).0, r.1@ == parsed(t@).1 { unimplemented!() }
#[verifier::external_body] pub fn vx_grow(t: Root, v: TomlVersion) -> (r: (DocumentTree, Vec<TreeError>)) ensures r.0 == grown(t, v).0, r.1@ == grown(t, v).1 { unimplemented!() }
#[verifier::external_body] pub fn vx_cap(n: usize) -> (r: Vec<Diagnostic>) ensures r@.len() == 0 { Vec::with_capacity(n) }
#[verifier::external_body] pub fn vx_same_text(t: &String) -> (r: String) ensures r@ == t@ { t.clone() }
/// a document is what its own text says
pub open spec fn of_text(d: DocumentSource, t: Seq<char>, v: TomlVersion) -> bool {
    d.text@ == t && d.toml_version == v && d.line_index.wf() && d.line_index.text@ == t
    && d.ast == parsed(t).0 && d.ast_errors@ == pdiags(parsed(t).1) && d.document_tree == grown(parsed(t).0, v).0 && d.document_tree_errors@ == tdiags(grown(parsed(t).0, v).1)
}
"""
DR = [
    ("Arc<str>", "String"), ("Arc<$t>", "$t"), ("tombi_config::TomlVersion", "TomlVersion"), ("tombi_ast::Root", "Root"), ("tombi_diagnostic::Diagnostic", "Diagnostic"), ("tombi_document_tree::DocumentTree", "DocumentTree"), ("text: impl Into<String>", "text: String"),
    ("Arc::<str>::from(text.into())", "text"), ("tombi_parser::parse(text.as_ref()).into_root_and_errors()", "vx_parse(&text)"), ("tombi_parser::parse(self.text.as_ref()).into_root_and_errors()", "vx_parse(&self.text)"),
    ("Arc::new(LineIndex::from_arc($$a))", "LineIndex::from_arc($$a)"), ("Arc::new($x)", "$x"), ("Arc::clone(&text)", "vx_same_text(&text)"), ("Arc::clone(&self.text)", "vx_same_text(&self.text)"),
    ("ast.clone().into_document_tree_and_errors(toml_version).into()", "vx_grow(ast.clone(), toml_version)"), ("self.ast.as_ref().clone().into_document_tree_and_errors(toml_version).into()", "vx_grow(self.ast.clone(), toml_version)"),
    ("Vec::with_capacity($$n)", "vx_cap($$n)"),
    ("for error in errors { $$b }", "let vx_e = errors; let mut vx_j: usize = 0; while vx_j < vx_e.len() { let error = &vx_e[vx_j]; vx_j += 1; $$b }"), ("for error in errors { $$b }", "let vx_e = errors; let mut vx_j: usize = 0; while vx_j < vx_e.len() { let error = &vx_e[vx_j]; vx_j += 1; $$b }"),
]
def errs(kind, where, inv, at):
    return Loop("while", invariant=f"vx_j <= vx_e@.len(), vx_e@ == {at}, {where}@ == {kind}(vx_e@.take(vx_j as int)), {inv}", decreases="vx_e@.len() - vx_j",
                start=f"proof {{ let g = vx_e@.take(vx_j + 1); assert(g.drop_last() =~= vx_e@.take(vx_j as int)); assert(g.last() == vx_e@[vx_j as int]); }}", before=f"proof {{ assert(vx_e@.take(0) =~= Seq::empty()); assert({where}@ =~= Seq::empty()); }}", after="proof { assert(vx_e@.take(vx_e@.len() as int) =~= vx_e@); }")
ONE = "parsed(text@).1"
DOCS = [
    Raw(DS, "struct DocumentSource", pub=True, rewrites=[("Arc<str>", "String"), ("Arc<LineIndex>", "LineIndex"), ("Arc<tombi_ast::Root>", "Root"), ("Arc<tombi_document_tree::DocumentTree>", "DocumentTree"), ("tombi_config::TomlVersion", "TomlVersion"), ("tombi_diagnostic::Diagnostic", "Diagnostic")]
        + [(f"{f}:", f"pub {f}:") for f in ("text", "line_index", "ast", "ast_errors", "document_tree", "document_tree_errors")]),
    Fn(DS, "DocumentSource::new", rewrites=DR, requires="blen(text@) <= u32::MAX", ensures="of_text(r, text@, toml_version), r.version == version, r.line_index.encoding_kind == encoding_kind",
       loops={0: errs("pdiags", "ast_errors", "true", "parsed(text@).1"), 1: errs("tdiags", "document_tree_errors", "true", "grown(ast, toml_version).1")}),
    Fn(DS, "DocumentSource::set_text", rewrites=DR, requires="blen(text@) <= u32::MAX", ensures="of_text(*final(self), text@, toml_version), final(self).version == old(self).version, final(self).line_index.encoding_kind == old(self).line_index.encoding_kind",
       entry="let ghost vx_t = text@;",
       loops={0: errs("pdiags", "self.ast_errors", "self.version == old(self).version, self.line_index.encoding_kind == old(self).line_index.encoding_kind, self.text@ == vx_t, self.toml_version == toml_version, self.line_index.wf(), self.line_index.text@ == vx_t, self.ast == parsed(vx_t).0", "parsed(vx_t).1"),
              1: errs("tdiags", "self.document_tree_errors", "self.version == old(self).version, self.line_index.encoding_kind == old(self).line_index.encoding_kind, self.text@ == vx_t, self.toml_version == toml_version, self.line_index.wf(), self.line_index.text@ == vx_t, self.ast == parsed(vx_t).0, self.ast_errors@ == pdiags(parsed(vx_t).1), self.document_tree == grown(parsed(vx_t).0, toml_version).0", "grown(parsed(vx_t).0, toml_version).1")}),
]
CO = "crates/tombi-ast/src/impls/comment.rs"
CD = "crates/tombi-ast/src/comment_directive.rs"
DIRT = r"""
pub uninterp spec fn white(c: char) -> bool;
/// how many blank characters the text starts with
pub open spec fn lead(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && white(s[0]) { 1 + lead(s.skip(1)) } else { 0 } }
pub proof fn lemma_lead(s: Seq<char>) ensures 0 <= lead(s) <= s.len() decreases s.len() { if s.len() > 0 && white(s[0]) { lemma_lead(s.skip(1)); } }
pub open spec fn begins(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
/// where a text that starts at p ends
pub open spec fn put(p: Position, t: Seq<char>) -> (int, int) { (p.line + walk(gr(t)).0, if walk(gr(t)).0 == 0 { p.column + walk(gr(t)).1 } else { walk(gr(t)).1 }) }
pub open spec fn pair(p: Position) -> (int, int) { (p.line as int, p.column as int) }
/// the range of a word that comes after `pre` in a text that starts at p
pub open spec fn spans_word(r: Range, p: Position, pre: Seq<char>, word: Seq<char>) -> bool { pair(r.start) == put(p, pre) && pair(r.end) == put(r.start, word) }
pub open spec fn roomy(c: Comment) -> bool { c.txt().len() > 0 && c.txt()[0] == '#' && c.rng().start.line + 2 * blen(c.txt()) + 64 <= u32::MAX && c.rng().start.column + 2 * blen(c.txt()) + 64 <= u32::MAX }
impl Comment { pub uninterp spec fn txt(&self) -> Seq<char>; }
#[verifier::external_body] pub fn vx_comment_text<'a>(c: &'a Comment) -> (r: &'a str) ensures r@ == c.txt(), r@.len() > 0, r@[0] == '#' { unimplemented!() }
#[verifier::external_body] pub fn vx_trim_start<'a>(t: &'a str) -> (r: &'a str) ensures r@ == t@.skip(lead(t@)) { t.trim_start() }
#[verifier::external_body] pub fn vx_trim_end<'a>(t: &'a str) -> (r: &'a str) ensures exists|n: int| 0 <= n <= t@.len() && #[trigger] t@.take(n) == r@ && (n > 0 ==> !white(t@[n - 1])) && forall|i: int| n <= i < t@.len() ==> white(t@[i]) { t.trim_end() }
#[verifier::external_body] pub fn vx_begins(t: &str, p: &str) -> (r: bool) ensures r == begins(t@, p@) { t.starts_with(p) }
#[verifier::external_body] pub fn vx_strip<'a>(t: &'a str, p: &str) -> (r: Option<&'a str>) ensures r is Some == begins(t@, p@), r matches Some(x) ==> x@ == t@.skip(p@.len() as int) { t.strip_prefix(p) }
#[verifier::external_body] pub struct Path { _x: () }
#[verifier::external_body] pub struct SchemaUri { _x: () }
#[verifier::external_body] pub fn vx_is_relative(t: &str) -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_relative(t: &str, p: &Path) -> Result<SchemaUri, String> { unimplemented!() }
#[verifier::external_body] pub fn vx_uri(t: &str) -> Result<SchemaUri, ()> { unimplemented!() }
#[verifier::external_body] pub fn vx_path_uri(t: &str, p: &Path) -> Result<SchemaUri, String> { unimplemented!() }
pub proof fn lemma_put(s: Seq<char>) ensures 0 <= walk(gr(s)).0 <= blen(s), 0 <= walk(gr(s)).1 <= blen(s) { lemma_walk_bound(gr(s)); lemma_gr_len(s); lemma_blen_ge(s); }
/// cutting at the n-th character
pub proof fn lemma_cut(s: Seq<char>, n: int) requires 0 <= n <= s.len()
    ensures is_bound(s, blen(s) - blen(s.skip(n))), cidx(s, blen(s) - blen(s.skip(n))) == n, blen(s.skip(n)) <= blen(s), blen(s.take(n)) <= blen(s)
{ lemma_blen_split(s, n); lemma_cidx(s, n); }
pub proof fn lemma_cut_ascii(s: Seq<char>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (s[i] as u32) < 0x80
    ensures is_bound(s, n), cidx(s, n) == n, blen(s.take(n)) == n
{ lemma_ascii_len(s.take(n)); lemma_cidx(s, n); }
pub proof fn lemma_ascii_len(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (s[i] as u32) < 0x80 ensures blen(s) == s.len() decreases s.len()
{ if s.len() > 0 { lemma_ascii_len(s.skip(1)); } }
"""
CR = [
    ("tombi_text::", ""), ("self.syntax().text()", "vx_comment_text(self)"), ("self.to_string()", "vx_comment_text(self)"), ("self.syntax().range()", "vx_comment_range(self)"),
    ("comment_text[1..].trim_start()", "vx_trim_start(vx_slice_from(comment_text, 1))"), ("$x.trim_start_matches(' ')", "vx_trim_start($x)"), ("$x.trim_start()", "vx_trim_start($x)"), ("$x.trim_end()", "vx_trim_end($x)"), ("$x.trim()", "vx_trim_end(vx_trim_start($x))"),
    ("$a.starts_with($$b)", "vx_begins($a, $$b)"), ("&$a[$$b..]", "vx_slice_from($a, $$b)"), ("&$a[..$$b]", "vx_slice_to($a, $$b)"), ("$a.len()", "vx_len($a)"), ("content.to_string()", "vx_to_string(content)"),
    ("$c.strip_prefix($p)", "vx_strip($c, $p)"), ("if let Some(mut uri_text) = $$e {", "if let Some(vx_u) = $$e { let mut uri_text = vx_u;"),
    ("Option<&std::path::Path>", "Option<&Path>"), ("source_path && is_relative_file_schema_uri_text(uri_text) {", "source_path && vx_is_relative(uri_text) {"),
    ("let mut schema_file_path = $$a; if schema_file_path.is_relative() && let Some($d) = source_path.parent() { $$x } if let Ok($e) = schema_file_path.canonicalize() { $$y }", ""),
    ("tombi_uri::SchemaUri", "SchemaUri"),
    ("SchemaUri::from_file_path($$a).map_err($$b)", "vx_path_uri(uri_text, source_path)"), ("resolve_relative_file_schema_uri(uri_text, source_path)", "vx_relative(uri_text, source_path)"),
    ("if let Some(source_path) = source_path && vx_is_relative(uri_text) { $$a } else if let Ok(uri) = uri_text.parse::<SchemaUri>() { $$b } else if let Some(source_path) = source_path { $$c } else { $$d }",
     "let vx_parsed = vx_uri(uri_text); if source_path.is_some() && vx_is_relative(uri_text) { let source_path = source_path.unwrap(); $$a } else if vx_parsed.is_ok() { let uri = vx_parsed.unwrap(); $$b } else if let Some(source_path) = source_path { $$c } else { $$d }"),
    ("Err(uri_text.to_string())", "Err(vx_to_string(uri_text))"),
]
lits = lambda *a: " ".join(f'reveal_strlit("{x}"); assert("{x}"@ =~= seq![{", ".join(chr(39)+c+chr(39) for c in x)}]);' for x in a)
pref = lambda w: lits(w) + f' if begins(self.txt(), "{w}"@) {{ let t = self.txt(); let w = "{w}"@; assert forall|i: int| 0 <= i < w.len() implies t[i] == w[i] by {{ assert(t.take(w.len() as int)[i] == w[i]); }} lemma_cut_ascii(t, w.len() as int); lemma_blen_split(t, w.len() as int); }} '
DIRS = [
    Raw(CD, "struct SchemaDocumentCommentDirective", rewrites=CR), Raw(CD, "struct TombiDocumentCommentDirective", rewrites=CR), Raw(CD, "struct TombiValueCommentDirective", rewrites=CR),
    Fn(CO, "Comment::get_tombi_value_directive", rewrites=CR, requires="roomy(*self)",
       ensures="({ let (t, p, w) = (self.txt(), self.rng().start, \"tombi:\"@); let n = 1 + lead(t.skip(1)); (r is Some) == begins(t.skip(n), w) && (r matches Some(d) ==> spans_word(d.directive_range, p, t.take(n), w) && d.content@ == t.skip(n + 6) && pair(d.content_range.start) == (p.line as int, d.directive_range.end.column as int) && (pos_le(d.content_range.start, self.rng().end) ==> d.content_range.end == self.rng().end)) })",
       entry=f'proof {{ let t = self.txt(); let n = 1 + lead(t.skip(1)); lemma_lead(t.skip(1)); lemma_cut_ascii(t, 1); lemma_cut(t, n); assert(t.skip(1).skip(n - 1) =~= t.skip(n)); lemma_put(t.take(n)); {lits("tombi:")} let w = "tombi:"@; lemma_ascii_len(w); lemma_put(w); '
             'if begins(t.skip(n), w) { let u = t.skip(n); assert forall|i: int| 0 <= i < 6 implies u[i] == w[i] by { assert(u.take(6)[i] == w[i]); } lemma_cut_ascii(u, 6); lemma_blen_split(u, 6); assert(u.skip(6) =~= t.skip(n + 6)); } }'),
    Fn(CO, "Comment::get_tombi_document_directive", rewrites=CR, requires="roomy(*self)",
       ensures="({ let (t, p) = (self.txt(), self.rng().start); (r is Some) == begins(t, \"#:tombi \"@) && (r matches Some(d) ==> pair(d.directive_range.start) == (p.line as int, p.column + 1) && pair(d.directive_range.end) == (p.line as int, p.column + 7) && d.content@ == t.skip(8) && pair(d.content_range.start) == (p.line as int, p.column + 8) && (pos_le(d.content_range.start, self.rng().end) ==> d.content_range.end == self.rng().end)) })",
       entry="proof { " + pref("#:tombi ") + " }"),
    Fn(CO, "Comment::get_document_schema_directive", rewrites=CR, requires="roomy(*self)",
       ensures="({ let (t, p) = (self.txt(), self.rng().start); (r is Some) == begins(t, \"#:schema \"@) && (r matches Some(d) ==> pair(d.directive_range.start) == (p.line as int, p.column + 1) && pair(d.directive_range.end) == (p.line as int, p.column + 8) && ({ let n = 9 + lead(t.skip(9)); "
               "exists|m: int| 0 <= m <= t.skip(n).len() && spans_word(d.uri_range, p, t.take(n), #[trigger] t.skip(n).take(m)) && (m > 0 ==> !white(t.skip(n)[m - 1])) && forall|i: int| m <= i < t.skip(n).len() ==> white(t.skip(n)[i]) })) })",
       entry="proof { " + pref("#:schema ") + " let t = self.txt(); if t.len() >= 9 { let n = 9 + lead(t.skip(9)); lemma_lead(t.skip(9)); lemma_cut(t, n); assert(t.skip(9).skip(n - 9) =~= t.skip(n)); lemma_put(t.take(n)); lemma_blen_split(t, n); assert forall|m: int| 0 <= m <= t.skip(n).len() implies 0 <= walk(gr(#[trigger] t.skip(n).take(m))).0 <= blen(t.skip(n)) && 0 <= walk(gr(t.skip(n).take(m))).1 <= blen(t.skip(n)) && blen(t.skip(n).take(m)) <= blen(t.skip(n)) by { lemma_put(t.skip(n).take(m)); lemma_blen_split(t.skip(n), m); } } }"),
]
UNIT = Unit("edits", [Text(STR)] + TYPES + P.LI + [Text(P.GRAPHEMES), Text(P.THEORY), Text(P.ROUND), Text(P.SHIM), Text(P.STEP), Text(P.LEMM), Text(SPEC)] + TTF + P.ALG + P.LSP + EDIT + [Text(TOK)] + BUILD + [Text(DOC)] + DOCS + [Text(DIRT)] + DIRS, rewrites=RW)
