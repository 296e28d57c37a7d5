"""C12: a position means the same place to the core, to the line index and to the editor."""
from vgen import *
from shims import *
from text_types import D, TYPES, RULES as TTR, FNS as TTF, DER

F = D + "features/lsp/"

# ------------------------------------------------------------------ graphemes (unicode-segmentation), assumed
GRAPHEMES = r'''
/// the extended grapheme clusters of a text (crate unicode-segmentation)
pub uninterp spec fn gr(s: Seq<char>) -> Seq<Seq<char>>;
pub open spec fn cat(g: Seq<Seq<char>>) -> Seq<char> decreases g.len() { if g.len() == 0 { Seq::empty() } else { cat(g.drop_last()) + g.last() } }
/// i is a grapheme boundary: the text can be segmented on each side of it alone
pub open spec fn isb(s: Seq<char>, i: int) -> bool { 0 <= i <= s.len() && gr(s) =~= gr(s.take(i)) + gr(s.skip(i)) }
/// GB1/GB2: clusters make up the text, none is empty
#[verifier::external_body]
pub proof fn axiom_gr(s: Seq<char>) ensures cat(gr(s)) == s, forall|i: int| 0 <= i < gr(s).len() ==> (#[trigger] gr(s)[i]).len() > 0 {}
/// every rule looks back no further than the cluster it may extend, and ahead one character
#[verifier::external_body]
pub proof fn axiom_gr_local(s: Seq<char>, k: int) requires 0 <= k <= gr(s).len() ensures gr(cat(gr(s).take(k))) == gr(s).take(k), gr(cat(gr(s).skip(k))) == gr(s).skip(k) {}
/// GB3-GB5: controls stand alone, except that "\r\n" is one cluster
#[verifier::external_body]
pub proof fn axiom_gr_nl(s: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i] == '\n',
    ensures isb(s, i + 1), (i == 0 || s[i - 1] != '\r') ==> isb(s, i), (i > 0 && s[i - 1] == '\r') ==> isb(s, i - 1) && !isb(s, i),
        gr(seq!['\n']) == seq![seq!['\n']], gr(seq!['\r', '\n']) == seq![seq!['\r', '\n']],
{}
'''
THEORY = r'''
pub proof fn lemma_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures cat(a + b) == cat(a) + cat(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(cat(a) + cat(b) =~= cat(a)); }
    else { lemma_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(cat(a + b) =~= cat(a) + cat(b)); }
}
pub proof fn lemma_cat_len(g: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).len() > 0
    ensures cat(g).len() >= g.len() decreases g.len()
{ if g.len() > 0 { assert(g.last().len() > 0); assert forall|i: int| 0 <= i < g.drop_last().len() implies (#[trigger] g.drop_last()[i]).len() > 0 by { assert(g[i].len() > 0); } lemma_cat_len(g.drop_last()); } }
pub proof fn lemma_cat_one(c: Seq<char>) ensures cat(seq![c]) == c { assert(seq![c].drop_last() =~= Seq::empty()); assert(cat(seq![c].drop_last()) =~= Seq::<char>::empty()); assert(Seq::<char>::empty() + c =~= c); assert(seq![c].last() == c); }
/// how many clusters lie before a boundary
pub open spec fn gn(s: Seq<char>, i: int) -> int { gr(s.take(i)).len() as int }
/// where the k-th cluster starts
pub open spec fn gat(s: Seq<char>, k: int) -> int { cat(gr(s).take(k)).len() as int }
/// the start of every cluster is a boundary
pub proof fn lemma_gat(s: Seq<char>, k: int)
    requires 0 <= k <= gr(s).len()
    ensures isb(s, gat(s, k)), 0 <= gat(s, k) <= s.len(), s.take(gat(s, k)) == cat(gr(s).take(k)), s.skip(gat(s, k)) == cat(gr(s).skip(k)), gn(s, gat(s, k)) == k, gr(s.take(gat(s, k))) == gr(s).take(k),
        k == gr(s).len() ==> gat(s, k) == s.len(), k == 0 ==> gat(s, k) == 0,
{
    axiom_gr(s); axiom_gr_local(s, k);
    lemma_cat(gr(s).take(k), gr(s).skip(k));
    assert(gr(s).take(k) + gr(s).skip(k) =~= gr(s));
    let i = gat(s, k);
    assert(s.take(i) =~= cat(gr(s).take(k)));
    assert(s.skip(i) =~= cat(gr(s).skip(k)));
    if k == gr(s).len() { assert(gr(s).take(k) =~= gr(s)); }
}
/// every boundary is the start of a cluster (or the end of the text)
pub proof fn lemma_gn(s: Seq<char>, i: int)
    requires isb(s, i)
    ensures 0 <= gn(s, i) <= gr(s).len(), gat(s, gn(s, i)) == i, gr(s).take(gn(s, i)) == gr(s.take(i)), gr(s).skip(gn(s, i)) == gr(s.skip(i)), i > 0 ==> gn(s, i) > 0,
{
    let k = gn(s, i);
    assert(gr(s).take(k) =~= gr(s.take(i)));
    assert(gr(s).skip(k) =~= gr(s.skip(i)));
    axiom_gr(s.take(i));
    if i > 0 && k == 0 { assert(gr(s.take(i)) =~= Seq::empty()); }
}
pub proof fn lemma_gat_mono(s: Seq<char>, k: int, l: int)
    requires 0 <= k <= l <= gr(s).len()
    ensures gat(s, k) <= gat(s, l), k < l ==> gat(s, k) < gat(s, l)
{
    axiom_gr(s);
    let g = gr(s);
    assert(g.take(l) =~= g.take(k) + g.subrange(k, l));
    lemma_cat(g.take(k), g.subrange(k, l));
    lemma_cat_len(g.subrange(k, l));
}
/// boundaries of a text are boundaries of the part between two of them
pub proof fn lemma_gn_mono(s: Seq<char>, a: int, i: int)
    requires isb(s, a), isb(s, i), a <= i
    ensures 0 <= gn(s, a) <= gn(s, i) <= gr(s).len()
{ lemma_gn(s, a); lemma_gn(s, i); if gn(s, a) > gn(s, i) { lemma_gat_mono(s, gn(s, i), gn(s, a)); } }
pub proof fn lemma_isb_take(s: Seq<char>, a: int, b: int)
    requires isb(s, a), isb(s, b), a <= b
    ensures isb(s.take(b), a), gn(s.take(b), a) == gn(s, a), gr(s.take(b)) == gr(s).take(gn(s, b))
{
    let (ka, kb, t) = (gn(s, a), gn(s, b), s.take(b));
    lemma_gn_mono(s, a, b); lemma_gn(s, a); lemma_gn(s, b);
    assert(gr(t).take(ka) =~= gr(s).take(ka));
    lemma_gat(t, ka);
    assert(gat(t, ka) == gat(s, ka));
}
pub proof fn lemma_isb_skip0(s: Seq<char>, a: int, i: int)
    requires isb(s, a), isb(s, i), a <= i
    ensures isb(s.skip(a), i - a), gn(s.skip(a), i - a) == gn(s, i) - gn(s, a), gr(s.skip(a)) == gr(s).skip(gn(s, a))
{
    let (ka, ki, t) = (gn(s, a), gn(s, i), s.skip(a));
    lemma_gn_mono(s, a, i); lemma_gn(s, a); lemma_gn(s, i);
    lemma_gat(t, ki - ka);
    assert(gr(s).take(ki) =~= gr(s).take(ka) + gr(t).take(ki - ka));
    lemma_cat(gr(s).take(ka), gr(t).take(ki - ka));
    assert(gat(t, ki - ka) == i - a);
}
pub proof fn lemma_isb_sub(s: Seq<char>, a: int, i: int, b: int)
    requires isb(s, a), isb(s, i), isb(s, b), a <= i <= b
    ensures isb(s.subrange(a, b), i - a), gn(s.subrange(a, b), i - a) == gn(s, i) - gn(s, a), gr(s.subrange(a, b)) == gr(s).subrange(gn(s, a), gn(s, b)), gn(s, a) <= gn(s, i) <= gn(s, b) <= gr(s).len(),
{
    let t = s.take(b);
    lemma_gn_mono(s, a, i); lemma_gn_mono(s, i, b);
    lemma_isb_take(s, a, b); lemma_isb_take(s, i, b);
    lemma_isb_skip0(t, a, i);
    assert(t.skip(a) =~= s.subrange(a, b));
    assert(gr(s).take(gn(s, b)).skip(gn(s, a)) =~= gr(s).subrange(gn(s, a), gn(s, b)));
}
pub proof fn lemma_isb_ends(s: Seq<char>) ensures isb(s, 0), isb(s, s.len() as int), gn(s, 0) == 0, gn(s, s.len() as int) == gr(s).len()
{ axiom_gr(s); lemma_gat(s, 0); lemma_gat(s, gr(s).len() as int); assert(s.take(s.len() as int) =~= s); }

// ---------------------------------------------------------------- units of an encoding
pub open spec fn u16len(c: char) -> nat { if (c as u32) < 0x10000 { 1 } else { 2 } }
pub open spec fn u16s(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { u16s(s.drop_last()) + u16len(s.last()) } }
pub open spec fn units(k: EncodingKind, s: Seq<char>) -> nat {
    match k { EncodingKind::Utf8 => blen(s), EncodingKind::Utf16 => u16s(s), EncodingKind::Utf32 => s.len(), EncodingKind::GraphemeCluster => gr(s).len() }
}
pub open spec fn wsum(k: EncodingKind, g: Seq<Seq<char>>) -> nat decreases g.len() { if g.len() == 0 { 0 } else { wsum(k, g.drop_last()) + units(k, g.last()) } }
pub proof fn lemma_u16_cat(a: Seq<char>, b: Seq<char>) ensures u16s(a + b) == u16s(a) + u16s(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { lemma_u16_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
pub proof fn lemma_u16_bounds(s: Seq<char>) ensures s.len() <= u16s(s) <= blen(s) decreases s.len()
{ if s.len() > 0 { lemma_u16_bounds(s.drop_last()); assert(s.drop_last() + seq![s.last()] =~= s); lemma_blen_concat(s.drop_last(), seq![s.last()]); lemma_blen_one(s.last()); } else { assert(blen(s) == 0); } }
pub proof fn lemma_gr_len(s: Seq<char>) ensures gr(s).len() <= s.len(), s.len() > 0 ==> gr(s).len() > 0 { axiom_gr(s); lemma_cat_len(gr(s)); if gr(s).len() == 0 { assert(gr(s) =~= Seq::empty()); } }
/// a unit of measure is at most a byte, and a cluster is at least one
pub proof fn lemma_units_bound(k: EncodingKind, s: Seq<char>) ensures units(k, s) <= blen(s), s.len() > 0 ==> units(k, s) > 0 { lemma_u16_bounds(s); lemma_blen_ge(s); lemma_gr_len(s); }
/// measuring cluster by cluster measures the text
pub proof fn lemma_wsum(k: EncodingKind, s: Seq<char>, n: int)
    requires 0 <= n <= gr(s).len()
    ensures wsum(k, gr(s).take(n)) == units(k, s.take(gat(s, n))), wsum(k, gr(s).take(n)) <= blen(s),
    decreases n
{
    lemma_gat(s, n);
    if n == 0 { assert(gr(s).take(0) =~= Seq::empty()); assert(s.take(0) =~= Seq::empty()); lemma_units_bound(k, s.take(0)); assert(u16s(s.take(0)) == 0); assert(gr(s.take(gat(s, 0))) =~= Seq::empty()); }
    else {
        lemma_wsum(k, s, n - 1); lemma_gat(s, n - 1);
        let (a, c) = (s.take(gat(s, n - 1)), gr(s)[n - 1]);
        assert(gr(s).take(n).drop_last() =~= gr(s).take(n - 1));
        assert(gr(s).take(n).last() == c);
        assert(s.take(gat(s, n)) == a + c);
        lemma_blen_concat(a, c); lemma_u16_cat(a, c);
        axiom_gr_local(s, n); axiom_gr_local(s.take(gat(s, n)), n - 1);
        assert(gr(s.take(gat(s, n))) =~= gr(s).take(n));
        assert(gr(s).take(n).skip(n - 1) =~= seq![c]);
        lemma_cat_one(c);
        assert(gr(c) == seq![c]);
    }
    lemma_blen_split(s, gat(s, n)); lemma_units_bound(k, s.take(gat(s, n)));
}
/// the more clusters, the more units
pub proof fn lemma_units_mono(k: EncodingKind, s: Seq<char>, m: int, n: int)
    requires 0 <= m <= n <= gr(s).len()
    ensures wsum(k, gr(s).take(m)) <= wsum(k, gr(s).take(n)), m < n ==> wsum(k, gr(s).take(m)) < wsum(k, gr(s).take(n))
    decreases n - m
{
    if m < n { lemma_units_mono(k, s, m, n - 1); assert(gr(s).take(n).drop_last() =~= gr(s).take(n - 1)); axiom_gr(s); assert(gr(s)[n - 1].len() > 0); lemma_units_bound(k, gr(s)[n - 1]); }
}

// ---------------------------------------------------------------- lines
/// number of line feeds before character i
pub open spec fn lno(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else { lno(s, i - 1) + if s[i - 1] == '\n' { 1int } else { 0int } } }
/// where the line of character i starts
pub open spec fn lstart(s: Seq<char>, i: int) -> int decreases i { if i <= 0 { 0 } else if s[i - 1] == '\n' { i } else { lstart(s, i - 1) } }
/// where the text of a line ends whose line feed is at i: a carriage return right before it belongs to the line break
pub open spec fn lend(s: Seq<char>, i: int) -> int { if i > lstart(s, i) && s[i - 1] == '\r' { i - 1 } else { i } }
/// the lines that are complete before i
pub open spec fn done(s: Seq<char>, i: int) -> Seq<(int, int)> decreases i {
    if i <= 0 { Seq::empty() } else if s[i - 1] == '\n' { done(s, i - 1).push((lstart(s, i - 1), lend(s, i - 1))) } else { done(s, i - 1) }
}
pub open spec fn lines_of(s: Seq<char>) -> Seq<(int, int)> { done(s, s.len() as int).push((lstart(s, s.len() as int), s.len() as int)) }
pub open spec fn span_is(s: Seq<char>, sp: Span, l: (int, int)) -> bool { 0 <= l.0 <= l.1 <= s.len() && sp.start.raw == blen(s.take(l.0)) && sp.end.raw == blen(s.take(l.1)) }
pub open spec fn spans_are(s: Seq<char>, v: Seq<Span>, l: Seq<(int, int)>) -> bool { v.len() == l.len() && forall|k: int| 0 <= k < v.len() ==> span_is(s, #[trigger] v[k], l[k]) }
impl LineIndex {
    pub open spec fn wf(&self) -> bool { spans_are(self.text@, self.lines@, lines_of(self.text@)) && blen(self.text@) <= u32::MAX }
    pub open spec fn line(&self, k: int) -> Seq<char> { self.text@.subrange(lines_of(self.text@)[k].0, lines_of(self.text@)[k].1) }
    pub open spec fn has(&self, k: int) -> bool { 0 <= k < lines_of(self.text@).len() }
}
pub proof fn lemma_lines(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures 0 <= lstart(s, i) <= i, 0 <= lno(s, i) <= i, done(s, i).len() == lno(s, i), lstart(s, i) > 0 ==> s[lstart(s, i) - 1] == '\n', forall|j: int| lstart(s, i) <= j < i ==> s[j] != '\n',
    decreases i
{ if i > 0 { lemma_lines(s, i - 1); } }
pub proof fn lemma_lno_mono(s: Seq<char>, i: int, j: int) requires 0 <= i <= j <= s.len() ensures lno(s, i) <= lno(s, j), done(s, i) =~= done(s, j).take(lno(s, i)) decreases j - i
{ lemma_lines(s, i); lemma_lines(s, j); if i < j { lemma_lno_mono(s, i, j - 1); lemma_lines(s, j - 1); } }
/// the line a character belongs to (i not between "\r" and "\n")
pub proof fn lemma_line_of(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), i == s.len() || !(s[i] == '\n' && i > 0 && s[i - 1] == '\r'),
    ensures lno(s, i) < lines_of(s).len(), lines_of(s)[lno(s, i)].0 == lstart(s, i), i <= lines_of(s)[lno(s, i)].1 <= s.len(), 0 <= lstart(s, i) <= i,
        lines_of(s)[lno(s, i)].1 == s.len() || s[lines_of(s)[lno(s, i)].1] == '\n' || (lines_of(s)[lno(s, i)].1 + 1 < s.len() && s[lines_of(s)[lno(s, i)].1] == '\r' && s[lines_of(s)[lno(s, i)].1 + 1] == '\n'),
        lines_of(s)[lno(s, i)].1 < s.len() && s[lines_of(s)[lno(s, i)].1] == '\n' ==> lines_of(s)[lno(s, i)].1 == lstart(s, i) || s[lines_of(s)[lno(s, i)].1 - 1] != '\r',
{
    lemma_lines(s, i); lemma_lno_mono(s, i, s.len() as int); lemma_lines(s, s.len() as int);
    lemma_line_end(s, i, i);
}
pub proof fn lemma_line_end(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|q: int| i <= q < j ==> s[q] != '\n', i == s.len() || !(s[i] == '\n' && i > 0 && s[i - 1] == '\r'),
    ensures lno(s, j) == lno(s, i), lstart(s, j) == lstart(s, i), lno(s, i) < lines_of(s).len(), lines_of(s)[lno(s, i)].0 == lstart(s, i), i <= lines_of(s)[lno(s, i)].1 <= s.len(),
        lines_of(s)[lno(s, i)].1 == s.len() || s[lines_of(s)[lno(s, i)].1] == '\n' || (lines_of(s)[lno(s, i)].1 + 1 < s.len() && s[lines_of(s)[lno(s, i)].1] == '\r' && s[lines_of(s)[lno(s, i)].1 + 1] == '\n'),
        lines_of(s)[lno(s, i)].1 < s.len() && s[lines_of(s)[lno(s, i)].1] == '\n' ==> lines_of(s)[lno(s, i)].1 == lstart(s, i) || s[lines_of(s)[lno(s, i)].1 - 1] != '\r',
    decreases s.len() - j
{
    lemma_lines(s, i); lemma_lines(s, j); lemma_same_line(s, i, j);
    lemma_lines(s, s.len() as int);
    if j == s.len() { }
    else if s[j] == '\n' {
        lemma_lno_mono(s, j + 1, s.len() as int); lemma_lines(s, j + 1);
        assert(done(s, j + 1)[lno(s, j)] == (lstart(s, j), lend(s, j)));
        assert(done(s, s.len() as int)[lno(s, j)] == done(s, j + 1)[lno(s, j)]);
        assert(lines_of(s)[lno(s, j)] == (lstart(s, j), lend(s, j)));
        if lend(s, j) < i { assert(i == j); }
    } else { lemma_line_end(s, i, j + 1); }
}
pub proof fn lemma_same_line(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|q: int| i <= q < j ==> s[q] != '\n'
    ensures lno(s, j) == lno(s, i), lstart(s, j) == lstart(s, i) decreases j - i
{ if i < j { lemma_same_line(s, i, j - 1); } }
/// both ends of a line are boundaries
pub proof fn lemma_line_bounds(s: Seq<char>, k: int)
    requires 0 <= k < lines_of(s).len()
    ensures isb(s, lines_of(s)[k].0), isb(s, lines_of(s)[k].1), 0 <= lines_of(s)[k].0 <= lines_of(s)[k].1 <= s.len(), lno(s, lines_of(s)[k].0) == k,
        lstart(s, lines_of(s)[k].0) == lines_of(s)[k].0, forall|q: int| lines_of(s)[k].0 <= q < lines_of(s)[k].1 ==> s[q] != '\n',
        k + 1 == lines_of(s).len() ==> lines_of(s)[k].1 == s.len(),
{
    lemma_isb_ends(s);
    lemma_lines(s, s.len() as int);
    if k == lines_of(s).len() - 1 { let a = lstart(s, s.len() as int); if a > 0 { axiom_gr_nl(s, a - 1); } lemma_same_line(s, a, s.len() as int); lemma_lines(s, a); }
    else { lemma_done_bounds(s, s.len() as int, k); }
}
pub proof fn lemma_done_bounds(s: Seq<char>, n: int, k: int)
    requires 0 <= n <= s.len(), 0 <= k < done(s, n).len()
    ensures isb(s, done(s, n)[k].0), isb(s, done(s, n)[k].1), 0 <= done(s, n)[k].0 <= done(s, n)[k].1 < n, lno(s, done(s, n)[k].0) == k,
        lstart(s, done(s, n)[k].0) == done(s, n)[k].0, forall|q: int| done(s, n)[k].0 <= q < done(s, n)[k].1 ==> s[q] != '\n',
    decreases n
{
    if n > 0 {
        lemma_lines(s, n - 1);
        if s[n - 1] == '\n' && k == done(s, n - 1).len() {
            let a = lstart(s, n - 1);
            lemma_isb_ends(s);
            if a > 0 { axiom_gr_nl(s, a - 1); }
            axiom_gr_nl(s, n - 1);
            lemma_same_line(s, a, n - 1);
            lemma_lines(s, a);
        } else { lemma_done_bounds(s, n - 1, k); }
    }
}
/// walking over clusters: lines and columns
pub open spec fn is_nl(c: Seq<char>) -> bool { c == seq!['\n'] || c == seq!['\r', '\n'] }
pub open spec fn walk(g: Seq<Seq<char>>) -> (int, int) decreases g.len() {
    if g.len() == 0 { (0, 0) } else if is_nl(g.last()) { (walk(g.drop_last()).0 + 1, 0) } else { (walk(g.drop_last()).0, walk(g.drop_last()).1 + 1) }
}
pub proof fn lemma_walk_bound(g: Seq<Seq<char>>) ensures 0 <= walk(g).0 <= g.len(), 0 <= walk(g).1 <= g.len() decreases g.len() { if g.len() > 0 { lemma_walk_bound(g.drop_last()); } }
/// walking over two texts in turn is adding their relative positions
pub proof fn lemma_walk_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures walk(a + b) == (walk(a).0 + walk(b).0, if walk(b).0 == 0 { walk(a).1 + walk(b).1 } else { walk(b).1 }) decreases b.len()
{
    lemma_walk_bound(b); lemma_walk_bound(a);
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_walk_add(a, b.drop_last()); lemma_walk_bound(b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); }
}
pub proof fn lemma_lno_take(s: Seq<char>, i: int, n: int) requires 0 <= i <= n <= s.len() ensures lno(s.take(n), i) == lno(s, i), lstart(s.take(n), i) == lstart(s, i) decreases i
{ if i > 0 { lemma_lno_take(s, i - 1, n); } }
/// THEOREM: the relative position of a text is its number of line feeds and the clusters after the last
pub proof fn lemma_walk(s: Seq<char>, n: int)
    requires 0 <= n <= gr(s).len()
    ensures walk(gr(s).take(n)) == (lno(s, gat(s, n)), n - gn(s, lstart(s, gat(s, n)))), isb(s, lstart(s, gat(s, n))),
    decreases n
{
    lemma_gat(s, n);
    let i = gat(s, n);
    if n == 0 { lemma_isb_ends(s); assert(gr(s).take(0) =~= Seq::empty()); }
    else {
        lemma_walk(s, n - 1); lemma_gat(s, n - 1);
        let (h, c) = (gat(s, n - 1), gr(s)[n - 1]);
        let g = gr(s).take(n);
        assert(g.drop_last() =~= gr(s).take(n - 1));
        assert(g.last() == c);
        assert(s.take(i) == s.take(h) + c);
        axiom_gr(s);
        assert(c.len() > 0);
        assert forall|q: int| 0 <= q < c.len() implies c[q] == s[h + q] by { assert(s.take(i)[h + q] == s[h + q]); }
        lemma_isb_sub(s, h, h, i);
        if s[i - 1] == '\n' {
            lemma_nl_cluster(s, n);
            lemma_lines(s, i - 1);
            if c.len() == 2 { assert(s[i - 2] == '\r'); assert(lno(s, i - 1) == lno(s, i - 2)); }
        } else {
            assert(!is_nl(c)) by { if is_nl(c) { assert(c.last() == '\n'); assert(c[c.len() - 1] == s[i - 1]); } }
            assert forall|q: int| h <= q < i implies s[q] != '\n' by { if s[q] == '\n' { axiom_gr_nl(s, q); lemma_between(s, n, q + 1); } }
            lemma_same_line(s, h, i);
        }
    }
}
/// no boundary inside a cluster
pub proof fn lemma_between(s: Seq<char>, n: int, i: int)
    requires 0 < n <= gr(s).len(), isb(s, i), gat(s, n - 1) < i <= gat(s, n)
    ensures i == gat(s, n)
{
    lemma_gn(s, i);
    let k = gn(s, i);
    if k <= n - 1 { lemma_gat_mono(s, k, n - 1); }
    if k > n { lemma_gat_mono(s, n, k); }
}
pub proof fn lemma_nl_cluster(s: Seq<char>, n: int)
    requires 0 < n <= gr(s).len(), s[gat(s, n) - 1] == '\n'
    ensures is_nl(gr(s)[n - 1])
{
    lemma_gat(s, n); lemma_gat(s, n - 1); lemma_gat_mono(s, n - 1, n);
    let (h, i, c) = (gat(s, n - 1), gat(s, n), gr(s)[n - 1]);
    assert(gr(s).take(n).drop_last() =~= gr(s).take(n - 1));
    assert(s.take(i) == s.take(h) + c);
    axiom_gr_nl(s, i - 1);
    if i - 1 > 0 && s[i - 2] == '\r' {
        if h < i - 2 { if isb(s, i - 2) { lemma_between(s, n, i - 2); } }
        if h == i - 1 { assert(isb(s, i - 1)); }
        assert(h == i - 2);
        assert(c =~= seq!['\r', '\n']) by { assert(s.take(i)[h] == s[h]); assert(s.take(i)[h + 1] == s[h + 1]); }
    } else {
        if h < i - 1 { lemma_between(s, n, i - 1); }
        assert(c =~= seq!['\n']) by { assert(s.take(i)[h] == s[h]); }
    }
}
/// THEOREM (core and line index agree): the position after a prefix is the line the prefix ends in and the clusters of that line before it
pub proof fn theorem_position_of_prefix(s: Seq<char>, i: int)
    requires isb(s, i)
    ensures ({ let k = lno(s, i); let l = lines_of(s)[k];
        &&& 0 <= k < lines_of(s).len() && l.0 <= i <= l.1 && isb(s.subrange(l.0, l.1), i - l.0)
        &&& walk(gr(s.take(i))) == (k, gn(s.subrange(l.0, l.1), i - l.0)) })
{
    lemma_gn(s, i); lemma_walk(s, gn(s, i));
    if i < s.len() && s[i] == '\n' { axiom_gr_nl(s, i); }
    lemma_line_of(s, i); lemma_lines(s, i);
    lemma_line_bounds(s, lno(s, i));
    lemma_isb_sub(s, lines_of(s)[lno(s, i)].0, i, lines_of(s)[lno(s, i)].1);
}
'''
ROUND = r'''
// ---------------------------------------------------------------- positions of the protocol
/// tombi position -> character of the protocol
pub open spec fn to_char(li: LineIndex, p: Position) -> int {
    if li.has(p.line as int) { let g = gr(li.line(p.line as int)); wsum(li.encoding_kind, g.take(if p.column <= g.len() { p.column as int } else { g.len() as int })) as int } else { 0 }
}
/// n clusters is the last place of the line not after `target` units
pub open spec fn fits(li: LineIndex, line: int, target: int, n: int) -> bool {
    let g = gr(li.line(line));
    0 <= n <= g.len() && wsum(li.encoding_kind, g.take(n)) <= target && (n == g.len() || wsum(li.encoding_kind, g.take(n + 1)) > target)
}
pub proof fn lemma_fits_unique(li: LineIndex, line: int, t: int, n: int, u: int, m: int)
    requires fits(li, line, t, n), fits(li, line, u, m), t <= u
    ensures n <= m
{ if m < n { lemma_units_mono(li.encoding_kind, li.line(line), m + 1, n); } }
/// THEOREM (round trip): a place in a line comes back from the editor as the same place
pub proof fn theorem_round_trip(li: LineIndex, p: Position, back: int)
    requires li.has(p.line as int), p.column <= gr(li.line(p.line as int)).len(), fits(li, p.line as int, to_char(li, p), back)
    ensures back == p.column
{
    let l = li.line(p.line as int);
    if back < p.column { lemma_units_mono(li.encoding_kind, l, back + 1, p.column as int); }
    if back > p.column { lemma_units_mono(li.encoding_kind, l, p.column as int, back); }
}
/// THEOREM (order): later places stay later in the protocol
pub proof fn theorem_order(li: LineIndex, p: Position, q: Position)
    requires pos_le(p, q)
    ensures p.line < q.line || (p.line == q.line && to_char(li, p) <= to_char(li, q))
{
    if p.line == q.line && li.has(p.line as int) { let g = gr(li.line(p.line as int)); lemma_units_mono(li.encoding_kind, li.line(p.line as int), if p.column <= g.len() { p.column as int } else { g.len() as int }, if q.column <= g.len() { q.column as int } else { g.len() as int }); }
}
/// THEOREM (meaning): the character of a place is the number of units of the line before it
pub proof fn theorem_meaning(li: LineIndex, p: Position)
    requires li.has(p.line as int), p.column <= gr(li.line(p.line as int)).len()
    ensures to_char(li, p) == units(li.encoding_kind, li.line(p.line as int).take(gat(li.line(p.line as int), p.column as int)))
{ lemma_wsum(li.encoding_kind, li.line(p.line as int), p.column as int); }
'''
SHIM = r'''
pub struct LspPosition { pub line: u32, pub character: u32 }
pub struct LspRange { pub start: LspPosition, pub end: LspPosition }
/// an iterator over pieces of a text that was run to its end
pub struct VIter<'a> { pub v: Vec<&'a str> }
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
impl<'a> VIter<'a> {
    pub open spec fn view(&self) -> Seq<Seq<char>> { texts(self.v@) }
    #[verifier::external_body] pub fn take(self, n: usize) -> (r: VIter<'a>) ensures r@ =~= self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { VIter { v: self.v.into_iter().take(n).collect() } }
    #[verifier::external_body] pub fn skip(self, n: usize) -> (r: VIter<'a>) ensures r@ =~= self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }) { VIter { v: self.v.into_iter().skip(n).collect() } }
    #[verifier::external_body] pub fn rev(self) -> (r: VIter<'a>) ensures r@ =~= self@.reverse() { VIter { v: self.v.into_iter().rev().collect() } }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    /// fold whose step adds the measure of a piece
    #[verifier::external_body]
    pub fn vx_fold<F: Fn(u32, &'a str) -> u32>(self, init: u32, f: F, Ghost(k): Ghost<EncodingKind>) -> (r: u32)
        requires forall|a: u32, x: &'a str| a + units(k, x@) <= u32::MAX && blen(x@) <= u32::MAX ==> #[trigger] call_requires(f, (a, x)),
            forall|a: u32, x: &'a str, b: u32| #[trigger] call_ensures(f, (a, x), b) ==> b == a + units(k, x@),
            init + wsum(k, self@) <= u32::MAX, blen(cat(self@)) <= u32::MAX,
        ensures r == init + wsum(k, self@)
    { self.v.into_iter().fold(init, f) }
}
#[verifier::external_body]
pub fn vx_graphemes<'a>(s: &'a str) -> (r: VIter<'a>) ensures r@ =~= gr(s@), r.v@.len() == gr(s@).len(), r.v@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
/// grapheme_indices: each cluster with the byte offset it starts at
#[verifier::external_body]
pub fn vx_grapheme_indices<'a>(s: &'a str) -> (r: Vec<(usize, &'a str)>)
    ensures r@.len() == gr(s@).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).1@ == gr(s@)[k] && r@[k].0 == blen(s@.take(gat(s@, k)))
{ unimplemented!() }
#[verifier::external_body] pub fn vx_utf16(s: &str) -> (r: usize) ensures r == u16s(s@) { s.encode_utf16().count() }
#[verifier::external_body] pub fn vx_nchars(s: &str) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body] pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == blen(s@.take(i)) && r@[i].1 == s@[i], r@.len() <= 0x7fff_ffff_ffff_ffff
{ s.char_indices().collect() }
#[verifier::external_body] pub fn vx_len_utf8(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
/// text.as_bytes().get(k): an ASCII byte is the character that starts there
#[verifier::external_body] pub fn vx_byte_is(s: &str, k: usize, b: u8) -> (r: bool)
    requires b < 0x80 ensures r == (exists|i: int| 0 <= i < s@.len() && #[trigger] blen(s@.take(i)) == k && s@[i] as int == b as int) { s.as_bytes().get(k) == Some(&b) }
pub fn vx_sat_add(a: u32, b: u32) -> (r: u32) ensures r == (if a + b <= u32::MAX { (a + b) as u32 } else { u32::MAX }) { if a > u32::MAX - b { u32::MAX } else { a + b } }
#[verifier::external_body] pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub fn vx_any() -> bool { unimplemented!() }
pub fn vx_min_pos(a: Position, b: Position) -> (r: Position) ensures r == (if pos_le(a, b) { a } else { b }) { if vx_le(a, b) { a } else { b } }
pub fn vx_max_pos(a: Position, b: Position) -> (r: Position) ensures r == (if pos_le(a, b) { b } else { a }) { if vx_le(a, b) { b } else { a } }
pub fn vx_min_off(a: Offset, b: Offset) -> (r: Offset) ensures r == (if a.raw <= b.raw { a } else { b }) { if a.raw <= b.raw { a } else { b } }
pub fn vx_max_off(a: Offset, b: Offset) -> (r: Offset) ensures r == (if a.raw <= b.raw { b } else { a }) { if a.raw <= b.raw { b } else { a } }
/// the smallest range with both in it
pub open spec fn covers(r: Range, a: Range, b: Range) -> bool {
    pos_le(r.start, a.start) && pos_le(r.start, b.start) && pos_le(a.end, r.end) && pos_le(b.end, r.end) && (r.start == a.start || r.start == b.start) && (r.end == a.end || r.end == b.end)
}
pub open spec fn within(s: Span, x: u32) -> bool { s.start.raw <= x <= s.end.raw }
pub open spec fn rle(a: Range, b: Range) -> bool { a.start != b.start && pos_le(a.start, b.start) || (a.start == b.start && pos_le(a.end, b.end)) }
'''
LI = [
    Raw(F + "encoding_kind.rs", "enum EncodingKind", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]", rewrites=[("#[default]", ""), ("#[non_exhaustive]", "")]),
    Raw(F + "line_index.rs", "struct LineIndex", pub=True, rewrites=[("Arc<str>", "String"), ("text:", "pub text:"), ("lines:", "pub lines:")]),
]
T32 = [("Line", "u32"), ("Column", "u32"), ("crate::Line", "u32")]
RW = TTR + [
    ("crate::LineIndex", "LineIndex"), ("crate::Position", "Position"), ("crate::Range", "Range"), ("tower_lsp::lsp_types::Position", "LspPosition"), ("tower_lsp::lsp_types::Range", "LspRange"),
    ("let $c = $l.line_text($$a).map(|$t| {$$b}).unwrap_or_default();", "let $c = match $l.line_text($$a) { Some($t) => {$$b}, None => 0 };"),
    ("UnicodeSegmentation::graphemes($$a, true)", "vx_graphemes($$a)"), ("$t.graphemes(true)", "vx_graphemes($t)"),
    ("$t.encode_utf16().count()", "vx_utf16($t)"), ("$t.chars().count()", "vx_nchars($t)"), ("text.len()", "vx_len(text)"), ("grapheme.len()", "vx_len(grapheme)"),
    ("as Column", "as u32"), ("crate::Column", "u32"), ("-> Column", "-> u32"), ("Self::Output", "VxOut"),
    (".fold(0, |$a, $c| $$b)", ".vx_fold(0, |$a: u32, $c: &str| -> (vx_r: u32) requires $a + units(line_index.encoding_kind, $c@) <= u32::MAX, blen($c@) <= u32::MAX ensures vx_r == $a + units(line_index.encoding_kind, $c@) {$$b}, Ghost(line_index.encoding_kind))"),
]
LEMM = r"""
pub proof fn lemma_line_len(li: LineIndex, k: int) requires li.wf(), li.has(k) ensures blen(li.line(k)) <= blen(li.text@), blen(li.text@) <= u32::MAX
{ let l = lines_of(li.text@)[k]; lemma_line_bounds(li.text@, k); lemma_blen_mono(li.text@, l.0, l.1); lemma_blen_split(li.text@, l.1); }
pub proof fn lemma_fold(k: EncodingKind)
    ensures forall|s: Seq<char>, n: int| 0 <= n <= gr(s).len() ==> wsum(k, #[trigger] gr(s).take(n)) <= blen(s) && blen(cat(gr(s).take(n))) <= blen(s)
{ assert forall|s: Seq<char>, n: int| 0 <= n <= gr(s).len() implies wsum(k, #[trigger] gr(s).take(n)) <= blen(s) && blen(cat(gr(s).take(n))) <= blen(s) by { lemma_wsum(k, s, n); lemma_gat(s, n); lemma_blen_split(s, gat(s, n)); } }
"""
def fn(file, spec, ens, **kw):
    return Fn(file, spec, ensures=ens, **kw)
S = D + "span.rs"
OUT = lambda t: [("Self::Output", t)]
CMP = [("$$a.then_with(|| $$b)", "vx_then($$a, $$b)"), ("self.$f.cmp(&other.$g)", "vx_cmp_u32(self.$f, other.$g)"), ("-> Ordering", "-> std::cmp::Ordering")]
OFFCMP = [("self.$a <= other.$b", "self.$a.raw <= other.$b.raw"), ("other.$a <= self.$b", "other.$a.raw <= self.$b.raw"), ("self.$a <= offset", "self.$a.raw <= offset.raw"), ("offset <= self.$a", "offset.raw <= self.$a.raw"), ("offset < self.$a", "offset.raw < self.$a.raw"),
          ("end < start", "end.raw < start.raw"), ("std::cmp::min($$a, $$b)", "vx_min_off($$a, $$b)"), ("std::cmp::max($$a, $$b)", "vx_max_off($$a, $$b)")]
POSCMP = [("self.$a <= other.$b", "vx_le(self.$a, other.$b)"), ("other.$a <= self.$b", "vx_le(other.$a, self.$b)"), ("self.$a <= position", "vx_le(self.$a, position)"), ("position <= self.$a", "vx_le(position, self.$a)"),
          ("std::cmp::min($$a, $$b)", "vx_min_pos($$a, $$b)"), ("std::cmp::max($$a, $$b)", "vx_max_pos($$a, $$b)")]
TRYOFF = [("self.start.checked_add(offset)?", "match self.start.checked_add(offset) { Some(v) => v, None => return None }"), ("self.end.checked_add(offset)?", "match self.end.checked_add(offset) { Some(v) => v, None => return None }"),
          ("self.start.checked_sub(offset)?", "match self.start.checked_sub(offset) { Some(v) => v, None => return None }"), ("self.end.checked_sub(offset)?", "match self.end.checked_sub(offset) { Some(v) => v, None => return None }")]
W = "self.start.raw <= self.end.raw"
WR = "pos_le(self.start, self.end)"
PACK = "proof { let (a, b, c, d) = (%s); assert(((a as u64) << 32) | (b as u64) == ((c as u64) << 32) | (d as u64) <==> a == c && b == d) by (bit_vector); assert(((b as u64) << 32) | (a as u64) == ((d as u64) << 32) | (c as u64) <==> a == c && b == d) by (bit_vector); }"
NOCONST = lambda t: t.replace("const fn", "fn")
def packed(file, ty, a, b):
    return [Fn(file, f"{ty}::as_u64", pre=NOCONST, rewrites=[('cfg!($$x)', "vx_little()")], ensures=f"r == if vx_is_little() {{ ((self.{b} as u64) << 32) | (self.{a} as u64) }} else {{ ((self.{a} as u64) << 32) | (self.{b} as u64) }}"),
            Fn(file, f"PartialEq for {ty}::eq", header=f"impl {ty}", rename="vx_same", rewrites=[('cfg!($$x)', "vx_any()")], ensures="r == (*self == *other)",
               entry=PACK % f"self.{b}, self.{a}, other.{b}, other.{a}")]
ALG = [
    Text("pub uninterp spec fn vx_is_little() -> bool;\n#[verifier::external_body] pub fn vx_little() -> (r: bool) ensures r == vx_is_little() { cfg!(target_endian = \"little\") }\n"),
    Fn(D + "offset.rs", "Offset::of", requires="blen(text@) <= u32::MAX", ensures="r.raw == blen(text@)", rewrites=[("as RawTextSize", "as u32")]),
    Fn(D + "offset.rs", "Offset::checked_add", pre=NOCONST, ensures="r is Some == (self.raw + rhs.raw <= u32::MAX), r is Some ==> r->0.raw == self.raw + rhs.raw"),
    Fn(D + "offset.rs", "Offset::checked_sub", pre=NOCONST, ensures="r is Some == (self.raw >= rhs.raw), r is Some ==> r->0.raw == self.raw - rhs.raw"),
    Fn(D + "relative_position.rs", "Ord for RelativePosition::cmp", header="impl RelativePosition", rewrites=CMP,
       ensures="(r == std::cmp::Ordering::Equal) == (*self == *other), (r == std::cmp::Ordering::Less) == (self.line < other.line || (self.line == other.line && self.column < other.column))"),
    Fn(D + "relative_position.rs", "RelativePosition::of", requires="blen(text@) <= u32::MAX", ensures="(r.line as int, r.column as int) == walk(gr(text@))",
       rewrites=[("let mut line = 0;", "let mut line: u32 = 0;"), ("let mut column = 0;", "let mut column: u32 = 0;"), ("matches!($c, $a | $b)", "(vx_eq($c, $a) || vx_eq($c, $b))"),
                 ("for $c in UnicodeSegmentation::graphemes($$t, true) {", "let vx_v = vx_graphemes($$t).v; for vx_k in 0..vx_v.len() { let $c = vx_v[vx_k];")],
       loops={0: Loop("for", invariant="texts(vx_v@) == gr(text@), vx_v@.len() <= u32::MAX, (line as int, column as int) == walk(gr(text@).take(vx_k as int))",
                      start="proof { let g = gr(text@).take(vx_k + 1); assert(g.drop_last() =~= gr(text@).take(vx_k as int)); assert(g.last() == vx_v@[vx_k as int]@); lemma_walk_bound(g.drop_last()); reveal_strlit(\"\\n\"); reveal_strlit(\"\\r\\n\"); assert(\"\\n\"@ =~= seq!['\\n']); assert(\"\\r\\n\"@ =~= seq!['\\r', '\\n']); }",
                      before="proof { lemma_gr_len(text@); lemma_blen_ge(text@); assert(texts(vx_v@) =~= gr(text@)); assert(gr(text@).take(0) =~= Seq::empty()); }", after="proof { assert(gr(text@).take(gr(text@).len() as int) =~= gr(text@)); }")}),
] + packed(D + "position.rs", "Position", "line", "column") + [
    Fn(D + "position.rs", "Position::add_text", requires="blen(text@) <= u32::MAX, self.line + blen(text@) <= u32::MAX, self.column + blen(text@) <= u32::MAX", rewrites=[("(*self) + RelativePosition::of(text)", "(*self).add(RelativePosition::of(text))")],
       entry="proof { lemma_walk_bound(gr(text@)); lemma_gr_len(text@); lemma_blen_ge(text@); }",
       ensures="r.line == self.line + walk(gr(text@)).0, r.column == if walk(gr(text@)).0 == 0 { self.column + walk(gr(text@)).1 } else { walk(gr(text@)).1 }"),
    Fn(D + "position.rs", "Sub<Position> for Position::sub", header="impl Position", rename="sub", rewrites=OUT("RelativePosition") + [("rhs > self", "!vx_le(rhs, self)")],
       ensures="pos_le(rhs, self) ==> padd(rhs, r) == (self.line as int, self.column as int), !pos_le(rhs, self) ==> r.line == 0 && r.column == 0"),
    Fn(D + "range.rs", "Range::at", ensures="r.start == position, r.end == position"),
    Fn(D + "range.rs", "Range::is_empty", pre=NOCONST, ensures="r == (self.start == self.end)"),
    Fn(D + "range.rs", "Range::contains", rewrites=POSCMP, ensures="r == (pos_le(self.start, position) && pos_le(position, self.end))"),
    Fn(D + "range.rs", "Range::intersects", rewrites=POSCMP, ensures=f"{WR} && pos_le(other.start, other.end) ==> r == exists|p: Position| pos_le(self.start, p) && pos_le(p, self.end) && #[trigger] pos_le(other.start, p) && pos_le(p, other.end)",
       entry="proof { assert(pos_le(other.start, self.start) || pos_le(self.start, other.start)); let a = pos_le(other.start, if pos_le(self.start, other.start) { other.start } else { self.start }); }"),
    Fn(D + "range.rs", "Ord for Range::cmp", header="impl Range", rewrites=[("-> std::cmp::Ordering", "-> std::cmp::Ordering")],
       ensures="(r == std::cmp::Ordering::Equal) == (*self == *other), (r == std::cmp::Ordering::Less) == (rle(*self, *other) && *self != *other), (r == std::cmp::Ordering::Greater) == !rle(*self, *other)"),
    Fn(D + "range.rs", "AddAssign<RelativePosition> for Range::add_assign", header="impl Range", rename="add_assign_relative", rewrites=[("self.end += rhs", "self.end.add_assign(rhs)")],
       requires="padd(old(self).end, rhs).0 <= u32::MAX, padd(old(self).end, rhs).1 <= u32::MAX", ensures="final(self).start == old(self).start, padd(old(self).end, rhs) == (final(self).end.line as int, final(self).end.column as int)"),
    Fn(D + "range.rs", "AddAssign for Range::add_assign", header="impl Range", rename="add_assign", rewrites=POSCMP, ensures="covers(*final(self), *old(self), rhs)", requires="pos_le(old(self).start, old(self).end), pos_le(rhs.start, rhs.end)"),
    Fn(D + "range.rs", "Add<Range> for Range::add", header="impl Range", rename="add", rewrites=POSCMP + OUT("Range"), requires=WR + ", pos_le(rhs.start, rhs.end)", ensures="covers(r, self, rhs)"),
    Fn(S, "Span::at", pre=NOCONST, requires="offset.raw + len <= u32::MAX", ensures="r.start == offset, r.end.raw == offset.raw + len"),
    Fn(S, "Span::empty", pre=NOCONST, ensures="r.start == offset, r.end == offset"),
    Fn(S, "Span::len", pre=NOCONST, requires=W, ensures="r == self.end.raw - self.start.raw"),
    Fn(S, "Span::is_empty", pre=NOCONST, ensures="r == (self.start.raw == self.end.raw)"),
    Fn(S, "Span::contains", rewrites=OFFCMP, ensures="r == (self.start.raw <= offset.raw < self.end.raw)"),
    Fn(S, "Span::contains_inclusive", rewrites=OFFCMP, ensures="r == (self.start.raw <= offset.raw <= self.end.raw)"),
    Fn(S, "Span::contains_span", rewrites=OFFCMP, ensures="r == (self.start.raw <= other.start.raw && other.end.raw <= self.end.raw)"),
    Fn(S, "Span::intersect", rewrites=OFFCMP, requires=W + ", other.start.raw <= other.end.raw", ensures="r is Some == (self.start.raw <= other.end.raw && other.start.raw <= self.end.raw), r is Some ==> forall|x: u32| #[trigger] within(r->0, x) == (within(self, x) && within(other, x))"),
    Fn(S, "Span::cover", rewrites=OFFCMP, requires=W + ", other.start.raw <= other.end.raw", ensures="r.start.raw <= self.start.raw, r.start.raw <= other.start.raw, r.end.raw >= self.end.raw, r.end.raw >= other.end.raw, r.start == self.start || r.start == other.start, r.end == self.end || r.end == other.end, r.start.raw <= r.end.raw"),
    Fn(S, "Span::cover_offset", requires=W, ensures="r.start.raw <= self.start.raw, r.end.raw >= self.end.raw, r.start.raw <= offset.raw <= r.end.raw, r.start == self.start || r.start == offset, r.end == self.end || r.end == offset"),
    Fn(S, "Span::checked_add", rewrites=TRYOFF, requires=W, ensures="r is Some == (self.end.raw + offset.raw <= u32::MAX), r is Some ==> r->0.start.raw == self.start.raw + offset.raw && r->0.end.raw == self.end.raw + offset.raw"),
    Fn(S, "Span::checked_sub", rewrites=TRYOFF, requires=W, ensures="r is Some == (self.start.raw >= offset.raw), r is Some ==> r->0.start.raw == self.start.raw - offset.raw && r->0.end.raw == self.end.raw - offset.raw"),
    Fn(S, "Span::ordering", rewrites=[("self.end <= other.start", "self.end.raw <= other.start.raw"), ("other.end <= self.start", "other.end.raw <= self.start.raw"), ("Ordering::$x", "std::cmp::Ordering::$x"), ("-> Ordering", "-> std::cmp::Ordering")],
       ensures="(r == std::cmp::Ordering::Less) == (self.end.raw <= other.start.raw), (r == std::cmp::Ordering::Greater) == (self.end.raw > other.start.raw && other.end.raw <= self.start.raw)"),
    Fn(S, "Span::as_u64", pre=NOCONST, rewrites=[('cfg!($$x)', "vx_little()")], ensures="r == if vx_is_little() { ((self.end.raw as u64) << 32) | (self.start.raw as u64) } else { ((self.start.raw as u64) << 32) | (self.end.raw as u64) }"),
    Fn(S, "PartialEq for Span::eq", header="impl Span", rename="vx_same", rewrites=[('cfg!($$x)', "vx_any()")], ensures="r == (*self == *other)", entry=PACK % "self.end.raw, self.start.raw, other.end.raw, other.start.raw"),
]

I32 = T32 + [("as usize", "as usize")]
LSP = [
    Fn(F + "encoding_kind.rs", "EncodingKind::measure", requires="blen(text@) <= u32::MAX", ensures="r == units(*self, text@)",
       entry="proof { lemma_units_bound(*self, text@); lemma_units_bound(EncodingKind::Utf8, text@); lemma_units_bound(EncodingKind::Utf16, text@); lemma_units_bound(EncodingKind::Utf32, text@); lemma_units_bound(EncodingKind::GraphemeCluster, text@); }"),
    Fn(F + "line_index.rs", "fn offset_from_usize", requires="value <= u32::MAX", ensures="r.raw == value"),
    Fn(F + "line_index.rs", "LineIndex::from_arc", requires="blen(text@) <= u32::MAX", ensures="r.wf(), r.text@ == text@, r.encoding_kind == encoding_kind",
       rewrites=[("Arc<str>", "String"), ("text: String", "text: String"), ("let mut lines = Vec::new();", "let mut lines: Vec<Span> = Vec::new();"), ("let bytes = text.as_bytes();", ""),
                 ("for ($i, $c) in text.char_indices() {", "let vx_v = vx_char_indices(text.as_str()); for vx_k in 0..vx_v.len() { let ($i, $c) = vx_v[vx_k];"),
                 ("bytes.get($$i) == Some(&$b)", "vx_byte_is(text.as_str(), $$i, $b)"), ("$c.len_utf8()", "vx_len_utf8($c)"), ("text.len()", "vx_len(text.as_str())")],
       loops={0: Loop("for", invariant="vx_v@.len() == text@.len(), blen(text@) <= u32::MAX, forall|i: int| 0 <= i < vx_v@.len() ==> (#[trigger] vx_v@[i]).0 == blen(text@.take(i)) && vx_v@[i].1 == text@[i], start == blen(text@.take(lstart(text@, vx_k as int))), spans_are(text@, lines@, done(text@, vx_k as int))",
                      start="let ghost l0 = lines@; proof { lemma_step(text@, vx_k as int); }")},
       ghost=[("before", "let final_end = $$x;", "proof { lemma_lines(text@, text@.len() as int); lemma_blen_split(text@, lstart(text@, text@.len() as int)); assert(text@.take(text@.len() as int) =~= text@); }")]),
    Fn(F + "line_index.rs", "LineIndex::len", requires="self.wf()", ensures="r == lines_of(self.text@).len()"),
    Fn(F + "line_index.rs", "LineIndex::is_empty", requires="self.wf()", ensures="!r"),
    Fn(F + "line_index.rs", "LineIndex::line_text", requires="self.wf()", ensures="r is Some == self.has(line_idx as int), r is Some ==> r->0@ == self.line(line_idx as int)",
       rewrites=[("&self.text[usize::from($$a)..usize::from($$b)]", "vx_slice(self.text.as_str(), ($$a).raw as usize, ($$b).raw as usize)"),
                 ("self.lines.get($$i).map(|$s| $$b)", "{ let vx_i: usize = $$i; if vx_i < self.lines.len() { let $s = &self.lines[vx_i]; Some($$b) } else { None } }"), ("crate::Line", "u32")],
       entry="proof { if self.has(line_idx as int) { let l = lines_of(self.text@)[line_idx as int]; lemma_line_bounds(self.text@, line_idx as int); lemma_cidx(self.text@, l.0); lemma_cidx(self.text@, l.1); lemma_blen_mono(self.text@, l.0, l.1); assert(span_is(self.text@, self.lines@[line_idx as int], l)); } }"),
    Fn(F + "from_lsp.rs", "fn take_column_text", requires="blen(line_text@) <= u32::MAX",
       ensures="exists|n: int| #[trigger] column_is(line_text@, target_units as int, encoding, n) && r@ == line_text@.take(gat(line_text@, n))",
       rewrites=[("return \"\";", "{ proof { lemma_column0(line_text@, encoding); } return vx_slice_to(line_text, 0); }"),
                 ("for ($o, $g) in UnicodeSegmentation::grapheme_indices($t, true) {", "let vx_v = vx_grapheme_indices($t); for vx_k in 0..vx_v.len() { let ($o, $g) = vx_v[vx_k];"),
                 ("$a.saturating_add($b)", "vx_sat_add($a, $b)"), ("&line_text[..$$e]", "vx_slice_to(line_text, $$e)")],
       loops={0: Loop("for", invariant="blen(line_text@) <= u32::MAX, vx_v@.len() == gr(line_text@).len(), forall|k: int| 0 <= k < vx_v@.len() ==> (#[trigger] vx_v@[k]).1@ == gr(line_text@)[k] && vx_v@[k].0 == blen(line_text@.take(gat(line_text@, k))), consumed_units == wsum(encoding, gr(line_text@).take(vx_k as int)), consumed_units < target_units",
                      start="let ghost vx_a = column_is(line_text@, target_units as int, encoding, vx_k as int); let ghost vx_b = column_is(line_text@, target_units as int, encoding, vx_k + 1); proof { lemma_cluster(line_text@, encoding, vx_k as int); }", after="proof { assert(gr(line_text@).take(gr(line_text@).len() as int) =~= gr(line_text@)); lemma_gat(line_text@, gr(line_text@).len() as int); assert(column_is(line_text@, target_units as int, encoding, gr(line_text@).len() as int)); assert(line_text@.take(line_text@.len() as int) =~= line_text@); }")},
       entry="proof { lemma_column0(line_text@, encoding); }"),
    Fn(F + "from_lsp.rs", "FromLsp for tower_lsp::lsp_types::Position :: from_lsp", header="impl LspPosition", requires="line_index.wf()", ensures="r.line == source.line, r.character == to_char(*line_index, source)",
       entry="proof { if line_index.has(source.line as int) { lemma_line_len(*line_index, source.line as int); } lemma_fold(line_index.encoding_kind); }"),
    Fn(F + "from_lsp.rs", "FromLsp for crate::Position :: from_lsp", header="impl Position", requires="line_index.wf()",
       ensures="r.line == source.line, line_index.has(source.line as int) ==> fits(*line_index, source.line as int, source.character as int, r.column as int), !line_index.has(source.line as int) ==> r.column == 0",
       entry="proof { if line_index.has(source.line as int) { lemma_line_len(*line_index, source.line as int); } }",
       ghost=[("after", "let column_text = $$x;", "proof { lemma_column(line_text@, source.character as int, line_index.encoding_kind, column_text@); lemma_gr_len(column_text@); lemma_blen_ge(column_text@); }")]),
    Fn(F + "from_lsp.rs", "FromLsp for tower_lsp::lsp_types::Range :: from_lsp", header="impl LspRange", requires="line_index.wf()",
       ensures="r.start.line == source.start.line, r.start.character == to_char(*line_index, source.start), r.end.line == source.end.line, r.end.character == to_char(*line_index, source.end)",
       rewrites=[("source.$f.into_lsp(line_index)", "LspPosition::from_lsp(source.$f, line_index)")]),
    Fn(F + "from_lsp.rs", "FromLsp for crate::Range :: from_lsp", header="impl Range", requires="line_index.wf()",
       ensures="r.start.line == source.start.line, line_index.has(source.start.line as int) ==> fits(*line_index, source.start.line as int, source.start.character as int, r.start.column as int), "
               "source.start.line < source.end.line || (source.start.line == source.end.line && source.start.character <= source.end.character) ==> r.end.line == source.end.line && (line_index.has(source.end.line as int) ==> fits(*line_index, source.end.line as int, source.end.character as int, r.end.column as int))",
       entry="proof { lemma_range(*line_index, source); }"),
]
STEP = r"""
pub proof fn lemma_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), blen(s) <= u32::MAX
    ensures 0 <= lstart(s, k) <= k, blen(s.take(lstart(s, k))) <= blen(s.take(k)), blen(s.take(lstart(s, k))) == blen(s.take(k)) ==> lstart(s, k) == k, blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]), blen(s.take(k + 1)) <= blen(s),
        lstart(s, k) < k ==> blen(s.take(k)) > 0 && ((s[k - 1] == '\r') == (exists|i: int| 0 <= i < s.len() && #[trigger] blen(s.take(i)) == blen(s.take(k)) - 1 && s[i] as int == 13)),
        lstart(s, k) < k && s[k - 1] == '\r' ==> blen(s.take(k - 1)) == blen(s.take(k)) - 1 && blen(s.take(lstart(s, k))) <= blen(s.take(k - 1)),
{
    lemma_lines(s, k); lemma_blen_mono(s, lstart(s, k), k); lemma_blen_mono(s, k, k + 1); lemma_blen_split(s, k + 1);
    assert(s.subrange(k, k + 1) =~= seq![s[k]]); lemma_blen_one(s[k]);
    if lstart(s, k) < k {
        lemma_blen_mono(s, k - 1, k); assert(s.subrange(k - 1, k) =~= seq![s[k - 1]]); lemma_blen_one(s[k - 1]); lemma_blen_mono(s, lstart(s, k), k - 1);
        assert forall|i: int| 0 <= i < s.len() && #[trigger] blen(s.take(i)) == blen(s.take(k)) - 1 && s[i] as int == 13 implies i == k - 1 by {
            lemma_blen_mono(s, i, i + 1); assert(s.subrange(i, i + 1) =~= seq![s[i]]); lemma_blen_one(s[i]);
            if i + 1 < k { lemma_blen_mono(s, i + 1, k); } if k < i + 1 { lemma_blen_mono(s, k, i + 1); }
        }
    }
}
pub open spec fn column_is(s: Seq<char>, target: int, k: EncodingKind, n: int) -> bool {
    0 <= n <= gr(s).len() && wsum(k, gr(s).take(n)) <= target && (n == gr(s).len() || wsum(k, gr(s).take(n + 1)) > target)
}
pub proof fn lemma_column0(s: Seq<char>, k: EncodingKind)
    ensures wsum(k, gr(s).take(0)) == 0, is_bound(s, 0), cidx(s, 0) == 0, gat(s, 0) == 0, column_is(s, 0, k, 0)
{
    axiom_gr(s);
    assert(gr(s).take(0) =~= Seq::empty()); lemma_cidx(s, 0); assert(s.take(0) =~= Seq::empty()); assert(blen(s.take(0)) == 0);
    if gr(s).len() > 0 { lemma_units_mono(k, s, 0, 1); }
}
pub proof fn lemma_cluster(s: Seq<char>, k: EncodingKind, i: int)
    requires 0 <= i < gr(s).len(), blen(s) <= u32::MAX
    ensures wsum(k, gr(s).take(i + 1)) == wsum(k, gr(s).take(i)) + units(k, gr(s)[i]), wsum(k, gr(s).take(i + 1)) <= blen(s), blen(gr(s)[i]) <= blen(s),
        blen(s.take(gat(s, i))) + blen(gr(s)[i]) == blen(s.take(gat(s, i + 1))), is_bound(s, blen(s.take(gat(s, i))) as int), cidx(s, blen(s.take(gat(s, i))) as int) == gat(s, i),
        is_bound(s, blen(s.take(gat(s, i + 1))) as int), cidx(s, blen(s.take(gat(s, i + 1))) as int) == gat(s, i + 1), blen(s.take(gat(s, i + 1))) <= blen(s),
        i + 1 < gr(s).len() ==> wsum(k, gr(s).take(i + 2)) > wsum(k, gr(s).take(i + 1)),
{
    assert(gr(s).take(i + 1).drop_last() =~= gr(s).take(i)); lemma_wsum(k, s, i + 1);
    lemma_gat(s, i); lemma_gat(s, i + 1);
    lemma_blen_concat(s.take(gat(s, i)), gr(s)[i]);
    assert(s.take(gat(s, i + 1)) == s.take(gat(s, i)) + gr(s)[i]);
    lemma_cidx(s, gat(s, i)); lemma_cidx(s, gat(s, i + 1)); lemma_blen_split(s, gat(s, i + 1));
    if i + 1 < gr(s).len() { lemma_units_mono(k, s, i + 1, i + 2); }
}
pub proof fn lemma_column(s: Seq<char>, t: int, k: EncodingKind, c: Seq<char>)
    requires exists|n: int| #[trigger] column_is(s, t, k, n) && c == s.take(gat(s, n))
    ensures column_is(s, t, k, gr(c).len() as int), blen(c) <= blen(s)
{ let n = choose|n: int| #[trigger] column_is(s, t, k, n) && c == s.take(gat(s, n)); lemma_gat(s, n); lemma_blen_split(s, gat(s, n)); }
pub proof fn lemma_range(li: LineIndex, r: LspRange)
    ensures r.start.line == r.end.line && r.start.character <= r.end.character ==> forall|n: int, m: int| fits(li, r.start.line as int, r.start.character as int, n) && fits(li, r.end.line as int, r.end.character as int, m) ==> n <= m
{ if r.start.line == r.end.line && r.start.character <= r.end.character { assert forall|n: int, m: int| fits(li, r.start.line as int, r.start.character as int, n) && fits(li, r.end.line as int, r.end.character as int, m) implies n <= m by { lemma_fits_unique(li, r.start.line as int, r.start.character as int, n, r.end.character as int, m); } } }
"""
UNIT = Unit("positions", [Text(STR)] + TYPES + LI + [Text(GRAPHEMES), Text(THEORY), Text(ROUND), Text(SHIM), Text(STEP), Text(LEMM)] + TTF + ALG + LSP, rewrites=RW)
