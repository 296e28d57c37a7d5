"""C14: which token lists the parser reads without an error."""
from vgen import *
from shims import *
import text_types as tt
import lexer as lx
import parser as pa

PAR, COM, PD = pa.PAR, pa.COM, pa.PD

SPEC = r'''
#[verifier::ext_equal]
pub struct Tk { pub k: SyntaxKind, pub j: bool }
/// the kinds that remain to be read (blanks dropped), each with whether the next one touches it
pub type R = Seq<Tk>;
pub struct Range { x: u32 }
pub struct PError { x: u32 }
impl PError { #[verifier::external_body] pub fn new(kind: ErrorKind, range: Range) -> PError { unimplemented!() } }
#[verifier::external_body]
pub fn vx_range_add(a: Range, b: Range) -> Range { unimplemented!() }
impl Clone for Range { #[verifier::external_body] fn clone(&self) -> Range { unimplemented!() } }
impl Copy for Range { }
pub struct Parser { pub rem: Ghost<R>, pub good: Ghost<bool>, pub depth: usize }
pub open spec fn kth(r: R, n: int) -> SyntaxKind { if 0 <= n < r.len() { r[n].k } else { EOF } }
pub open spec fn le(k: SyntaxKind) -> bool { k == LINE_BREAK || k == EOF }
pub open spec fn composite(k: SyntaxKind) -> bool { k == DOUBLE_BRACKET_START || k == DOUBLE_BRACKET_END }
pub open spec fn raw_of(k: SyntaxKind) -> int { if composite(k) { 2 } else { 1 } }
pub open spec fn at_spec(r: R, n: int, k: SyntaxKind) -> bool {
    match k {
        DOUBLE_BRACKET_START => kth(r, n) == BRACKET_START && kth(r, n + 1) == BRACKET_START && r[n].j,
        DOUBLE_BRACKET_END => kth(r, n) == BRACKET_END && kth(r, n + 1) == BRACKET_END && r[n].j,
        _ => kth(r, n) == k,
    }
}
/// what the lexer hands over: one EOF, last; a comment ends its line
pub open spec fn cend(r: R, i: int) -> bool { kth(r, i) == COMMENT ==> le(kth(r, i + 1)) }
pub open spec fn wfr(r: R) -> bool {
    &&& 0 < r.len() <= i32::MAX + 1
    &&& forall|i: int| 0 <= i < r.len() ==> ((#[trigger] r[i]).k == EOF <==> i == r.len() - 1) && !composite(r[i].k)
    &&& forall|i: int| 0 <= i ==> #[trigger] cend(r, i)
}
impl Parser {
    pub open spec fn r(self) -> R { self.rem@ }
    pub open spec fn ok(self) -> bool { self.good@ }
    pub open spec fn wf(self) -> bool { wfr(self.r()) && self.depth <= MAX_RECURSION_DEPTH }
}
pub open spec fn fr(a: Parser, b: Parser) -> bool { b.wf() && b.depth == a.depth && b.r().len() <= a.r().len() && (b.ok() ==> a.ok()) }

// ---------------------------------------------------------------- comments and blank lines
/// what follows the comments and line breaks
pub open spec fn s(r: R) -> R decreases r.len() { if r.len() > 0 && is_lc(r[0].k) { s(r.skip(1)) } else { r } }
/// after a comment on the same line
pub open spec fn tc(r: R) -> R { if kth(r, 0) == COMMENT { r.skip(1) } else { r } }
/// how many tokens the comments directly above the next item take up
pub open spec fn lead(r: R) -> int decreases r.len() {
    if r.len() == 0 { 0 } else if r[0].k == LINE_BREAK { 1 + lead(r.skip(1)) }
    else if r[0].k == COMMENT && kth(r, 1) == LINE_BREAK && kth(r, 2) != LINE_BREAK { 2 + lead(r.skip(2)) } else { 0 }
}
pub open spec fn nxt(r: R) -> SyntaxKind { kth(r, lead(r)) }
/// a comment leads to something other than its own group's end
pub open spec fn dnone(r: R) -> bool decreases r.len() {
    !le(kth(r, 1)) || { let k = kth(r, 2); k != BRACE_END && k != BRACKET_END && !le(k) && (k != COMMENT || r.len() < 3 || dnone(r.skip(2))) }
}
pub proof fn lemma_skip(r: R, n: int)
    requires wfr(r), 0 <= n < r.len(),
    ensures wfr(r.skip(n)), forall|i: int| 0 <= i ==> #[trigger] kth(r.skip(n), i) == kth(r, n + i), forall|m: int| 0 <= m <= r.len() - n ==> #[trigger] r.skip(n).skip(m) == r.skip(n + m),
{
    assert forall|m: int| 0 <= m <= r.len() - n implies #[trigger] r.skip(n).skip(m) == r.skip(n + m) by { assert(r.skip(n).skip(m) =~= r.skip(n + m)); }
    let q = r.skip(n);
    assert forall|i: int| 0 <= i < q.len() implies ((#[trigger] q[i]).k == EOF <==> i == q.len() - 1) && !composite(q[i].k) by { assert(q[i] == r[n + i]); }
    assert forall|i: int| 0 <= i implies #[trigger] cend(q, i) by { assert(cend(r, n + i)); assert(kth(q, i) == kth(r, n + i)); assert(kth(q, i + 1) == kth(r, n + (i + 1))); }
}
pub proof fn lemma_s(r: R)
    requires wfr(r),
    ensures wfr(s(r)), s(r).len() <= r.len(), !is_lc(kth(s(r), 0)), s(s(r)) == s(r), !is_lc(kth(r, 0)) ==> s(r) == r, s(tc(r)) == s(r), wfr(tc(r)), kth(tc(r), 0) != COMMENT, tc(r).len() <= r.len(),
    decreases r.len(),
{
    assert(cend(r, 0)); if r.len() > 1 { lemma_skip(r, 1); assert(kth(r.skip(1), 0) == kth(r, 1)); }
    if is_lc(r[0].k) { assert(r.len() > 1) by { assert(r[0].k != EOF); } lemma_skip(r, 1); lemma_s(r.skip(1)); assert(kth(r.skip(1), 0) == kth(r, 1)); }
}
pub proof fn lemma_lead(r: R)
    requires wfr(r),
    ensures 0 <= lead(r) < r.len(), nxt(r) != LINE_BREAK, nxt(r) != COMMENT ==> s(r) == r.skip(lead(r)) && nxt(r) == kth(s(r), 0), !is_lc(kth(r, 0)) ==> lead(r) == 0,
    decreases r.len(),
{
    assert(r.skip(0) =~= r);
    if r[0].k == LINE_BREAK {
        assert(r.len() > 1) by { assert(r[0].k != EOF); } lemma_skip(r, 1); lemma_lead(r.skip(1));
        let q = r.skip(1); assert(kth(q, lead(q)) == kth(r, 1 + lead(q)));
    } else if r[0].k == COMMENT && kth(r, 1) == LINE_BREAK && kth(r, 2) != LINE_BREAK {
        assert(r.len() > 2) by { assert(r[1].k == LINE_BREAK); assert(r[1].k != EOF); } lemma_skip(r, 2); lemma_skip(r, 1); lemma_lead(r.skip(2));
        let q = r.skip(2); assert(kth(q, lead(q)) == kth(r, 2 + lead(q)));
        assert(r.skip(1)[0] == r[1]); assert(s(r) == s(r.skip(1))); assert(s(r.skip(1)) == s(r.skip(1).skip(1)));
    }
}
pub proof fn lemma_dang(r: R)
    requires wfr(r), kth(r, 0) != LINE_BREAK, kth(r, 0) == COMMENT ==> dnone(r),
    ensures !is_lc(nxt(r)), (nxt(r) == BRACKET_END || nxt(r) == BRACE_END || nxt(r) == EOF ==> !is_lc(kth(r, 0))),
    decreases r.len(),
{
    lemma_lead(r);
    if kth(r, 0) == COMMENT {
        assert(cend(r, 0)); assert(le(kth(r, 1)));
        if kth(r, 1) == EOF { assert(kth(r, 2) == EOF) by { if r.len() > 2 { assert(r[1].k == EOF); } } }
        assert(kth(r, 1) == LINE_BREAK);
        assert(r.len() > 2) by { assert(r[1].k == LINE_BREAK); assert(r[1].k != EOF); }
        lemma_skip(r, 2); lemma_dang(r.skip(2)); lemma_lead(r.skip(2));
        let q = r.skip(2); assert(kth(q, lead(q)) == kth(r, 2 + lead(q)));
        assert(kth(q, 0) == kth(r, 2));
    }
}

// ---------------------------------------------------------------- the grammar: what remains after one item, None where there is none
pub open spec fn g_keys(r: R) -> Option<R> decreases r.len() {
    if !kfirst(kth(r, 0)) { None } else if r.len() >= 2 && kth(r, 1) == DOT { g_keys(r.skip(2)) } else { Some(r.skip(1)) }
}
/// keys = value
pub open spec fn g_kv(r: R, d: int) -> Option<R> decreases r.len(), 2int {
    match g_keys(r) {
        None => None,
        Some(a) => if kth(a, 0) != EQUAL || a.len() == 0 || a.len() > r.len() { None }
            else if le(kth(a.skip(1), 0)) || kth(a.skip(1), 0) == COMMENT { None }
            else { g_value(a.skip(1), d) },
    }
}
/// a value, nested d deep, with the comment behind it
pub open spec fn g_value(r: R, d: int) -> Option<R> decreases r.len(), 1int {
    if r.len() == 0 { None }
    else if literal(kth(r, 0)) { Some(tc(r.skip(1))) }
    else if d >= MAX_RECURSION_DEPTH { None }
    else if kth(r, 0) == BRACKET_START { match g_arr(r.skip(1), d + 1) { None => None, Some(a) => Some(tc(a)) } }
    else if kth(r, 0) == BRACE_START { match g_tab(r.skip(1), d + 1) { None => None, Some(a) => Some(tc(a)) } }
    else { None }
}
/// behind a `[`: values, each followed by at most one comma, then `]`
pub open spec fn g_arr(r: R, d: int) -> Option<R> decreases r.len(), 3int {
    let x = s(r);
    if x.len() == 0 || x.len() > r.len() { None }
    else if kth(x, 0) == BRACKET_END { Some(x.skip(1)) }
    else { match g_value(x, d) {
        None => None,
        Some(y) => if y.len() >= x.len() || s(y).len() > y.len() { None }
            else if s(y).len() > 0 && kth(s(y), 0) == COMMA { g_arr(s(y).skip(1), d) } else { g_arr(y, d) },
    } }
}
/// behind a `{`: key-values, each followed by at most one comma, then `}`
pub open spec fn g_tab(r: R, d: int) -> Option<R> decreases r.len(), 3int {
    let x = s(r);
    if x.len() == 0 || x.len() > r.len() { None }
    else if kth(x, 0) == BRACE_END { Some(x.skip(1)) }
    else { match g_kv(x, d) {
        None => None,
        Some(y) => if y.len() >= x.len() || s(y).len() > y.len() { None }
            else if s(y).len() > 0 && kth(s(y), 0) == COMMA { g_tab(s(y).skip(1), d) } else { g_tab(y, d) },
    } }
}
/// a comma behind a key-value of the document itself is let through (the formatter drops it)
pub open spec fn oc(r: R) -> R { if nxt(r) == COMMA { tc(r.skip(lead(r) + 1)) } else { r } }
/// key-values, each on lines of its own, up to the next header or the end
pub open spec fn g_stmts(r: R) -> Option<R> decreases r.len() {
    let x = s(r);
    if x.len() == 0 || x.len() > r.len() { None }
    else if kth(x, 0) == EOF || kth(x, 0) == BRACKET_START { Some(x) }
    else { match g_kv(x, 0) {
        None => None,
        Some(y) => if y.len() >= x.len() || oc(y).len() > y.len() || !le(kth(oc(y), 0)) { None } else { g_stmts(oc(y)) },
    } }
}
/// a header (its brackets touching, its keys on its line) and its key-values
pub open spec fn g_section(r: R) -> Option<R> {
    let dbl = at_spec(r, 0, DOUBLE_BRACKET_START); let w = if dbl { 2int } else { 1int };
    if !at_spec(r, 0, BRACKET_START) || r.len() < w { None }
    else { match g_keys(r.skip(w)) {
        None => None,
        Some(a) => if a.len() < w || !at_spec(a, 0, if dbl { DOUBLE_BRACKET_END } else { BRACKET_END }) { None }
            else { let b = tc(a.skip(w)); if !le(kth(b, 0)) { None } else { g_stmts(b) } },
    } }
}
pub open spec fn g_sections(r: R) -> bool decreases r.len() {
    let x = s(r);
    if x.len() == 0 || x.len() > r.len() { false } else if kth(x, 0) == EOF { true }
    else { match g_section(x) { None => false, Some(y) => y.len() < x.len() && g_sections(y) } }
}
pub open spec fn g_doc(r: R) -> bool { match g_stmts(r) { None => false, Some(x) => g_sections(x) } }

pub proof fn lemma_same(a: R, b: R)
    requires wfr(a), wfr(b), s(a) == s(b),
    ensures forall|d: int| #[trigger] g_arr(a, d) == g_arr(b, d), forall|d: int| #[trigger] g_tab(a, d) == g_tab(b, d), g_stmts(a) == g_stmts(b), g_sections(a) == g_sections(b),
{ lemma_s(a); lemma_s(b); }
/// b stands where the grammar says an item read from a ends
pub open spec fn does(a: Parser, b: Parser, g: Option<R>) -> bool { fr(a, b) && (a.ok() ==> (match g { Some(x) => b.ok() && b.r() == x, None => !b.ok() })) }
/// the rest reads as before, or an error was told and there was no reading it
pub open spec fn keeps(a: Parser, b: Parser, ga: Option<R>, gb: Option<R>) -> bool { fr(a, b) && (a.ok() ==> (if b.ok() { ga == gb } else { ga is None })) }
pub fn vx_debug_assert(b: bool) requires b { }
pub struct Marker { x: u32 }
impl Marker { #[verifier::external_body] pub fn complete(self, p: &mut Parser, kind: SyntaxKind) ensures *final(p) == *old(p) { unimplemented!() } }
impl Parser {
    #[verifier::external_body] pub fn nested_depth(&self) -> (r: usize) ensures r == self.depth { unimplemented!() }
    #[verifier::external_body] pub fn enter_nested(&mut self) requires old(self).wf(), old(self).depth < MAX_RECURSION_DEPTH ensures final(self).wf(), final(self).rem == old(self).rem, final(self).good == old(self).good, final(self).depth == old(self).depth + 1 { unimplemented!() }
    #[verifier::external_body] pub fn exit_nested(&mut self) requires old(self).wf(), old(self).depth > 0 ensures final(self).wf(), final(self).rem == old(self).rem, final(self).good == old(self).good, final(self).depth == old(self).depth - 1 { unimplemented!() }
    #[verifier::external_body] pub fn current(&self) -> (r: SyntaxKind) requires self.wf() ensures r == kth(self.r(), 0) { unimplemented!() }
    #[verifier::external_body] pub fn current_range(&self) -> Range requires self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn previous_range(&self) -> Range requires self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn nth_range(&self, n: usize) -> Range requires self.wf(), n < usize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn nth(&self, n: usize) -> (r: SyntaxKind) requires self.wf(), n < usize::MAX ensures r == kth(self.r(), n as int) { unimplemented!() }
    #[verifier::external_body] pub fn at(&self, kind: SyntaxKind) -> (r: bool) requires self.wf() ensures r == at_spec(self.r(), 0, kind) { unimplemented!() }
    #[verifier::external_body] pub fn nth_at(&self, n: usize, kind: SyntaxKind) -> (r: bool) requires self.wf(), n < usize::MAX - 1 ensures r == at_spec(self.r(), n as int, kind) { unimplemented!() }
    #[verifier::external_body] pub fn at_ts(&self, kinds: TokenSet) -> (r: bool) requires self.wf() ensures r == kinds.has(kth(self.r(), 0)) { unimplemented!() }
    #[verifier::external_body] pub fn nth_at_ts(&self, n: usize, kinds: TokenSet) -> (r: bool) requires self.wf(), n < usize::MAX ensures r == kinds.has(kth(self.r(), n as int)) { unimplemented!() }
    #[verifier::external_body] pub fn eat(&mut self, kind: SyntaxKind) -> (r: bool) requires old(self).wf(), kind != EOF
        ensures r == at_spec(old(self).r(), 0, kind), !r ==> *final(self) == *old(self), r ==> took(*old(self), *final(self), raw_of(kind)) { unimplemented!() }
    #[verifier::external_body] pub fn eat_ts(&mut self, kinds: TokenSet) -> (r: bool) requires old(self).wf(), !kinds.has(EOF)
        ensures r == kinds.has(kth(old(self).r(), 0)), !r ==> *final(self) == *old(self), r ==> took(*old(self), *final(self), 1) { unimplemented!() }
    #[verifier::external_body] pub fn bump(&mut self, kind: SyntaxKind) requires old(self).wf(), kind != EOF, at_spec(old(self).r(), 0, kind) ensures took(*old(self), *final(self), raw_of(kind)) { unimplemented!() }
    #[verifier::external_body] pub fn bump_any(&mut self) requires old(self).wf() ensures kth(old(self).r(), 0) == EOF ==> *final(self) == *old(self), kth(old(self).r(), 0) != EOF ==> took(*old(self), *final(self), 1) { unimplemented!() }
    #[verifier::external_body] pub fn bump_remap(&mut self, kind: SyntaxKind) requires old(self).wf() ensures kth(old(self).r(), 0) == EOF ==> *final(self) == *old(self), kth(old(self).r(), 0) != EOF ==> took(*old(self), *final(self), 1) { unimplemented!() }
    #[verifier::external_body] pub fn bump_float_key(&mut self) requires old(self).wf(), kth(old(self).r(), 0) == FLOAT ensures took(*old(self), *final(self), 1) { unimplemented!() }
    #[verifier::external_body] pub fn start(&mut self) -> Marker ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn invalid_token(&mut self) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn error(&mut self, error: PError) ensures final(self).rem == old(self).rem, final(self).depth == old(self).depth, !final(self).ok() { unimplemented!() }
}
/// n tokens were read, none of them the last
pub open spec fn took(a: Parser, b: Parser, n: int) -> bool { b.wf() && b.depth == a.depth && b.good == a.good && n < a.r().len() && b.r() == a.r().skip(n) }
'''

SAMEP = "final(p).depth == old(p).depth, final(p).good == old(p).good, final(p).wf()"


def f(fname, spec, ens, loops=None, **kw):
    kw.setdefault("requires", "old(p).wf()")
    return Fn(fname, spec, ensures=ens, loops={k: v for k, v in (loops or {}).items()}, attrs="#[verifier::exec_allows_no_decreases_clause]", **kw)


def parse(fname, ty, ens, src=None, **kw):
    return f(PD + fname + ".rs", f"Parse for {src or ty}::parse", ens, header=f"impl {ty}", **kw)


L = "proof { lemma_s(p.r()); lemma_lead(p.r()); }"
FR = "fr(*old(p), *p)"


def section(fname, ty, opening):
    g = "g_section(s(old(p).r()))"
    inv = FR + f", old(p).wf(), old(p).depth == 0, old(p).ok() && !p.ok() ==> {g} is None, old(p).ok() && p.ok() ==> g_stmts(p.r()) == {g}, p.r().len() < s(old(p).r()).len()"
    return parse(fname, ty, f"fr(*old(p), *final(p)), final(p).ok() ==> !is_lc(nxt(final(p).r())), final(p).r().len() < s(old(p).r()).len(), old(p).ok() ==> (match {g} {{ Some(x) => final(p).ok() && s(final(p).r()) == x, None => !final(p).ok() }})",
        requires=f"old(p).wf(), old(p).depth == 0, at_spec(old(p).r(), lead(old(p).r()), {opening}), !is_lc(nxt(old(p).r()))" + (", !at_spec(old(p).r(), lead(old(p).r()), DOUBLE_BRACKET_START)" if opening == "BRACKET_START" else ""),
        entry=L + " proof { lemma_skip(p.r(), lead(p.r())); }",
        loops={0: Loop("loop", invariant=inv, ensures=f"!is_lc(nxt(p.r())), old(p).ok() && p.ok() ==> {g} == Some(s(p.r()))", start=L + "let ghost vx_h = *p;"), 1: eatlb()},
        ghost=[("after", "DanglingCommentGroups::parse(p);", DL), ("after", "KeyValueGroup::parse(p);", L)])


def eatlb():
    return Loop("while", invariant="took0(vx_h, *p), vx_h.wf()", start="proof { lemma_skip(vx_h.r(), vx_h.r().len() - p.r().len()); }", after=L + "proof { lemma_same(vx_h.r(), p.r()); }")


def eatlb1():
    k = "vx_h.r().len() - p.r().len()"
    return Loop("while", invariant=f"took0(vx_h, *p), vx_h.wf(), p.r() == vx_h.r().skip({k}), lead(vx_h.r()) == {k} + lead(p.r())",
                start=f"proof {{ let k = {k}; lemma_skip(vx_h.r(), k - 1); lemma_skip(vx_h.r(), k); let q = vx_h.r().skip(k - 1); assert(q.skip(1) == vx_h.r().skip(k)); assert(kth(q, 0) == LINE_BREAK); assert(lead(q) == 1 + lead(q.skip(1))); }}",
                after=L + f"proof {{ lemma_same(vx_h.r(), p.r()); lemma_lead(vx_h.r()); lemma_skip(vx_h.r(), {k}); assert(kth(p.r(), lead(p.r())) == kth(vx_h.r(), {k} + lead(p.r()))); }}")


SPEC += r'''
/// only comments and line breaks were read
pub open spec fn took0(a: Parser, b: Parser) -> bool { b.wf() && b.depth == a.depth && b.good == a.good && b.r().len() <= a.r().len() && s(b.r()) == s(a.r()) }
'''
DL = "let ghost vx_d = *p; " + L + " proof { lemma_same(vx_h.r(), p.r()); }"


def group(fname, ty, g, end, item):
    G = lambda r: f"{g}({r}, old(p).depth as int)"
    keep = f"keeps(*old(p), *p, {G('old(p).r()')}, {G('p.r()')})"
    return parse(fname, ty, f"keeps(*old(p), *final(p), {G('old(p).r()')}, {G('final(p).r()')})",
        requires=f"old(p).wf(), !is_lc(nxt(old(p).r())), nxt(old(p).r()) != EOF, nxt(old(p).r()) != {end}",
        entry="proof { lemma_lead(p.r()); }",
        loops={0: Loop("loop", invariant=f"old(p).wf(), {keep}", ieb=f"!is_lc(nxt(p.r())), nxt(p.r()) != EOF, nxt(p.r()) != {end}", start=L + "let ghost vx_h = *p;")},
        ghost=[("after", item + "::parse(p);", "let ghost vx_y = *p; " + L + f" proof {{ lemma_{g[2:]}(vx_h.r(), p.depth as int); }}"),
               ("after", "Comma::parse(p);", L + " proof { lemma_skip(s(vx_y.r()), 1); lemma_s(s(vx_y.r()).skip(1)); lemma_same(s(vx_y.r()).skip(1), p.r()); }")])


FNS = [
    f(COM, "fn peek_leading_comments", "*final(p) == *old(p), r == lead(old(p).r()), r < old(p).r().len()", entry=L,
      loops={0: Loop("loop", invariant="p.wf(), *p == *old(p), n + lead(p.r().skip(n as int)) == lead(p.r()), n < p.r().len(), 0 <= lead(p.r()) < p.r().len()", start="proof { lemma_skip(p.r(), n as int); lemma_lead(p.r().skip(n as int)); assert(kth(p.r().skip(n as int), 0) == kth(p.r(), n + 0)); assert(kth(p.r().skip(n as int), 1) == kth(p.r(), n + 1)); assert(kth(p.r().skip(n as int), 2) == kth(p.r(), n + 2)); }", before="proof { assert(p.r().skip(0) =~= p.r()); }")}),
    f(COM, "fn peek_comments", "*final(p) == *old(p), kth(old(p).r(), r as int) == kth(s(old(p).r()), 0), r < old(p).r().len()",
      loops={0: Loop("while", invariant="p.wf(), *p == *old(p), n < p.r().len(), s(p.r().skip(n as int)) == s(p.r())", start="proof { lemma_skip(p.r(), n - 1); assert(kth(p.r().skip(n - 1), 0) == kth(p.r(), n - 1 + 0)); assert(p.r()[n - 1].k != EOF); assert(p.r().skip(n - 1).skip(1) == p.r().skip(n as int)); }" if False else "proof { lemma_skip(p.r(), n as int); assert(kth(p.r().skip(n as int), 0) == kth(p.r(), n + 0)); assert(p.r()[n as int].k != EOF); assert(p.r().skip(n as int).skip(1) == p.r().skip(n + 1)); }",
                     before="proof { assert(p.r().skip(0) =~= p.r()); }", after="proof { lemma_skip(p.r(), n as int); assert(kth(p.r().skip(n as int), 0) == kth(p.r(), n + 0)); }")}),
    f(COM, "fn leading_comments", SAMEP + ", final(p).r() == s(old(p).r()), !is_lc(kth(final(p).r(), 0))", entry=L,
      loops={0: Loop("while", invariant="old(p).wf(), took0(*old(p), *p)", after=L)}),
    f(COM, "fn trailing_comment", SAMEP + ", final(p).r() == tc(old(p).r()), kth(final(p).r(), 0) != COMMENT", entry=L,
      loops={0: Loop("while", invariant="old(p).wf(), p.wf(), p.depth == old(p).depth, p.good == old(p).good, p.r() == old(p).r() || p.r() == tc(old(p).r())", after=L, start="proof { lemma_s(old(p).r()); }")}),
    f(pa.P + "parse.rs", "fn invalid_line", "fr(*old(p), *final(p)), !final(p).ok()",
      loops={0: Loop("while", invariant="fr(*old(p), *p), !p.ok()")}),
    f(pa.P + "parse.rs", "fn is_group_separator", "*final(p) == *old(p), r == (le(kth(old(p).r(), 0)) && le(kth(old(p).r(), 1)))"),
    f(PD + "dangling_comment_group.rs", "fn dangling_comment_group_len", "match r { Some(n) => 0 < n < p.r().len() && s(p.r().skip(n as int)) == s(p.r()), None => kth(p.r(), 0) == COMMENT ==> dnone(p.r()) }", requires="p.wf()",
      loops={0: Loop("loop", invariant="p.wf(), n + 1 < p.r().len(), kth(p.r(), n as int) == COMMENT, s(p.r().skip(n as int)) == s(p.r()), dnone(p.r().skip(n as int)) ==> dnone(p.r())",
             before="proof { assert(p.r().skip(0) =~= p.r()); assert(p.r()[0].k != EOF); }",
             start="proof { lemma_dstep(p.r(), n as int); }")}),
    parse("dangling_comment_group", "DanglingCommentGroups", "took0(*old(p), *final(p)), kth(final(p).r(), 0) != LINE_BREAK, !is_lc(nxt(final(p).r())), (nxt(final(p).r()) == BRACKET_END || nxt(final(p).r()) == BRACE_END || nxt(final(p).r()) == EOF ==> !is_lc(kth(final(p).r(), 0)))", src="Vec",
          loops={0: Loop("loop", invariant="old(p).wf(), took0(*old(p), *p)", ensures="kth(p.r(), 0) != LINE_BREAK, !is_lc(nxt(p.r())), (nxt(p.r()) == BRACKET_END || nxt(p.r()) == BRACE_END || nxt(p.r()) == EOF ==> !is_lc(kth(p.r(), 0)))", start="let ghost vx_h = *p;"),
                 1: eatlb(),
                 2: Loop("for", invariant="vx_q.wf(), p.wf(), p.depth == vx_q.depth, p.good == vx_q.good, group_len < vx_q.r().len(), p.r() == vx_q.r().skip(_i as int)", start="proof { lemma_skip(vx_q.r(), _i as int); assert(kth(vx_q.r().skip(_i as int), 0) == kth(vx_q.r(), _i + 0)); assert(vx_q.r()[_i as int].k != EOF); }", before="proof { assert(vx_q.r().skip(0) =~= vx_q.r()); }")},
          ghost=[("before", "let m = p.start();", "let ghost vx_q = *p;"), ("before", "let Some(group_len)", "proof { if !(kth(p.r(), 0) == COMMENT && !dnone(p.r())) { lemma_dang(p.r()); } }")]),
    parse("comma", "Comma", SAMEP + ", final(p).r() == tc(s(old(p).r()).skip(1)), final(p).r().len() < s(old(p).r()).len()", requires="old(p).wf(), kth(s(old(p).r()), 0) == COMMA", entry=L, ghost=[("before", "trailing_comment(p);", L)]),
    f(PD + "key.rs", "fn eat_key", "does(*old(p), *final(p), if kfirst(kth(old(p).r(), 0)) { Some(old(p).r().skip(1)) } else { None }), r == kfirst(kth(old(p).r(), 0)), !r ==> final(p).r() == old(p).r(), r ==> final(p).r() == old(p).r().skip(1) && final(p).good == old(p).good"),
    f(PD + "key.rs", "fn eat_keys", "does(*old(p), *final(p), g_keys(old(p).r())), old(p).ok() && final(p).ok() ==> final(p).r().len() < old(p).r().len()",
      rewrites=[("has_error |= !eat_key(p);", "let vx_k = !eat_key(p); has_error = has_error || vx_k;")],
      loops={0: Loop("loop", invariant="old(p).wf()", ieb="keeps(*old(p), *p, g_keys(old(p).r()), g_keys(p.r()))",
                     ensures="does(*old(p), *p, g_keys(old(p).r())), old(p).ok() && p.ok() ==> p.r().len() < old(p).r().len()", start="let ghost vx_h = *p; proof { if p.r().len() > 1 { lemma_skip(p.r(), 1); assert(kth(p.r().skip(1), 0) == kth(p.r(), 1int + 0)); } }")}),
    parse("key", "Keys", "does(*old(p), *final(p), g_keys(old(p).r())), old(p).ok() && final(p).ok() ==> final(p).r().len() < old(p).r().len()"),
    parse("key_value", "KeyValue", "does(*old(p), *final(p), g_kv(s(old(p).r()), old(p).depth as int)), old(p).ok() && final(p).ok() ==> final(p).r().len() < s(old(p).r()).len()", entry=L,
          ghost=[("before", "trailing_comment(p);", L + " let ghost vx_v = *p;")]),
    parse("key_value_group", "KeyValueGroup", "fr(*old(p), *final(p)), old(p).ok() && !final(p).ok() ==> g_stmts(old(p).r()) is None, old(p).ok() && final(p).ok() ==> g_stmts(old(p).r()) == (if le(kth(final(p).r(), 0)) { g_stmts(final(p).r()) } else { None })",
          requires="old(p).wf(), old(p).depth == 0, !is_lc(nxt(old(p).r())), nxt(old(p).r()) != EOF, nxt(old(p).r()) != BRACKET_START",
          loops={0: Loop("loop", invariant="old(p).wf(), old(p).depth == 0", ieb="keeps(*old(p), *p, g_stmts(old(p).r()), g_stmts(p.r())), !is_lc(nxt(p.r())), nxt(p.r()) != EOF, nxt(p.r()) != BRACKET_START",
                         ensures="fr(*old(p), *p), old(p).ok() && !p.ok() ==> g_stmts(old(p).r()) is None, old(p).ok() && p.ok() ==> g_stmts(old(p).r()) == (if le(kth(p.r(), 0)) { g_stmts(p.r()) } else { None })", start=L + "let ghost vx_h = *p;")},
          ghost=[("after", "KeyValue::parse(p);", "let ghost vx_y = *p; " + L), ("before", "Comma::parse(p);", "proof { lemma_skip(p.r(), lead(p.r())); }"), ("before", "if !p.at(LINE_BREAK)", L + "proof { if vx_y.ok() { assert(p.r() == oc(vx_y.r())); } }")]),
    group("key_value_with_comma_group", "KeyValueWithCommaGroup", "g_tab", "BRACE_END", "KeyValue"),
    group("value_with_comma_group", "ValueWithCommaGroup", "g_arr", "BRACKET_END", "Value"),
]


def nested(fname, ty, g, opening, end):
    inner = f"match {g}(s(old(p).r()).skip(1), old(p).depth as int) {{ None => None::<R>, Some(a) => Some(tc(a)) }}"
    gi = f"{g}(s(old(p).r()).skip(1), old(p).depth as int)"
    inv = FR + f", old(p).wf(), keeps(*old(p), *p, {gi}, {g}(p.r(), p.depth as int)), p.r().len() < s(old(p).r()).len()"
    return parse(fname, ty, f"does(*old(p), *final(p), {inner}), final(p).r().len() < s(old(p).r()).len(), kth(final(p).r(), 0) != COMMENT", requires=f"old(p).wf(), nxt(old(p).r()) == {opening}", entry=L,
        loops={0: Loop("loop", invariant=inv, ensures=f"!is_lc(kth(p.r(), 0)), kth(p.r(), 0) == {end} || kth(p.r(), 0) == EOF", after=L + f" let ghost vx_e = *p; proof {{ if p.ok() {{ if kth(p.r(), 0) == EOF {{ assert({'g_value' if g == 'g_arr' else 'g_kv'}(s(p.r()), p.depth as int) is None); assert({g}(p.r(), p.depth as int) is None); }} else {{ assert({g}(p.r(), p.depth as int) == Some(p.r().skip(1))); }} }} }}", start="let ghost vx_h = *p;"), 1: eatlb()},
        ghost=[("before", "loop", "proof { let q = s(old(p).r()); lemma_s(old(p).r()); lemma_skip(q, 1); lemma_s(q.skip(1)); lemma_same(q.skip(1), p.r()); }"), ("after", "DanglingCommentGroups::parse(p);", DL)])


FNS += [
    nested("array", "Array", "g_arr", "BRACKET_START", "BRACKET_END"),
    nested("inline_table", "InlineTable", "g_tab", "BRACE_START", "BRACE_END"),
]
for nm, ty, op in (("array", "Array", "BRACKET_START"), ("inline_table", "InlineTable", "BRACE_START")):
    FNS.append(f(PD + "value.rs", "fn parse_nested", "does(*old(p), *final(p), g_value(s(old(p).r()), old(p).depth as int)), old(p).ok() && final(p).ok() ==> final(p).r().len() < s(old(p).r()).len(), final(p).ok() ==> kth(final(p).r(), 0) != COMMENT", rename="parse_nested_" + nm,
                 rewrites=[(", parse_inner: fn(&mut Parser<'_>)", ""), (", parse_inner: fn(&mut Parser)", ""), ("parse_inner(p)", ty + "::parse(p)")], requires=f"old(p).wf(), nxt(old(p).r()) == {op}", entry=L))
FNS += [
    f(PD + "value.rs", "fn skip_too_deep_value", "fr(*old(p), *final(p)), !final(p).ok()", requires="old(p).wf(), nxt(old(p).r()) == BRACE_START || nxt(old(p).r()) == BRACKET_START", entry=L,
      loops={0: Loop("loop", invariant=FR + ", old(p).wf(), bracket_depth + p.r().len() <= old(p).r().len()", ieb="bracket_depth > 0 || kth(p.r(), 0) == BRACKET_START || kth(p.r(), 0) == BRACE_START")}),
    f(PD + "value.rs", "fn parse_literal_value", "does(*old(p), *final(p), Some(tc(s(old(p).r()).skip(1)))), final(p).r().len() < s(old(p).r()).len(), kth(final(p).r(), 0) != COMMENT", requires="old(p).wf(), literal(nxt(old(p).r()))", entry=L, ghost=[("before", "trailing_comment(p);", L)]),
    f(PD + "value.rs", "fn parse_invalid_value", "fr(*old(p), *final(p)), !final(p).ok()", requires="old(p).wf(), n < usize::MAX - 1",
      loops={0: Loop("while", invariant=FR)}, ghost=[("before", "trailing_comment(p);", L), ("before", "let start_range", "proof { lemma_s(old(p).r()); }")]),
    parse("value", "Value", "does(*old(p), *final(p), g_value(s(old(p).r()), old(p).depth as int)), old(p).ok() && final(p).ok() ==> final(p).r().len() < s(old(p).r()).len(), final(p).ok() ==> kth(final(p).r(), 0) != COMMENT", requires="old(p).wf(), !is_lc(nxt(old(p).r()))", entry=L,
          ghost=[("before", "trailing_comment(p);", L)]),
    section("table", "Table", "BRACKET_START"),
    section("array_of_table", "ArrayOfTable", "DOUBLE_BRACKET_START"),
    f(PD + "root.rs", "fn unknwon_line", "fr(*old(p), *final(p)), !final(p).ok()", loops={0: Loop("while", invariant=FR)}, entry=L, ghost=[("before", "trailing_comment(p);", L)]),
    parse("root", "Root", "old(p).ok() ==> (final(p).ok() <==> g_doc(old(p).r()))", requires="old(p).wf(), old(p).depth == 0",
          loops={0: Loop("loop", invariant="old(p).wf(), old(p).depth == 0, keeps(*old(p), *p, g_stmts(old(p).r()), g_stmts(p.r()))", ensures="p.ok() ==> !is_lc(nxt(p.r())), old(p).ok() && p.ok() ==> g_stmts(old(p).r()) == Some(s(p.r()))", start=L + "let ghost vx_h = *p;"), 1: eatlb(),
                 2: Loop("loop", invariant=FR + ", old(p).wf(), old(p).depth == 0, old(p).ok() ==> (if p.ok() { g_sections(p.r()) == g_doc(old(p).r()) } else { !g_doc(old(p).r()) }), p.ok() ==> !is_lc(nxt(p.r()))", ensures="old(p).ok() ==> (p.ok() <==> g_doc(old(p).r()))", start=L + "let ghost vx_h = *p; proof { assert(p.r().skip(0) =~= p.r()); }"), 3: eatlb1()},
          ghost=[("after", "DanglingCommentGroups::parse(p);", DL), ("after", "KeyValueGroup::parse(p);", L), ("before", "if p.nth_at(n, EOF)", L + "proof { lemma_skip(p.r(), lead(p.r())); } let ghost vx_b = *p;"),
                 ("after", "ArrayOfTable::parse(p);", L + "proof { lemma_same(p.r(), s(p.r())); }"), ("after", "Table::parse(p);", L + "proof { lemma_same(p.r(), s(p.r())); if vx_b.ok() { if p.ok() { assert(g_sections(vx_b.r()) == g_sections(p.r())); } else { assert(!g_sections(vx_b.r())); } } }"), ("after", "unknwon_line(p);", "proof { if vx_b.ok() { assert(!g_sections(vx_b.r())); } }")]),
]
SPEC += r'''
pub proof fn lemma_arr(h: R, d: int)
    requires wfr(h), kth(s(h), 0) != BRACKET_END,
    ensures g_value(s(h), d) is None ==> g_arr(h, d) is None,
        forall|y: R| g_value(s(h), d) == Some(y) && wfr(y) && y.len() < s(h).len() ==> g_arr(h, d) == (if kth(#[trigger] s(y), 0) == COMMA { g_arr(s(y).skip(1), d) } else { g_arr(y, d) }),
{ lemma_s(h); assert forall|y: R| g_value(s(h), d) == Some(y) && wfr(y) && y.len() < s(h).len() implies g_arr(h, d) == (if kth(#[trigger] s(y), 0) == COMMA { g_arr(s(y).skip(1), d) } else { g_arr(y, d) }) by { lemma_s(y); } }
pub proof fn lemma_tab(h: R, d: int)
    requires wfr(h), kth(s(h), 0) != BRACE_END,
    ensures g_kv(s(h), d) is None ==> g_tab(h, d) is None,
        forall|y: R| g_kv(s(h), d) == Some(y) && wfr(y) && y.len() < s(h).len() ==> g_tab(h, d) == (if kth(#[trigger] s(y), 0) == COMMA { g_tab(s(y).skip(1), d) } else { g_tab(y, d) }),
{ lemma_s(h); assert forall|y: R| g_kv(s(h), d) == Some(y) && wfr(y) && y.len() < s(h).len() implies g_tab(h, d) == (if kth(#[trigger] s(y), 0) == COMMA { g_tab(s(y).skip(1), d) } else { g_tab(y, d) }) by { lemma_s(y); } }
pub proof fn lemma_dstep(r: R, n: int)
    requires wfr(r), 0 <= n, n + 1 < r.len(), kth(r, n) == COMMENT,
    ensures kth(r, n + 1) == LINE_BREAK || kth(r, n + 1) == EOF, s(r.skip(n + 1)) == s(r.skip(n)),
        kth(r, n + 2) == COMMENT ==> n + 3 < r.len() && kth(r, n + 1) == LINE_BREAK && s(r.skip(n + 2)) == s(r.skip(n)),
        dnone(r.skip(n)) == (!le(kth(r, n + 1)) || { let k = kth(r, n + 2); k != BRACE_END && k != BRACKET_END && !le(k) && (k != COMMENT || dnone(r.skip(n + 2))) }),
{
    lemma_skip(r, n); lemma_skip(r, n + 1);
    let q = r.skip(n);
    assert(kth(q, 0) == kth(r, n + 0)); assert(kth(q, 1) == kth(r, n + 1)); assert(kth(q, 2) == kth(r, n + 2)); assert(q[0] == r[n]);
    assert(cend(r, n));
    assert(q.skip(1) == r.skip(n + 1));
    if kth(r, n + 2) == COMMENT {
        assert(r[n + 2].k != EOF); assert(r[n + 1].k == EOF <==> n + 1 == r.len() - 1);
        assert(r.skip(n + 1)[0] == r[n + 1]); assert(r.skip(n + 1).skip(1) == r.skip(n + 2)); assert(q.skip(2) == r.skip(n + 2));
    }
}
'''


def build():
    types = [Raw(pa.KIND, "enum SyntaxKind", attrs=tt.DER + "\n#[repr(u16)]"), Raw(pa.ERRP, "enum ErrorKind", attrs="#[derive(Clone, Copy)]", rewrites=[("#[$$a]", "")]), Raw(PAR, "const MAX_RECURSION_DEPTH"), Text("use ErrorKind::*; use SyntaxKind::*;"), Text(SPEC), Text(pa.STRUCTS)]
    return Unit("grammar", types + pa.TSETS + [Text(pa.BITS)] + pa.consts() + [Mod("m", FNS)], rewrites=lx.t_rules() + pa.RW)


UNIT = build()
