"""C02/C03: the parser, its event list, the output encoding and the tree-building loop."""
import re
from vgen import *
from shims import *
import text_types as tt
import lexer as lx

P = "crates/tombi-parser/src/"
PAR, MARK, EV, OUT, BLD, LIBP, TSET, COM, ERRP = (P + x for x in ("parser.rs", "marker.rs", "event.rs", "output.rs", "builder.rs", "lib.rs", "token_set.rs", "support/comment.rs", "error.rs"))
PD = P + "parse/"
KIND = lx.KIND
TOK = lx.TOK

RW = tt.RULES + [
    ("Vec::<tombi_ast::DanglingCommentGroup>", "DanglingCommentGroups"),
    ("parse_nested(p, <tombi_ast::Array as Parse>::parse)", "parse_nested_array(p)"),
    ("parse_nested(p, <tombi_ast::InlineTable as Parse>::parse)", "parse_nested_inline_table(p)"),
    ("tombi_ast::$X::parse(p)", "$X::parse(p)"),
    ("crate::Error::new($$k, $$x)", "PError::new($$k, $$x)"),
    ("crate::Error", "PError"), ("crate::ErrorKind", "ErrorKind"), ("crate::Event", "Event"), ("crate::parser::Parser", "Parser"),
    ("tombi_lexer::Token", "Token"), ("tombi_syntax::SyntaxKind", "SyntaxKind"), ("crate::SyntaxKind", "SyntaxKind"),
    ("Parser<'_>", "Parser"), ("Parser<'t>", "Parser<'t>"), ("crate::Output", "Output"),
    ("pub(crate)", "pub"), ("pub(super)", "pub"),
    ("Range::default()", "Range::vx_default()"),
    ("$a.tokens.extend(&$b.input_tokens[$x.pos..$y]);", "vx_extend(&mut $a.tokens, $b.input_tokens, $x.pos, $y);"),
    ("&self.source[token.span()]", "vx_span_slice(self.source, token.span())"), ("&self.source[span]", "vx_span_slice(self.source, span)"),
    ("!text.contains('.')", "!vx_contains_dot(text)"),
    ("text.split('.').collect()", "vx_split_dot(text)"),
    ("tombi_text::Offset::of($$x)", "Offset::vx_of($$x)"), ("Offset::of($$x)", "Offset::vx_of($$x)"),
    ("RelativePosition::of($$x)", "vx_relpos_of($$x)"),
    ("$a.span().$b + $$x,", "$a.span().$b.add($$x),"),
    ("$a.range().$b + $$x,", "$a.range().$b.add($$x),"),
    ("start_range + end_range", "vx_range_add(start_range, end_range)"),
    ("(0..group_len).for_each(|_| $$e);", "for _i in 0..group_len { $$e; }"),
    ("self.events.len() as u32", "vx_u32(self.events.len())"),
]

SHIM = r'''
#[verifier::external_body]
pub fn vx_extend(v: &mut Vec<Token>, src: &[Token], a: usize, b: usize)
    requires a <= b <= src@.len(), ensures final(v)@ == old(v)@ + src@.subrange(a as int, b as int) { v.extend(&src[a..b]) }
/// &source[span]
#[verifier::external_body]
pub fn vx_span_slice<'a>(s: &'a str, span: Span) -> (r: &'a str)
    requires span.start.raw <= span.end.raw, is_bound(s@, span.start.raw as int), is_bound(s@, span.end.raw as int),
    ensures r@ == s@.subrange(cidx(s@, span.start.raw as int), cidx(s@, span.end.raw as int)),
{ unimplemented!() }
pub open spec fn has_dot(s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == '.' }
#[verifier::external_body]
pub fn vx_contains_dot(s: &str) -> (r: bool) ensures r == has_dot(s@) { s.contains('.') }
/// text.split('.').collect(): the pieces between the dots
#[verifier::external_body]
pub fn vx_split_dot<'a>(s: &'a str) -> (r: Vec<&'a str>)
    ensures has_dot(s@) && dot1(s@) ==> r@.len() == 2 && s@ == r@[0]@ + seq!['.'] + r@[1]@, r@.len() >= 1 { s.split('.').collect() }
#[verifier::external_body]
pub fn vx_relpos_of(s: &str) -> (r: RelativePosition) ensures r.line <= s@.len(), r.column <= s@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_add(a: Range, b: Range) -> Range { unimplemented!() }
/// machine arithmetic: event and error counts are taken to fit (a list this long does not fit in memory for a text below 2 GiB)
#[verifier::external_body]
pub fn vx_u32(n: usize) -> (r: u32) ensures r == n { n as u32 }
impl Offset {
    /// Offset::of(text): the byte length
    #[verifier::external_body]
    pub fn vx_of(s: &str) -> (r: Offset) requires blen(s@) <= u32::MAX, ensures r.raw == blen(s@) { unimplemented!() }
}
impl Range { #[verifier::external_body] pub fn vx_default() -> Range { unimplemented!() } }
#[verifier::external_body]
pub fn vx_span_max() -> Span { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_max() -> Range { unimplemented!() }
'''

PINPUT = lx.PINPUT

SPEC = r'''
use SyntaxKind::*;
use ErrorKind::*;

// ---- the kinds the parser sees from position i on (blanks skipped) ----
pub open spec fn rest(ts: Seq<Token>, i: int) -> Seq<SyntaxKind> decreases ts.len() - i {
    if i < 0 || i >= ts.len() { Seq::empty() } else if triv(ts[i].kind) { rest(ts, i + 1) } else { seq![ts[i].kind] + rest(ts, i + 1) }
}
pub open spec fn jrest(ts: Seq<Token>, i: int) -> Seq<bool> decreases ts.len() - i {
    if i < 0 || i >= ts.len() { Seq::empty() } else if triv(ts[i].kind) { jrest(ts, i + 1) } else { seq![i + 1 < ts.len() && !triv(ts[i + 1].kind)] + jrest(ts, i + 1) }
}
pub open spec fn nidx(ts: Seq<Token>, i: int, n: int) -> int decreases ts.len() - i {
    if i < 0 || i >= ts.len() { ts.len() as int } else if triv(ts[i].kind) { nidx(ts, i + 1, n) } else if n <= 0 { i } else { nidx(ts, i + 1, n - 1) }
}
pub proof fn lemma_nidx(ts: Seq<Token>, i: int, n: int)
    requires 0 <= i <= ts.len(), 0 <= n,
    ensures i <= nidx(ts, i, n) <= ts.len(), rest(ts, i).len() == jrest(ts, i).len(), rest(ts, i).len() <= ts.len() - i,
        n < rest(ts, i).len() ==> nidx(ts, i, n) < ts.len() && ts[nidx(ts, i, n)].kind == rest(ts, i)[n] && !triv(rest(ts, i)[n])
            && rest(ts, nidx(ts, i, n)) == rest(ts, i).skip(n) && jrest(ts, nidx(ts, i, n)) == jrest(ts, i).skip(n)
            && jrest(ts, i)[n] == (nidx(ts, i, n) + 1 < ts.len() && !triv(ts[nidx(ts, i, n) + 1].kind)),
        n >= rest(ts, i).len() ==> nidx(ts, i, n) == ts.len(),
        n == 0 ==> forall|k: int| i <= k < nidx(ts, i, n) ==> triv((#[trigger] ts[k]).kind),
    decreases ts.len() - i,
{
    if i < ts.len() {
        if triv(ts[i].kind) { lemma_nidx(ts, i + 1, n); }
        else if n == 0 { lemma_nidx(ts, i + 1, 0); assert(rest(ts, i).skip(0) =~= rest(ts, i)); assert(jrest(ts, i).skip(0) =~= jrest(ts, i)); }
        else { lemma_nidx(ts, i + 1, n - 1); if n < rest(ts, i).len() { assert(rest(ts, i).skip(n) =~= rest(ts, i + 1).skip(n - 1)); assert(jrest(ts, i).skip(n) =~= jrest(ts, i + 1).skip(n - 1)); } }
    }
}
/// the next token after the n-th one
pub proof fn lemma_nidx_next(ts: Seq<Token>, i: int, n: int)
    requires 0 <= i <= ts.len(), 0 <= n < rest(ts, i).len(),
    ensures nidx(ts, i, n + 1) == nidx(ts, nidx(ts, i, n) + 1, 0), nidx(ts, i, n + 1) > nidx(ts, i, n),
    decreases ts.len() - i,
{
    if i < ts.len() {
        if triv(ts[i].kind) { lemma_nidx_next(ts, i + 1, n); }
        else if n == 0 { lemma_nidx(ts, i + 1, 0); }
        else { lemma_nidx_next(ts, i + 1, n - 1); }
    }
}
/// what the list of kinds is when the list ends with its only EOF
pub proof fn lemma_rest_eof(ts: Seq<Token>, i: int)
    requires 0 <= i < ts.len(), ts.last().kind == EOF, forall|k: int| 0 <= k < ts.len() - 1 ==> (#[trigger] ts[k]).kind != EOF && !composite(ts[k].kind),
    ensures rest(ts, i).len() > 0, forall|k: int| 0 <= k < rest(ts, i).len() ==> ((#[trigger] rest(ts, i)[k]) == EOF <==> k == rest(ts, i).len() - 1) && !composite(rest(ts, i)[k]),
    decreases ts.len() - i,
{
    if i < ts.len() - 1 { lemma_rest_eof(ts, i + 1); }
    else { assert(rest(ts, i + 1).len() == 0); }
}
pub open spec fn kth(r: Seq<SyntaxKind>, n: int) -> SyntaxKind { if 0 <= n < r.len() { r[n] } else { EOF } }
pub open spec fn jth(j: Seq<bool>, n: int) -> bool { 0 <= n < j.len() && j[n] }
pub open spec fn at_spec(r: Seq<SyntaxKind>, j: Seq<bool>, n: int, k: SyntaxKind) -> bool {
    match k {
        DOUBLE_BRACKET_START => kth(r, n) == BRACKET_START && kth(r, n + 1) == BRACKET_START && jth(j, n),
        DOUBLE_BRACKET_END => kth(r, n) == BRACKET_END && kth(r, n + 1) == BRACKET_END && jth(j, n),
        _ => kth(r, n) == k,
    }
}
pub open spec fn raw_of(k: SyntaxKind) -> int { if composite(k) { 2 } else { 1 } }

// ---- the tree-building events ----
pub open spec fn tomb() -> Event { Event::Start { kind: TOMBSTONE, forward_parent: None } }
pub open spec fn sealed(e: Event) -> bool {
    match e { Event::Start { kind, forward_parent } => kind != TOMBSTONE && forward_parent is None, Event::Token { kind, n_raw_tokens } => 1 <= n_raw_tokens <= 2, _ => true }
}
/// nodes open after these events
pub open spec fn nst(ev: Seq<Event>) -> int decreases ev.len() {
    if ev.len() == 0 { 0 } else { nst(ev.drop_last()) + (match ev.last() { Event::Start { .. } => 1int, Event::Finish => -1int, _ => 0int }) }
}
/// how many raw tokens each Token event takes
pub open spec fn toks(ev: Seq<Event>) -> Seq<int> decreases ev.len() {
    if ev.len() == 0 { Seq::empty() } else { match ev.last() { Event::Token { kind, n_raw_tokens } => toks(ev.drop_last()).push(n_raw_tokens as int), _ => toks(ev.drop_last()) } }
}
pub open spec fn like(a: Event, b: Event) -> bool {
    match a { Event::Start { .. } => b is Start, Event::Finish => b is Finish, Event::Token { n_raw_tokens: n, .. } => b is Token && b->n_raw_tokens == n, Event::Error { .. } => b is Error }
}
pub proof fn lemma_like(a: Seq<Event>, b: Seq<Event>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> like(#[trigger] a[i], b[i]),
    ensures nst(a) == nst(b), toks(a) == toks(b),
    decreases a.len(),
{ if a.len() > 0 { assert forall|i: int| 0 <= i < a.len() - 1 implies like(#[trigger] a.drop_last()[i], b.drop_last()[i]) by { assert(like(a[i], b[i])); } lemma_like(a.drop_last(), b.drop_last()); assert(like(a[a.len() - 1], b[a.len() - 1])); } }
/// b continues a with complete, well nested nodes
#[verifier::opaque]
pub open spec fn ext(a: Seq<Event>, b: Seq<Event>) -> bool {
    &&& a.len() <= b.len() && b.take(a.len() as int) == a && nst(b) == nst(a)
    &&& forall|i: int| a.len() <= i <= b.len() ==> nst(#[trigger] b.take(i)) >= nst(a)
    &&& forall|i: int| a.len() <= i < b.len() ==> sealed(#[trigger] b[i])
}
pub broadcast proof fn ext_trans(a: Seq<Event>, b: Seq<Event>, c: Seq<Event>)
    requires #[trigger] ext(a, b), #[trigger] ext(b, c),
    ensures ext(a, c),
{
    reveal(ext);
    assert(c.take(a.len() as int) =~= b.take(a.len() as int));
    assert forall|i: int| a.len() <= i <= c.len() implies nst(#[trigger] c.take(i)) >= nst(a) by { if i < b.len() { assert(c.take(i) =~= b.take(i)); } }
    assert forall|i: int| a.len() <= i < c.len() implies sealed(#[trigger] c[i]) by { if i < b.len() { assert(c.take(b.len() as int)[i] == b[i]); } }
}
pub proof fn ext_refl(a: Seq<Event>) ensures ext(a, a)
{ reveal(ext); assert(a.take(a.len() as int) =~= a); }
pub proof fn ext_leaf(a: Seq<Event>, e: Event)
    requires e is Token || e is Error, sealed(e), ensures ext(a, a.push(e))
{
    reveal(ext); let b = a.push(e);
    assert(b.drop_last() =~= a); assert(b.take(a.len() as int) =~= a); assert(b.take(b.len() as int) =~= b);
}
pub proof fn ext_len(a: Seq<Event>, b: Seq<Event>) requires ext(a, b) ensures a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i]
{ reveal(ext); assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(b.take(a.len() as int)[i] == b[i]); } }
pub proof fn ext_node(a: Seq<Event>, cur: Seq<Event>, kind: SyntaxKind)
    requires ext(a.push(tomb()), cur), kind != TOMBSTONE,
    ensures ext(a, cur.update(a.len() as int, Event::Start { kind, forward_parent: None }).push(Event::Finish)), toks(cur) == toks(cur.update(a.len() as int, Event::Start { kind, forward_parent: None }).push(Event::Finish)),
{
    reveal(ext);
    ext_len(a.push(tomb()), cur);
    let a1 = a.push(tomb());
    let n = a.len() as int;
    assert(a1.drop_last() =~= a);
    let u = cur.update(n, Event::Start { kind, forward_parent: None });
    let b = u.push(Event::Finish);
    assert(cur[n] == a1[n]);
    lemma_like(cur, u);
    assert(b.drop_last() =~= u);
    assert(b.take(n) =~= a) by { assert forall|i: int| 0 <= i < n implies b.take(n)[i] == a[i] by { assert(cur[i] == a1[i]); } }
    assert forall|i: int| n <= i <= b.len() implies nst(#[trigger] b.take(i)) >= nst(a) by {
        if i == n { } else if i < b.len() { let x = cur.take(i); let y = b.take(i); assert forall|k: int| 0 <= k < i implies like(#[trigger] x[k], y[k]) by { } lemma_like(x, y); assert(nst(cur.take(i)) >= nst(a1)); }
        else { assert(b.take(i) =~= b); }
    }
    assert forall|i: int| n <= i < b.len() implies sealed(#[trigger] b[i]) by { if n < i < cur.len() { assert(b[i] == cur[i]); } }
}

// ---- every Token event stands for the tokens it was emitted for ----
pub open spec fn skipt(f: Seq<Token>, i: int) -> int decreases f.len() - i { if 0 <= i < f.len() && triv(f[i].kind) { skipt(f, i + 1) } else { i } }
pub open spec fn solid(f: Seq<Token>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> !triv((#[trigger] f[k]).kind) }
/// skipping blanks, the token list from i on is exactly what the counts ask for
pub open spec fn fwd(f: Seq<Token>, i: int, n: Seq<int>) -> bool decreases n.len() {
    if n.len() == 0 { skipt(f, i) == f.len() }
    else { let j = skipt(f, i); n[0] >= 1 && j + n[0] <= f.len() && solid(f, j, j + n[0]) && fwd(f, j + n[0], n.skip(1)) }
}
pub proof fn lemma_skipt(f: Seq<Token>, i: int)
    requires 0 <= i <= f.len(),
    ensures i <= skipt(f, i) <= f.len(), skipt(f, skipt(f, i)) == skipt(f, i), skipt(f, i) < f.len() ==> !triv(f[skipt(f, i)].kind),
    decreases f.len() - i,
{ if i < f.len() && triv(f[i].kind) { lemma_skipt(f, i + 1); } }
pub proof fn lemma_skipt_push(f: Seq<Token>, i: int, t: Token)
    requires 0 <= i <= f.len(),
    ensures skipt(f.push(t), i) == (if skipt(f, i) < f.len() { skipt(f, i) } else if triv(t.kind) { f.len() as int + 1 } else { f.len() as int }),
    decreases f.len() - i,
{ let g = f.push(t); if i < f.len() { assert(g[i] == f[i]); if triv(f[i].kind) { lemma_skipt_push(f, i + 1, t); } } else { assert(g[i] == t); assert(skipt(g, i + 1) == i + 1); } }
pub proof fn fwd_blank(f: Seq<Token>, i: int, n: Seq<int>, t: Token)
    requires 0 <= i <= f.len(), fwd(f, i, n), triv(t.kind),
    ensures fwd(f.push(t), i, n),
    decreases n.len(),
{
    lemma_skipt_push(f, i, t); lemma_skipt(f, i);
    if n.len() > 0 { let j = skipt(f, i); let g = f.push(t);
        assert forall|k: int| j <= k < j + n[0] implies !triv((#[trigger] g[k]).kind) by { assert(g[k] == f[k]); assert(!triv(f[k].kind)); }
        fwd_blank(f, j + n[0], n.skip(1), t); }
}
pub proof fn fwd_blanks(f: Seq<Token>, n: Seq<int>, x: Seq<Token>)
    requires fwd(f, 0, n), forall|k: int| 0 <= k < x.len() ==> triv((#[trigger] x[k]).kind),
    ensures fwd(f + x, 0, n),
    decreases x.len(),
{ if x.len() == 0 { assert(f + x =~= f); } else { fwd_blanks(f, n, x.drop_last()); assert(f + x =~= (f + x.drop_last()).push(x.last())); assert(triv(x[x.len() - 1].kind)); fwd_blank(f + x.drop_last(), 0, n, x.last()); } }
pub proof fn fwd_solid(f: Seq<Token>, i: int, n: Seq<int>, x: Seq<Token>)
    requires 0 <= i <= f.len(), fwd(f, i, n), x.len() >= 1, forall|k: int| 0 <= k < x.len() ==> !triv((#[trigger] x[k]).kind),
    ensures fwd(f + x, i, n.push(x.len() as int)),
    decreases n.len(),
{
    let g = f + x; let m = n.push(x.len() as int);
    lemma_skipt(f, i); lemma_skipt_cat(f, i, x);
    if n.len() == 0 {
        let j = f.len() as int;
        assert forall|k: int| j <= k < j + x.len() implies !triv((#[trigger] g[k]).kind) by { assert(g[k] == x[k - j]); assert(!triv(x[k - j].kind)); }
        assert(skipt(g, j + x.len()) == g.len()); assert(m.skip(1) =~= Seq::<int>::empty()); assert(fwd(g, j + x.len(), m.skip(1)));
    } else {
        let j = skipt(f, i);
        assert(m[0] == n[0]);
        assert forall|k: int| j <= k < j + n[0] implies !triv((#[trigger] g[k]).kind) by { assert(g[k] == f[k]); assert(!triv(f[k].kind)); }
        fwd_solid(f, j + n[0], n.skip(1), x);
        assert(m.skip(1) =~= n.skip(1).push(x.len() as int));
    }
}
pub proof fn lemma_skipt_cat(f: Seq<Token>, i: int, x: Seq<Token>)
    requires 0 <= i <= f.len(), x.len() >= 1, !triv(x[0].kind),
    ensures skipt(f + x, i) == (if skipt(f, i) < f.len() { skipt(f, i) } else { f.len() as int }),
    decreases f.len() - i,
{ let g = f + x; if i < f.len() { assert(g[i] == f[i]); if triv(f[i].kind) { lemma_skipt_cat(f, i + 1, x); } } else { assert(g[i] == x[0]); } }

// ---- parser state ----
/// internal accounting of the parser, kept by every primitive
#[verifier::opaque]
pub open spec fn core(source: Seq<char>, input: Seq<Token>, pos: int, tokens: Seq<Token>, ev: Seq<Event>) -> bool {
    &&& parser_input(input, source) && floats_ok(input, source)
    &&& 0 <= pos < input.len()
    &&& tile(tokens, source) && tend(tokens, tokens.len() as int) == tend(input, pos)
    &&& fwd(tokens, 0, toks(ev))
}
impl<'t> Parser<'t> {
    pub open spec fn r(&self) -> Seq<SyntaxKind> { rest(self.input_tokens@, self.pos as int) }
    pub open spec fn j(&self) -> Seq<bool> { jrest(self.input_tokens@, self.pos as int) }
    pub open spec fn wf(&self) -> bool {
        &&& core(self.source@, self.input_tokens@, self.pos as int, self.tokens@, self.events@)
        &&& self.depth <= MAX_RECURSION_DEPTH
        &&& self.pos < self.input_tokens@.len() <= i32::MAX + 1
        &&& 0 < self.r().len() <= i32::MAX + 1 && self.j().len() == self.r().len()
        &&& forall|k: int| 0 <= k < self.r().len() ==> ((#[trigger] self.r()[k]) == EOF <==> k == self.r().len() - 1) && !composite(self.r()[k])
        &&& ext(self.events@, self.events@)
    }
    pub open spec fn same(&self, o: Parser<'t>) -> bool { self.source == o.source && self.input_tokens == o.input_tokens && self.depth == o.depth }
}
/// one parsing function: b is reached from a with nothing but complete nodes added
pub open spec fn st(a: Parser, b: Parser) -> bool { b.wf() && b.source == a.source && b.input_tokens == a.input_tokens && b.depth == a.depth && ext(a.events@, b.events@) && b.r().len() <= a.r().len() }
/// between `start` and `complete` of a node opened in a
pub open spec fn inn(a: Parser, b: Parser) -> bool { b.wf() && b.source == a.source && b.input_tokens == a.input_tokens && b.depth == a.depth && ext(a.events@.push(tomb()), b.events@) && b.r().len() <= a.r().len() }
pub open spec fn taken(a: Parser, b: Parser, n: int) -> bool { n <= a.r().len() && b.r() == a.r().skip(n) && b.j() == a.j().skip(n) }
pub proof fn lemma_core(p: Parser)
    requires core(p.source@, p.input_tokens@, p.pos as int, p.tokens@, p.events@), p.depth <= MAX_RECURSION_DEPTH,
    ensures p.wf(),
{
    reveal(core);
    lemma_nidx(p.input_tokens@, p.pos as int, 0);
    lemma_rest_eof(p.input_tokens@, p.pos as int);
    ext_refl(p.events@);
}
/// consuming tokens pos..to of the input for one Token event
pub proof fn lemma_bump(source: Seq<char>, input: Seq<Token>, pos: int, tokens: Seq<Token>, ev: Seq<Event>, kind: SyntaxKind, n: u8, to: int)
    requires core(source, input, pos, tokens, ev), 1 <= n <= 2, rest(input, pos).len() > n, n == 2 ==> jth(jrest(input, pos), 0), to == nidx(input, pos, n as int),
    ensures core(source, input, to, tokens + input.subrange(pos, to), ev.push(Event::Token { kind, n_raw_tokens: n })), pos < to < input.len(),
        rest(input, to) == rest(input, pos).skip(n as int), jrest(input, to) == jrest(input, pos).skip(n as int),
{
    reveal(core);
    lemma_nidx(input, pos, 0); lemma_nidx(input, pos, 1); lemma_nidx(input, pos, n as int); lemma_nidx_next(input, pos, 0);
    let i0 = nidx(input, pos, 0);
    lemma_nidx(input, i0 + 1, 0);
    if n == 2 { lemma_nidx_next(input, pos, 1); assert(nidx(input, pos, 1) == i0 + 1); lemma_nidx(input, i0 + 2, 0); }
    let e = i0 + n;
    let blanks = input.subrange(pos, i0); let solids = input.subrange(i0, e); let more = input.subrange(e, to);
    let ev2 = ev.push(Event::Token { kind, n_raw_tokens: n });
    assert(ev2.drop_last() =~= ev);
    fwd_blanks(tokens, toks(ev), blanks);
    assert(solids[0] == input[i0]);
    if n == 2 { assert(solids[1] == input[i0 + 1]); }
    fwd_solid(tokens + blanks, 0, toks(ev), solids);
    assert(toks(ev2) == toks(ev).push(n as int));
    fwd_blanks(tokens + blanks + solids, toks(ev2), more);
    let t2 = tokens + input.subrange(pos, to);
    assert(t2 =~= tokens + blanks + solids + more);
    lemma_tile_cat(source, input, pos, tokens, to);
}
pub proof fn lemma_tile_cat(source: Seq<char>, input: Seq<Token>, pos: int, tokens: Seq<Token>, to: int)
    requires tile(input, source), tile(tokens, source), 0 <= pos <= to <= input.len(), tend(tokens, tokens.len() as int) == tend(input, pos),
    ensures tile(tokens + input.subrange(pos, to), source), tend(tokens + input.subrange(pos, to), tokens.len() + to - pos) == tend(input, to),
{
    let t2 = tokens + input.subrange(pos, to); let l = tokens.len() as int;
    assert forall|i: int| 0 <= i < t2.len() implies #[trigger] tile1(t2, source, i) by {
        if i < l { assert(tile1(tokens, source, i)); assert(t2[i] == tokens[i]); if i > 0 { assert(t2[i - 1] == tokens[i - 1]); } }
        else { assert(tile1(input, source, pos + i - l)); assert(t2[i] == input[pos + i - l]); if i > l { assert(t2[i - 1] == input[pos + i - l - 1]); } else if i > 0 { assert(t2[i - 1] == tokens[i - 1]); } }
    }
    if to > pos { assert(t2[t2.len() - 1] == input[to - 1]); } else { assert(t2 =~= tokens); }
}
'''

FIN = r'''
/// what the tree-building loop is given
pub open spec fn fin_ok(tokens: Seq<Token>, s: Seq<char>, ev: Seq<Event>) -> bool {
    &&& tokens.len() > 0 && tile(tokens, s) && !triv(tokens.last().kind) && tokens.last().span.start.raw == blen(s)
    &&& fwd(tokens.drop_last(), 0, toks(ev))
}
pub proof fn lemma_finish(source: Seq<char>, input: Seq<Token>, pos: int, tokens: Seq<Token>, ev: Seq<Event>)
    requires core(source, input, pos, tokens, ev), rest(input, pos).len() == 1,
    ensures fin_ok(tokens + input.subrange(pos, input.len() as int), source, ev),
{
    reveal(core);
    let n = input.len() as int;
    lemma_rest_eof(input, pos); lemma_nidx(input, pos, 0);
    let i0 = nidx(input, pos, 0);
    assert(input[i0].kind == EOF);
    assert(i0 == n - 1);
    let blanks = input.subrange(pos, n - 1);
    fwd_blanks(tokens, toks(ev), blanks);
    let t2 = tokens + input.subrange(pos, n);
    assert(t2.drop_last() =~= tokens + blanks);
    assert(t2.last() == input.last());
    lemma_tile_cat(source, input, pos, tokens, n);
}
/// the three tokens a dotted float key is split into
pub proof fn lemma_float(source: Seq<char>, input: Seq<Token>, pos: int, tokens: Seq<Token>, ev: Seq<Event>, t2: Seq<Token>, ev2: Seq<Event>, a: Token, b: Token, c: Token)
    requires core(source, input, pos, tokens, ev), rest(input, pos).len() >= 2,
        ({ let i0 = nidx(input, pos, 0); t2 == (tokens + input.subrange(pos, i0)).push(a).push(b).push(c) && a.span.start == input[i0].span.start && a.span.end == b.span.start && b.span.end == c.span.start && c.span.end == input[i0].span.end }),
        a.span.start.raw <= a.span.end.raw <= b.span.end.raw <= c.span.end.raw,
        is_bound(source, a.span.end.raw as int), is_bound(source, b.span.end.raw as int),
        !triv(a.kind), !triv(b.kind), !triv(c.kind),
        toks(ev2) == toks(ev).push(1).push(1).push(1),
    ensures core(source, input, nidx(input, pos, 0) + 1, t2, ev2), nidx(input, pos, 0) + 1 < input.len(),
        rest(input, nidx(input, pos, 0) + 1) == rest(input, pos).skip(1), jrest(input, nidx(input, pos, 0) + 1) == jrest(input, pos).skip(1),
{
    reveal(core);
    let i0 = nidx(input, pos, 0);
    lemma_nidx(input, pos, 0); lemma_nidx(input, pos, 1); lemma_nidx_next(input, pos, 0); lemma_nidx(input, i0 + 1, 0);
    assert(rest(input, i0 + 1) =~= rest(input, i0).skip(1)); assert(jrest(input, i0 + 1) =~= jrest(input, i0).skip(1));
    let t1 = tokens + input.subrange(pos, i0);
    lemma_tile_cat(source, input, pos, tokens, i0);
    fwd_blanks(tokens, toks(ev), input.subrange(pos, i0));
    let n = toks(ev);
    fwd_solid(t1, 0, n, seq![a]); assert(t1 + seq![a] =~= t1.push(a));
    fwd_solid(t1.push(a), 0, n.push(1), seq![b]); assert(t1.push(a) + seq![b] =~= t1.push(a).push(b));
    fwd_solid(t1.push(a).push(b), 0, n.push(1).push(1), seq![c]); assert(t1.push(a).push(b) + seq![c] =~= t2);
    assert(tile1(input, source, i0));
    let l = t1.len() as int;
    assert forall|i: int| 0 <= i < t2.len() implies #[trigger] tile1(t2, source, i) by {
        if i < l { assert(tile1(t1, source, i)); assert(t2[i] == t1[i]); if i > 0 { assert(t2[i - 1] == t1[i - 1]); } }
        else if i == l { if i > 0 { assert(t2[i - 1] == t1[i - 1]); } }
    }
    assert(input[i0 + 1 - 1] == input[i0]);
}
'''
def mutself(text):
    """`mut self` -> a mutable local"""
    if not re.search(r"\(\s*mut self", text):
        return text
    i = text.index("{", text.index("->"))
    head, body = text[:i + 1], text[i + 1:]
    return re.sub(r"\(\s*mut self", "(self", head) + " let mut vx_self = self; " + re.sub(r"\bself\b", "vx_self", body)


EXTRA_FN = [
    Fn("crates/tombi-text/src/span.rs", "Span::new", requires="start.raw <= end.raw", ensures="r.start == start, r.end == end"),
]
HDRV = [
    Raw(MARK, "struct Marker", rewrites=[("bomb: DropBomb,", ""), ("event_index:", "pub event_index:")]),
    Raw(EV, "enum Event"),
    Raw(ERRP, "enum ErrorKind", attrs="#[derive(Clone, Copy)]", rewrites=[("#[$$a]", "")]),
    Raw(ERRP, "struct Error", attrs="", rewrites=[("struct Error", "struct PError"), ("kind:", "pub kind:"), ("range:", "pub range:")]),
    Raw(PAR, "struct Parser", rewrites=[("source:", "pub source:"), ("input_tokens:", "pub input_tokens:"), ("pos:", "pub pos:"), ("depth:", "pub depth:")]),
    Raw(PAR, "const MAX_RECURSION_DEPTH"),
]
# every primitive: relates old(self) and final(self)
SAMEF = "final(self).same(*old(self)), "
KEEP = "final(self).wf(), " + SAMEF
PRIM = [
    Fn(EV, "Event::tombstone", ensures="r == tomb()"),
    Fn(ERRP, "Error::new", header="impl PError"),
    Fn(MARK, "Marker::new", rewrites=[('bomb: DropBomb::new($$x),', "")], ensures="r.event_index == event_index"),
    Fn(MARK, "Marker::complete", rewrites=[("self.bomb.defuse();", ""), ("mut self", "self")],
       requires="kind != TOMBSTONE, exists|e0: Seq<Event>| #[trigger] ext(e0.push(tomb()), old(p).events@) && e0.len() == self.event_index",
       ensures="""old(p).wf() ==> final(p).wf(), final(p).same(*old(p)), final(p).pos == old(p).pos, final(p).tokens == old(p).tokens,
         final(p).events@ == old(p).events@.update(self.event_index as int, Event::Start { kind, forward_parent: None }).push(Event::Finish),
         toks(final(p).events@) == toks(old(p).events@),
         forall|e0: Seq<Event>| #[trigger] ext(e0.push(tomb()), old(p).events@) && e0.len() == self.event_index ==> ext(e0, final(p).events@)""",
       entry="""let ghost ev0 = p.events@; let ghost p0 = *p; proof { let e0 = choose|e0: Seq<Event>| #[trigger] ext(e0.push(tomb()), p.events@) && e0.len() == self.event_index; ext_len(e0.push(tomb()), p.events@); assert(p.events@[e0.len() as int] == e0.push(tomb())[e0.len() as int]);
          ext_node(e0, ev0, kind);
          assert forall|e1: Seq<Event>| #[trigger] ext(e1.push(tomb()), ev0) && e1.len() == self.event_index implies ext(e1, ev0.update(self.event_index as int, Event::Start { kind, forward_parent: None }).push(Event::Finish)) by { ext_node(e1, ev0, kind); } }""",
       exit="proof { assert(p.events@ =~= ev0.update(idx as int, Event::Start { kind, forward_parent: None }).push(Event::Finish)); if p0.wf() { reveal(core); lemma_core(*p); } }"),
    Fn(PAR, "Parser::new", requires="parser_input(input_tokens@, source@), floats_ok(input_tokens@, source@)",
       ensures="r.wf(), r.source == source, r.input_tokens == input_tokens, r.depth == 0, r.events@.len() == 0",
       rewrites=[("Self { source, $$x }", "{ let vx_r = Self { source, $$x }; proof { reveal(core); assert(tile1(input_tokens@, source@, 0)); lemma_core(vx_r); } vx_r }")]),
    Fn(PAR, "Parser::nested_depth", ensures="r == self.depth"),
    Fn(PAR, "Parser::enter_nested", requires="old(self).wf(), old(self).depth < MAX_RECURSION_DEPTH",
       ensures="final(self).wf(), final(self).source == old(self).source, final(self).input_tokens == old(self).input_tokens, final(self).pos == old(self).pos, final(self).events == old(self).events, final(self).depth == old(self).depth + 1"),
    Fn(PAR, "Parser::exit_nested", requires="old(self).wf(), old(self).depth > 0",
       ensures="final(self).wf(), final(self).source == old(self).source, final(self).input_tokens == old(self).input_tokens, final(self).pos == old(self).pos, final(self).events == old(self).events, final(self).depth == old(self).depth - 1"),
    Fn(PAR, "Parser::finish", pre=mutself, requires="self.wf(), self.r().len() == 1", ensures="r.1@ == self.events@, fin_ok(r.0@, self.source@, self.events@)",
       ghost=[("after", "let mut vx_self = self;", "let ghost s0 = vx_self;")],
       loops={0: Loop("for", invariant="s0.wf(), s0.pos <= i, vx_self.input_tokens == s0.input_tokens, vx_self.pos == s0.pos, vx_self.events == s0.events, vx_self.tokens@ == s0.tokens@ + s0.input_tokens@.subrange(s0.pos as int, i as int)",
           before="proof { assert(vx_self.tokens@ =~= s0.tokens@ + s0.input_tokens@.subrange(s0.pos as int, s0.pos as int)); }",
           end="proof { assert(vx_self.tokens@ =~= s0.tokens@ + s0.input_tokens@.subrange(s0.pos as int, i as int + 1)); }")},
       tail="proof { lemma_finish(s0.source@, s0.input_tokens@, s0.pos as int, s0.tokens@, s0.events@); }"),
    Fn(PAR, "Parser::current", requires="self.wf()", ensures="r == kth(self.r(), 0), r == self.r()[0]"),
    Fn(PAR, "Parser::current_range", requires="self.wf()"),
    Fn(PAR, "Parser::previous_range", requires="self.wf()",
       loops={0: Loop("while", invariant="self.wf(), pos < self.input_tokens@.len()", decreases="pos")}),
    Fn(PAR, "Parser::nth_index", attrs="#[verifier::loop_isolation(false)]", requires="self.pos <= self.input_tokens@.len(), n < usize::MAX", ensures="r == nidx(self.input_tokens@, self.pos as int, n as int)",
       entry="let ghost n0 = n as int; proof { lemma_nidx(self.input_tokens@, self.pos as int, n as int); }",
       loops={0: Loop("for", invariant="self.pos <= pos, n >= 1, nidx(self.input_tokens@, self.pos as int, n0) == nidx(self.input_tokens@, pos as int, n - 1)")}),
    Fn(PAR, "Parser::nth_token", requires="self.wf(), n < usize::MAX",
       ensures="r.kind == kth(self.r(), n as int), n < self.r().len() ==> r == self.input_tokens@[nidx(self.input_tokens@, self.pos as int, n as int)]",
       entry="proof { lemma_nidx(self.input_tokens@, self.pos as int, n as int); }"),
    Fn(PAR, "Parser::nth", requires="self.wf(), n < usize::MAX", ensures="r == kth(self.r(), n as int)"),
    Fn(PAR, "Parser::at", requires="self.wf()", ensures="r == at_spec(self.r(), self.j(), 0, kind)"),
    Fn(PAR, "Parser::nth_at", requires="self.wf(), n < usize::MAX - 1", ensures="r == at_spec(self.r(), self.j(), n as int, kind)"),
    Fn(PAR, "Parser::nth_range", requires="self.wf(), n < usize::MAX"),
    Fn(PAR, "Parser::is_joint", requires="self.wf(), n < self.r().len()", ensures="r == jth(self.j(), n as int)",
       entry="proof { lemma_nidx(self.input_tokens@, self.pos as int, n as int); }"),
    Fn(PAR, "Parser::at_composite2", requires="self.wf(), n < usize::MAX - 1, k1 != EOF", ensures="r == (kth(self.r(), n as int) == k1 && kth(self.r(), n + 1) == k2 && jth(self.j(), n as int))"),
    Fn(PAR, "Parser::push_event", ensures="final(self).events@ == old(self).events@.push(event), final(self).source == old(self).source, final(self).input_tokens == old(self).input_tokens, final(self).pos == old(self).pos, final(self).depth == old(self).depth, final(self).tokens == old(self).tokens, (event is Token || event is Error) && sealed(event) ==> ext(old(self).events@, final(self).events@), match event { Event::Token { kind, n_raw_tokens } => toks(final(self).events@) == toks(old(self).events@).push(n_raw_tokens as int), _ => toks(final(self).events@) == toks(old(self).events@) }",
       entry="let ghost ev0 = self.events@;", exit="proof { assert(self.events@.drop_last() =~= ev0); if (event is Token || event is Error) && sealed(event) { ext_leaf(ev0, event); } }"),
    Fn(PAR, "Parser::do_bump", requires="old(self).wf(), 1 <= n_raw_tokens <= 2, old(self).r()[0] != EOF, n_raw_tokens == 2 ==> jth(old(self).j(), 0) && kth(old(self).r(), 1) != EOF",
       ensures=KEEP + "ext(old(self).events@, final(self).events@), taken(*old(self), *final(self), n_raw_tokens as int), final(self).events@ == old(self).events@.push(Event::Token { kind, n_raw_tokens })",
       entry="""let ghost s0 = *self; proof { let m = Event::Token { kind, n_raw_tokens };
           assert(self.r().len() > n_raw_tokens) by { if n_raw_tokens == 2 { assert(self.r()[1] != EOF); } };
           lemma_bump(self.source@, self.input_tokens@, self.pos as int, self.tokens@, self.events@, kind, n_raw_tokens, nidx(self.input_tokens@, self.pos as int, n_raw_tokens as int)); ext_leaf(self.events@, m);
           lemma_nidx(self.input_tokens@, self.pos as int, n_raw_tokens as int); reveal(core); }""",
       exit="proof { lemma_core(*self); }"),
    Fn(PAR, "Parser::do_bump_kind", requires="old(self).wf(), old(self).r()[0] != EOF, composite(kind) ==> jth(old(self).j(), 0) && kth(old(self).r(), 1) != EOF",
       ensures=KEEP + "ext(old(self).events@, final(self).events@), taken(*old(self), *final(self), raw_of(kind))"),
    Fn(PAR, "Parser::eat", requires="old(self).wf(), kind != EOF",
       ensures="r == at_spec(old(self).r(), old(self).j(), 0, kind), !r ==> *final(self) == *old(self), st(*old(self), *final(self)), r ==> taken(*old(self), *final(self), raw_of(kind)), r ==> final(self).r().len() < old(self).r().len()"),
    Fn(PAR, "Parser::eat_ts", requires="old(self).wf(), !kinds.has(EOF)",
       ensures="r == kinds.has(old(self).r()[0]), !r ==> *final(self) == *old(self), st(*old(self), *final(self)), r ==> taken(*old(self), *final(self), 1), r ==> final(self).r().len() < old(self).r().len()"),
    Fn(PAR, "Parser::at_ts", requires="self.wf()", ensures="r == kinds.has(self.r()[0])"),
    Fn(PAR, "Parser::nth_at_ts", requires="self.wf(), n < usize::MAX", ensures="r == kinds.has(kth(self.r(), n as int))"),
    Fn(PAR, "Parser::start",
       ensures="old(self).wf() ==> inn(*old(self), *final(self)), r.event_index == old(self).events@.len(), final(self).events@ == old(self).events@.push(tomb()), final(self).same(*old(self)), final(self).pos == old(self).pos, final(self).tokens == old(self).tokens, ext(old(self).events@.push(tomb()), final(self).events@), toks(final(self).events@) == toks(old(self).events@)",
       entry="let ghost ev0 = self.events@; let ghost s0 = *self;",
       tail="proof { assert(self.events@.drop_last() =~= ev0); ext_refl(self.events@); assert(toks(self.events@) == toks(ev0)); if s0.wf() { reveal(core); lemma_core(*self); } }"),
    Fn(PAR, "Parser::bump", requires="old(self).wf(), kind != EOF, at_spec(old(self).r(), old(self).j(), 0, kind)",
       ensures="st(*old(self), *final(self)), taken(*old(self), *final(self), raw_of(kind)), final(self).r().len() < old(self).r().len()"),
    Fn(PAR, "Parser::bump_any", requires="old(self).wf()",
       ensures="st(*old(self), *final(self)), old(self).r()[0] == EOF ==> *final(self) == *old(self), old(self).r()[0] != EOF ==> taken(*old(self), *final(self), 1) && final(self).r().len() < old(self).r().len()"),
    Fn(PAR, "Parser::bump_remap", requires="old(self).wf()",
       ensures="st(*old(self), *final(self)), old(self).r()[0] != EOF ==> taken(*old(self), *final(self), 1) && final(self).r().len() < old(self).r().len()"),
    Fn(PAR, "Parser::invalid_token", requires="old(self).wf()", ensures="st(*old(self), *final(self)), final(self).r() == old(self).r(), final(self).j() == old(self).j()"),
    Fn(PAR, "Parser::error", requires="old(self).wf()", ensures="st(*old(self), *final(self)), final(self).r() == old(self).r(), final(self).j() == old(self).j(), final(self).pos == old(self).pos",
       entry="let ghost ev0 = self.events@; let ghost e = Event::Error { error };",
       exit="proof { assert(self.events@.drop_last() =~= ev0); ext_leaf(ev0, e); assert(toks(self.events@) == toks(ev0)); reveal(core); lemma_core(*self); }"),
]

def const_set(name):
    """exec const with the membership the source lists"""
    f = F(TSET)
    it = f.find("const " + name)
    t = rewrite(strip_comments(f.src[it.s:it.e]), lx.t_rules(), None)
    m = re.search(r"TokenSet::new\(&\[(.*?)\]\)", t, re.S)
    if not m:
        raise Lost(f"const {name} changed shape")
    kinds = [k.strip() for k in m.group(1).split(",") if k.strip()]
    return kinds, m.group(1)


SETS = {  # what the parser relies on
    "TS_LINE_END": "k == LINE_BREAK || k == EOF",
    "TS_COMMEMT_OR_LINE_END": "k == COMMENT || k == LINE_BREAK || k == EOF",
    "TS_NEXT_SECTION": "k == BRACKET_START || k == DOUBLE_BRACKET_START || k == EOF",
    "TS_INLINE_TABLE_END": "k == BRACE_END || k == EOF",
    "TS_ARRAY_END": "k == BRACKET_END || k == EOF",
    "TS_VALUE_FIRST": "vfirst(k)",
    "TS_DANGLING_COMMENT_GROUP_END": "k == BRACE_END || k == BRACKET_END || k == LINE_BREAK || k == EOF",
    "TS_LEADING_COMMENTS_KINDS": "is_lc(k)",
    "TS_KEY_FIRST": "kfirst(k)",
}
SETSPEC = r'''
pub open spec fn is_lc(k: SyntaxKind) -> bool { k == COMMENT || k == LINE_BREAK }
pub open spec fn literal(k: SyntaxKind) -> bool {
    k == BASIC_STRING || k == MULTI_LINE_BASIC_STRING || k == LITERAL_STRING || k == MULTI_LINE_LITERAL_STRING || k == INTEGER_DEC || k == INTEGER_BIN || k == INTEGER_OCT || k == INTEGER_HEX
    || k == FLOAT || k == BOOLEAN || k == OFFSET_DATE_TIME || k == LOCAL_DATE_TIME || k == LOCAL_DATE || k == LOCAL_TIME
}
pub open spec fn vfirst(k: SyntaxKind) -> bool { literal(k) || k == BRACKET_START || k == BRACE_START || k == BARE_KEY }
pub open spec fn kfirst(k: SyntaxKind) -> bool {
    k == BARE_KEY || k == BASIC_STRING || k == LITERAL_STRING || k == INTEGER_DEC || k == INTEGER_HEX || k == INTEGER_OCT || k == INTEGER_BIN || k == FLOAT || k == BOOLEAN || k == LOCAL_DATE
}
pub open spec fn listed(s: Seq<SyntaxKind>, k: SyntaxKind, n: int) -> bool { exists|i: int| 0 <= i < n && s[i] == k }
pub open spec fn hasb(w: [u64; 3], k: SyntaxKind) -> bool { w[(k as usize) as int / 64] & (1u64 << ((k as usize % 64) as u64)) != 0 }
impl TokenSet {
    pub closed spec fn has(self, k: SyntaxKind) -> bool { hasb(self.0, k) }
}
'''
TSETS = [
    Raw(TSET, "struct TokenSet", attrs="#[derive(Clone, Copy)]"),
    Text(SETSPEC),
    Fn(TSET, "TokenSet::new", ensures="forall|k: SyntaxKind| #[trigger] r.has(k) <==> listed(kinds@, k, kinds@.len() as int)",
       rewrites=[("res[idx] |= 1 << $x;", "let ghost w0 = res; let vx_v = res[idx]; let vx_b = 1u64 << $x; res[idx] = vx_v | vx_b; proof { vx_setbit(w0, res, kinds@[i as int], vx_v); }"),
                 ("let mut res = [0; 3];", "let mut res: [u64; 3] = [0; 3];")],
       loops={0: Loop("while", invariant="i <= kinds@.len(), forall|k: SyntaxKind| #[trigger] hasb(res, k) <==> listed(kinds@, k, i as int)", decreases="kinds@.len() - i",
             before="proof { assert forall|k: SyntaxKind| !(#[trigger] hasb(res, k)) by { let b = (k as usize % 64) as u64; assert(0u64 & (1u64 << b) == 0) by (bit_vector); } }",
             start="let ghost r0 = res;",
             end="proof { assert forall|k: SyntaxKind| #[trigger] hasb(res, k) <==> listed(kinds@, k, i as int) by { assert(hasb(r0, k) <==> listed(kinds@, k, i - 1)); if kinds@[i - 1] == k { } } }")}),
    Fn(TSET, "TokenSet::contains", ensures="r == self.has(kind)", rewrites=[("1 << $x", "1u64 << $x")]),
]
BITS = r'''
pub proof fn vx_setbit(w0: [u64; 3], w1: [u64; 3], x: SyntaxKind, v: u64)
    requires v == w0[(x as usize) as int / 64], w1@ == w0@.update((x as usize) as int / 64, v | (1u64 << ((x as usize % 64) as u64))),
    ensures forall|k: SyntaxKind| #[trigger] hasb(w1, k) <==> hasb(w0, k) || k == x,
{
    let a = (x as usize % 64) as u64;
    assert forall|k: SyntaxKind| #[trigger] hasb(w1, k) <==> hasb(w0, k) || k == x by {
        let b = (k as usize % 64) as u64;
        assert(a < 64 && b < 64 ==> (((v | (1u64 << a)) & (1u64 << b) != 0) <==> (v & (1u64 << b) != 0 || a == b))) by (bit_vector);
        if (k as usize) / 64 == (x as usize) / 64 && a == b { assert(k as usize == x as usize); lemma_kind_inj(k, x); }
    }
}
pub proof fn lemma_kind_inj(a: SyntaxKind, b: SyntaxKind) requires a as usize == b as usize ensures a == b { }
'''


def consts():
    out = []
    for n, sp in SETS.items():
        kinds, lst = const_set(n)
        asserts = " ".join(f"assert(s@[{i}] == {k});" for i, k in enumerate(kinds))
        out.append(Text(f"pub exec const {n}: TokenSet ensures forall|k: SyntaxKind| #[trigger] {n}.has(k) <==> ({sp}) {{ let s: &[SyntaxKind] = &[{lst}]; proof {{ assert(s@.len() == {len(kinds)}); {asserts} }} TokenSet::new(s) }}"))
    return out


PSPEC = r"""
pub open spec fn eofr(r: Seq<SyntaxKind>) -> bool { r.len() > 0 && forall|k: int| 0 <= k < r.len() ==> ((#[trigger] r[k]) == EOF <==> k == r.len() - 1) }
pub open spec fn le(k: SyntaxKind) -> bool { k == LINE_BREAK || k == EOF }
pub open spec fn lead(r: Seq<SyntaxKind>, n: int) -> int decreases r.len() - n {
    if n < 0 || n >= r.len() { n } else if r[n] == LINE_BREAK { lead(r, n + 1) }
    else if r[n] == COMMENT && kth(r, n + 1) == LINE_BREAK && kth(r, n + 2) != LINE_BREAK { lead(r, n + 2) } else { n }
}
/// the kind after the leading comments
pub open spec fn after_lead(r: Seq<SyntaxKind>) -> SyntaxKind { kth(r, lead(r, 0)) }
pub proof fn lemma_lead(r: Seq<SyntaxKind>, n: int)
    requires eofr(r), 0 <= n < r.len(),
    ensures n <= lead(r, n) < r.len(), r[lead(r, n)] != LINE_BREAK, forall|i: int| n <= i < lead(r, n) ==> is_lc(#[trigger] r[i]), !is_lc(r[n]) ==> lead(r, n) == n,
    decreases r.len() - n,
{
    if r[n] == LINE_BREAK { lemma_lead(r, n + 1); }
    else if r[n] == COMMENT && kth(r, n + 1) == LINE_BREAK && kth(r, n + 2) != LINE_BREAK { assert(r[n + 1] == LINE_BREAK); lemma_lead(r, n + 2); }
}
/// the place of the first token that is neither comment nor line break
pub open spec fn cmts(r: Seq<SyntaxKind>, n: int) -> int decreases r.len() - n { if n < 0 || n >= r.len() { n } else if is_lc(r[n]) { cmts(r, n + 1) } else { n } }
pub open spec fn after_cmts(r: Seq<SyntaxKind>) -> SyntaxKind { kth(r, cmts(r, 0)) }
pub proof fn lemma_cmts(r: Seq<SyntaxKind>, n: int)
    requires eofr(r), 0 <= n < r.len(),
    ensures n <= cmts(r, n) < r.len(), !is_lc(r[cmts(r, n)]), forall|i: int| n <= i < cmts(r, n) ==> is_lc(#[trigger] r[i]),
    decreases r.len() - n,
{ if is_lc(r[n]) { assert(r[n] != EOF); lemma_cmts(r, n + 1); } }
pub open spec fn dfrom(r: Seq<SyntaxKind>, n: int) -> Option<int> decreases r.len() - n {
    if n < 0 || n >= r.len() { None } else if !le(kth(r, n + 1)) { None }
    else if kth(r, n + 2) == BRACE_END || kth(r, n + 2) == BRACKET_END || le(kth(r, n + 2)) { Some(n + 1) }
    else if kth(r, n + 2) != COMMENT { None } else { dfrom(r, n + 2) }
}
/// length of the dangling comment group at the front
pub open spec fn dang(r: Seq<SyntaxKind>) -> Option<int> { if kth(r, 0) != COMMENT { None } else { dfrom(r, 0) } }
/// what remains is a table header or nothing
pub open spec fn sect(r: Seq<SyntaxKind>) -> bool { r[0] != LINE_BREAK && dang(r) is None && (after_lead(r) == EOF || after_lead(r) == BRACKET_START) }
pub proof fn lemma_end(r: Seq<SyntaxKind>, n: int)
    requires eofr(r), 0 <= n < r.len(), r[n] == COMMENT, dfrom(r, n) is None,
    ensures kth(r, lead(r, n)) != EOF,
    decreases r.len() - n,
{
    lemma_lead(r, n);
    if kth(r, n + 1) == LINE_BREAK && kth(r, n + 2) != LINE_BREAK { assert(r[n + 1] == LINE_BREAK); assert(r[n + 2] != LINE_BREAK); if r[n + 2] == COMMENT { lemma_end(r, n + 2); } else { lemma_lead(r, n + 2); assert(lead(r, n + 2) == n + 2); } }
}
pub proof fn lemma_sect_end(r: Seq<SyntaxKind>)
    requires eofr(r), sect(r), after_lead(r) == EOF,
    ensures r.len() == 1,
{ lemma_lead(r, 0); if r[0] == COMMENT { lemma_end(r, 0); } else { assert(lead(r, 0) == 0); } }
pub open spec fn gs(r: Seq<SyntaxKind>) -> bool { le(kth(r, 0)) && le(kth(r, 1)) }
/// the events are one tree
pub open spec fn tree_ok(ev: Seq<Event>) -> bool {
    &&& ev.len() > 0 && ev[0] is Start && nst(ev) == 0
    &&& forall|i: int| 0 < i < ev.len() ==> nst(#[trigger] ev.take(i)) >= 1
    &&& forall|i: int| 0 <= i < ev.len() ==> sealed(#[trigger] ev[i])
}
pub proof fn lemma_tree(e0: Seq<Event>, cur: Seq<Event>, kind: SyntaxKind)
    requires e0.len() == 0, ext(e0.push(tomb()), cur), kind != TOMBSTONE,
    ensures tree_ok(cur.update(0, Event::Start { kind, forward_parent: None }).push(Event::Finish)),
{
    let a1 = e0.push(tomb());
    assert(a1.drop_last() =~= e0);
    ext_node(e0, cur, kind); ext_len(a1, cur);
    reveal(ext);
    let u = cur.update(0, Event::Start { kind, forward_parent: None });
    let b = u.push(Event::Finish);
    assert(cur[0] == a1[0]);
    assert forall|i: int| 0 < i < b.len() implies nst(#[trigger] b.take(i)) >= 1 by {
        let x = cur.take(i); let y = b.take(i);
        assert forall|k: int| 0 <= k < i implies like(#[trigger] x[k], y[k]) by { }
        lemma_like(x, y); assert(nst(cur.take(i)) >= nst(a1));
    }
    assert(b.take(b.len() as int) =~= b);
}
pub proof fn lemma_bound_le(s: Seq<char>, a: int) requires is_bound(s, a) ensures a <= blen(s)
{ let i = cidx(s, a); assert(at_byte(s, a, i)); lemma_blen_split(s, i); }
/// a text piece split at its dot: byte offsets of the parts
pub proof fn lemma_split(s: Seq<char>, a: int, b: int, p0: Seq<char>, p1: Seq<char>)
    requires is_bound(s, a), is_bound(s, b), a <= b, s.subrange(cidx(s, a), cidx(s, b)) == p0 + seq!['.'] + p1,
    ensures blen(p0) + 1 + blen(p1) == b - a, is_bound(s, a + blen(p0)), is_bound(s, a + blen(p0) + 1), p0.len() + 1 + p1.len() <= b - a,
{
    let i = cidx(s, a); let j = cidx(s, b);
    assert(at_byte(s, a, i)); assert(at_byte(s, b, j));
    if j < i { lemma_blen_mono(s, j, i); }
    lemma_blen_mono(s, i, j);
    let t = s.subrange(i, j);
    lemma_blen_concat(p0, seq!['.']); lemma_blen_concat(p0 + seq!['.'], p1); lemma_blen_one('.');
    lemma_blen_ge(p0); lemma_blen_ge(p1);
    let k = i + p0.len();
    assert(t.len() == p0.len() + 1 + p1.len());
    assert(s.take(k) =~= s.take(i) + p0) by { assert forall|x: int| i <= x < k implies s[x] == p0[x - i] by { assert(t[x - i] == s[x]); } }
    assert(s.take(k + 1) =~= s.take(k) + seq!['.']) by { assert(t[p0.len() as int] == s[k]); }
    lemma_blen_concat(s.take(i), p0); lemma_blen_concat(s.take(k), seq!['.']);
    assert(at_byte(s, a + blen(p0), k)); assert(at_byte(s, a + blen(p0) + 1, k + 1));
}
"""

INN = "inn(*old(p), *p), m.event_index == old(p).events@.len()"
SAME_OR = "(p.r().len() < old(p).r().len() || p.r() == old(p).r())"
PROG = "final(p).r().len() < old(p).r().len()"
LEADG = "proof { lemma_lead(p.r(), 0); }"


def eatlb(inv):
    return Loop("while", invariant=inv + ", p.r().len() <= vx_h.r().len()", decreases="p.r().len()")


def free(fname, spec, **kw):
    kw.setdefault("requires", "old(p).wf()")
    ens = "st(*old(p), *final(p))"
    kw["ensures"] = ens + (", " + kw["ensures"] if kw.get("ensures") else "")
    return Fn(fname, spec, **kw)


def parse(fname, ty, **kw):
    kw.setdefault("header", f"impl {ty}")
    return free(PD + fname + ".rs", f"Parse for {kw.pop('src', ty)}::parse", **kw)


def rank(n):
    return f"MAX_RECURSION_DEPTH - old(p).depth, {n}int"


def section(fname, ty, opening):
    """Table / ArrayOfTable"""
    return parse(fname, ty, requires=f"old(p).wf(), at_spec(old(p).r(), old(p).j(), lead(old(p).r(), 0), {opening})", ensures=PROG + ", sect(final(p).r())",
        entry=LEADG,
        loops={0: Loop("loop", invariant=INN + f", {PROG.replace('final(p)', 'p')}", ensures="sect(p.r())", decreases="p.r().len()", start="let ghost vx_h = *p;"),
               1: eatlb(INN + f", {PROG.replace('final(p)', 'p')}")},
        ghost=[("after", "Vec::<tombi_ast::DanglingCommentGroup>::parse(p);" if False else "DanglingCommentGroups::parse(p);", LEADG)])


PARSE = [
    Fn(PAR, "Parser::bump_float_key", requires="old(self).wf(), old(self).r()[0] == FLOAT", ensures="st(*old(self), *final(self)), " + PROG.replace("(p)", "(self)") + ", taken(*old(self), *final(self), 1)",
       entry="let ghost s0 = *self; proof { lemma_nidx(self.input_tokens@, self.pos as int, 0); assert(self.r()[self.r().len() - 1] == EOF); }",
       ghost=[("after", "let token = self.nth_token(0);", "proof { reveal(core); assert(token == self.input_tokens@[nidx(self.input_tokens@, self.pos as int, 0)]); assert(tile1(self.input_tokens@, self.source@, nidx(self.input_tokens@, self.pos as int, 0))); assert(dot1(text_of(token, self.source@))); assert(small(token.range)); }"),
              ("after", "vx_split_dot(text);", "proof { lemma_split(self.source@, token.span.start.raw as int, token.span.end.raw as int, parts@[0]@, parts@[1]@); lemma_bound_le(self.source@, token.span.end.raw as int); reveal_strlit(\".\"); lemma_blen_one('.'); assert(\".\"@ =~= seq!['.']); }"),
             ],
       exit="""proof { let n = self.tokens@.len() as int; let a = self.tokens@[n - 3]; let b = self.tokens@[n - 2]; let c = self.tokens@[n - 1];
           assert(self.tokens@ =~= (s0.tokens@ + s0.input_tokens@.subrange(s0.pos as int, nidx(s0.input_tokens@, s0.pos as int, 0))).push(a).push(b).push(c));
           lemma_float(s0.source@, s0.input_tokens@, s0.pos as int, s0.tokens@, s0.events@, self.tokens@, self.events@, a, b, c); lemma_core(*self); }"""),
    free(COM, "fn peek_leading_comments", ensures="*final(p) == *old(p), r == lead(old(p).r(), 0), r < old(p).r().len(), !is_lc(after_lead(old(p).r())) ==> r == cmts(old(p).r(), 0)",
         entry=LEADG,
         loops={0: Loop("loop", invariant="p.wf(), *p == *old(p), lead(p.r(), n as int) == lead(p.r(), 0), cmts(p.r(), n as int) == cmts(p.r(), 0), n < p.r().len()", decreases="p.r().len() - n", start="proof { lemma_lead(p.r(), n as int); reveal_with_fuel(cmts, 3); }")}),
    free(COM, "fn peek_comments", ensures="*final(p) == *old(p), r == cmts(old(p).r(), 0), r < old(p).r().len()",
         entry=LEADG,
         loops={0: Loop("while", invariant="p.wf(), *p == *old(p), cmts(p.r(), n as int) == cmts(p.r(), 0), n < p.r().len()", decreases="p.r().len() - n", start="proof { lemma_cmts(p.r(), n as int); }")}),
    free(COM, "fn leading_comments",
         ensures="taken(*old(p), *final(p), cmts(old(p).r(), 0)), !is_lc(final(p).r()[0]), !is_lc(old(p).r()[0]) ==> *final(p) == *old(p), is_lc(old(p).r()[0]) ==> " + PROG + ", !is_lc(after_lead(old(p).r())) ==> taken(*old(p), *final(p), lead(old(p).r(), 0))",
         entry=LEADG + " proof { assert(p.r() =~= p.r().skip(0)); assert(p.j() =~= p.j().skip(0)); }",
         loops={0: Loop("while", decreases="p.r().len()",
            invariant="""old(p).wf(), st(*old(p), *p), ({ let k = old(p).r().len() - p.r().len(); p.r() == old(p).r().skip(k) && p.j() == old(p).j().skip(k) && (forall|i: int| 0 <= i < k ==> is_lc(#[trigger] old(p).r()[i])) }),
               p.r().len() == old(p).r().len() ==> *p == *old(p)""",
            start="proof { let k = old(p).r().len() - p.r().len(); assert(p.r() =~= old(p).r().skip(k)); assert(old(p).j().skip(k - 1).skip(1) =~= old(p).j().skip(k)); assert(p.j() =~= old(p).j().skip(k)); assert(is_lc(old(p).r()[k - 1])); }",
            after="proof { let k = old(p).r().len() - p.r().len(); assert(p.r()[0] == old(p).r()[k]); lemma_lead(old(p).r(), 0); lemma_cmts(old(p).r(), 0); let c = cmts(old(p).r(), 0); assert(is_lc(old(p).r()[c]) == false); assert(k <= c ==> k == c); assert(k > c ==> is_lc(old(p).r()[c])); assert(k == c); let l = lead(old(p).r(), 0); if !is_lc(after_lead(old(p).r())) { assert(old(p).r()[l] == after_lead(old(p).r())); assert(k == l); } }")}),
    free(COM, "fn trailing_comment", ensures="old(p).r()[0] == COMMENT ==> " + PROG + ", old(p).r()[0] != COMMENT ==> *final(p) == *old(p), final(p).r()[0] != COMMENT",
         loops={0: Loop("while", decreases="p.r().len()", invariant="st(*old(p), *p), *p == *old(p) || p.r().len() < old(p).r().len(), old(p).r()[0] != COMMENT ==> *p == *old(p)")}),
    free(P + "parse.rs", "fn invalid_line", ensures="le(final(p).r()[0]), old(p).r()[0] != EOF ==> " + PROG,
         loops={0: Loop("while", decreases="p.r().len()", invariant="st(*old(p), *p), old(p).r()[0] != EOF ==> p.r().len() < old(p).r().len()")}),
    free(P + "parse.rs", "fn is_group_separator", ensures="*final(p) == *old(p), r == gs(old(p).r())"),
    parse("dangling_comment_group", "DanglingCommentGroups", src="Vec", ensures="final(p).r()[0] != LINE_BREAK, dang(final(p).r()) is None",
          loops={0: Loop("loop", invariant="st(*old(p), *p)", ensures="p.r()[0] != LINE_BREAK, dang(p.r()) is None", decreases="p.r().len()", start="let ghost vx_h = *p;"),
                 1: eatlb("st(*old(p), *p)"),
                 2: Loop("for", invariant="inn(vx_q, *p), _i > 0 ==> p.r().len() < vx_q.r().len(), vx_q.r()[0] != EOF, _i == 0 ==> p.r() == vx_q.r()")},
          ghost=[("before", "let m = p.start();", "let ghost vx_q = *p;")]),
    Fn(PD + "dangling_comment_group.rs", "fn dangling_comment_group_len", requires="p.wf()",
       ensures="match r { Some(n) => dang(p.r()) == Some(n as int) && n >= 1 && p.r()[0] == COMMENT, None => dang(p.r()) is None }",
       loops={0: Loop("loop", invariant="p.wf(), p.r()[0] == COMMENT, dang(p.r()) == dfrom(p.r(), n as int), n < p.r().len(), p.r()[n as int] == COMMENT", decreases="p.r().len() - n")}),
    parse("comma", "Comma", requires="old(p).wf(), after_cmts(old(p).r()) == COMMA", ensures=PROG, entry=LEADG),
    free(PD + "key.rs", "fn eat_key", ensures="r == kfirst(old(p).r()[0]), r ==> " + PROG + ", !r ==> final(p).r() == old(p).r()"),
    free(PD + "key.rs", "fn eat_keys", ensures="kfirst(old(p).r()[0]) ==> r && " + PROG + ", " + SAME_OR.replace("p.r()", "final(p).r()").replace("old(final(p).r()", "old(p).r()"),
         rewrites=[("has_error |= !eat_key(p);", "let vx_k = !eat_key(p); has_error = has_error || vx_k;")],
         loops={0: Loop("loop", invariant="st(*old(p), *p), " + SAME_OR, ieb="kfirst(old(p).r()[0]) ==> kfirst(p.r()[0]) && !has_error",
                        ensures="kfirst(old(p).r()[0]) ==> !has_error && p.r().len() < old(p).r().len()", decreases="p.r().len()")}),
    parse("key", "Keys", ensures="kfirst(old(p).r()[0]) ==> " + PROG + ", final(p).r().len() < old(p).r().len() || final(p).r() == old(p).r()"),
    parse("key_value", "KeyValue", ensures="old(p).r()[0] != EOF ==> " + PROG, decreases=rank(4)),
    parse("key_value_group", "KeyValueGroup", ensures="!gs(old(p).r()) ==> " + PROG, decreases=rank(5),
          loops={0: Loop("loop", invariant=INN + ", " + SAME_OR + ", p.depth == old(p).depth", ensures="!gs(old(p).r()) ==> p.r().len() < old(p).r().len()", decreases="p.r().len()")}),
    parse("key_value_with_comma_group", "KeyValueWithCommaGroup", ensures="!gs(old(p).r()) ==> " + PROG, decreases=rank(5),
          loops={0: Loop("loop", invariant=INN + ", " + SAME_OR + ", p.depth == old(p).depth", ensures="!gs(old(p).r()) ==> p.r().len() < old(p).r().len()", decreases="p.r().len()")}),
    parse("value_with_comma_group", "ValueWithCommaGroup", requires="old(p).wf(), !le(old(p).r()[0])", ensures=PROG, decreases=rank(5),
          loops={0: Loop("loop", invariant=INN + ", p.depth == old(p).depth, !le(old(p).r()[0])", ieb="p.r() == old(p).r() || (p.r().len() < old(p).r().len() && vfirst(after_lead(p.r())))", ensures="p.r().len() < old(p).r().len()", decreases="p.r().len()", start=LEADG)}),
    parse("array", "Array", requires="old(p).wf(), after_lead(old(p).r()) == BRACKET_START", ensures=PROG, decreases=rank(6), entry=LEADG,
          loops={0: Loop("loop", invariant=INN + ", p.r().len() < old(p).r().len()", decreases="p.r().len()", start="let ghost vx_h = *p;"), 1: eatlb(INN + ", p.r().len() < old(p).r().len()")},
          ghost=[("after", "DanglingCommentGroups::parse(p);", LEADG)]),
    parse("inline_table", "InlineTable", requires="old(p).wf(), after_lead(old(p).r()) == BRACE_START", ensures=PROG, decreases=rank(6), entry=LEADG,
          loops={0: Loop("loop", invariant=INN + ", p.r().len() < old(p).r().len()", decreases="p.r().len()", start="let ghost vx_h = *p;"), 1: eatlb(INN + ", p.r().len() < old(p).r().len()")},
          ghost=[("after", "DanglingCommentGroups::parse(p);", LEADG)]),
    free(PD + "value.rs", "fn parse_nested", rename="parse_nested_array", rewrites=[(", parse_inner: fn(&mut Parser<'_>)", ""), (", parse_inner: fn(&mut Parser)", ""), ("parse_inner(p)", "Array::parse(p)")],
         requires="old(p).wf(), after_lead(old(p).r()) == BRACKET_START", ensures=PROG, decreases=rank(2)),
    free(PD + "value.rs", "fn parse_nested", rename="parse_nested_inline_table", rewrites=[(", parse_inner: fn(&mut Parser<'_>)", ""), (", parse_inner: fn(&mut Parser)", ""), ("parse_inner(p)", "InlineTable::parse(p)")],
         requires="old(p).wf(), after_lead(old(p).r()) == BRACE_START", ensures=PROG, decreases=rank(2)),
    free(PD + "value.rs", "fn skip_too_deep_value", requires="old(p).wf(), after_lead(old(p).r()) == BRACE_START || after_lead(old(p).r()) == BRACKET_START", ensures=PROG, entry=LEADG,
         loops={0: Loop("loop", invariant=INN + ", bracket_depth + p.r().len() <= old(p).r().len(), old(p).r().len() <= i32::MAX + 1",
                        ieb="bracket_depth > 0 && p.r().len() < old(p).r().len() || p.r()[0] == BRACKET_START || p.r()[0] == BRACE_START",
                        ensures="p.r().len() < old(p).r().len()", decreases="p.r().len()")}),
    free(PD + "value.rs", "fn parse_literal_value", requires="old(p).wf(), literal(after_lead(old(p).r()))", ensures=PROG, entry=LEADG),
    free(PD + "value.rs", "fn parse_invalid_value", requires="old(p).wf(), n < usize::MAX - 1", ensures="!le(old(p).r()[0]) ==> " + PROG,
         loops={0: Loop("while", decreases="p.r().len()", invariant=INN + ", " + SAME_OR)}),
    parse("value", "Value", ensures="!le(old(p).r()[0]) || vfirst(after_lead(old(p).r())) ==> " + PROG, decreases=rank(3), entry=LEADG),
    section("table", "Table", "BRACKET_START"),
    section("array_of_table", "ArrayOfTable", "DOUBLE_BRACKET_START"),
    free(PD + "root.rs", "fn unknwon_line",
         loops={0: Loop("while", decreases="p.r().len()", invariant=INN)}),
    parse("root", "Root", requires="old(p).wf(), old(p).events@.len() == 0", ensures="final(p).r().len() == 1, tree_ok(final(p).events@)",
          loops={0: Loop("loop", invariant=INN, ensures="sect(p.r())", decreases="p.r().len()", start="let ghost vx_h = *p;"), 1: eatlb(INN),
                 2: Loop("loop", invariant=INN, ieb="sect(p.r())", ensures="p.r().len() == 1", decreases="p.r().len()", start="let ghost vx_h = *p;"),
                 3: Loop("while", invariant=INN + ", sect(p.r()), p.r().len() <= vx_h.r().len()", decreases="p.r().len()", nocanary=True, after="proof { lemma_lead(p.r(), 0); if after_lead(p.r()) == EOF { lemma_sect_end(p.r()); } }")},
          ghost=[("after", "DanglingCommentGroups::parse(p);", LEADG), ("before", "m.complete(p, $k)", "let ghost vx_cur = p.events@;")],
          exit="proof { ext_len(old(p).events@.push(tomb()), vx_cur); lemma_tree(old(p).events@, vx_cur, match p.events@[0] { Event::Start { kind, .. } => kind, _ => TOMBSTONE }); }"),
]
STRUCTS = "pub struct DanglingCommentGroups; pub struct Comma; pub struct Keys; pub struct KeyValue; pub struct KeyValueGroup; pub struct KeyValueWithCommaGroup; pub struct ValueWithCommaGroup; pub struct Array; pub struct InlineTable; pub struct Value; pub struct Table; pub struct ArrayOfTable; pub struct Root;"

# ---------------------------------------------------------------- events -> output -> green tree
GB = "crates/tombi-rg-tree/src/green/builder.rs"
UT = "crates/tombi-rg-tree/src/utility_types.rs"
STB = "crates/tombi-syntax/src/builder.rs"
PSD = P + "parsed.rs"


def out_consts():
    """the bit layout of an encoded event, evaluated from the source"""
    f = F(OUT)
    env = {}
    for m in re.finditer(r"const (\w+): (u32|u8) = ([^;]+);", strip_comments(f.src)):
        n, ty, e = m.groups()
        e = e.strip()
        q = re.fullmatch(r"Self::(\w+)\.(trailing_ones|trailing_zeros)\(\)", e)
        if q and q.group(1) in env:
            v = env[q.group(1)][0]
            b = bin(v)[2:][::-1]
            env[n] = ((len(b) - len(b.lstrip("1"))) if q.group(2) == "trailing_ones" else (len(b) - len(b.lstrip("0")) if v else 32), ty)
        else:
            try:
                env[n] = (int(e.replace("_", ""), 0), ty)
            except ValueError:
                raise Lost(f"output.rs: const {n} = {e} cannot be evaluated")
    for n in ("EVENT_MASK", "TAG_MASK", "N_INPUT_TOKEN_MASK", "KIND_MASK", "ERROR_SHIFT", "TAG_SHIFT", "N_INPUT_TOKEN_SHIFT", "KIND_SHIFT", "TOKEN_EVENT", "ENTER_EVENT", "EXIT_EVENT"):
        if n not in env:
            raise Lost(f"output.rs: const {n} is gone")
    return env


def out_rules():
    return [(f"Self::{n}", f"{v}{ty}") for n, (v, ty) in out_consts().items()]


def closure_fn(header, pat):
    """turn the closure found by `pat` ($$b = its body) into a function of its own"""
    def go(text):
        from vgen import _pat, _match_full
        from rsx import tokenize
        T = tokenize(text)
        Pt = _pat(pat)
        for i in range(len(T)):
            b = {}
            e = _match_full(Pt, T, i, len(T), b)
            if e is not None:
                x, y = b["b"]
                return header + " {" + text[T[x].s:T[y - 1].e] + "}"
        raise Lost("closure `" + pat[:40] + "` changed shape")
    return go


def TREESPEC():
    c = {n: f"{v}{ty}" for n, (v, ty) in out_consts().items()}
    return (r"""
// ---- encoded events, decoded with the constants in the source ----
pub open spec fn e_err(e: u32) -> bool { e & @EVENT_MASK == 0u32 }
pub open spec fn e_idx(e: u32) -> int { (e >> @ERROR_SHIFT) as int }
pub open spec fn e_tag(e: u32) -> u8 { ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 }
pub open spec fn e_kind(e: u32) -> u16 { ((e & @KIND_MASK) >> @KIND_SHIFT) as u16 }
pub open spec fn e_n(e: u32) -> u8 { ((e & @N_INPUT_TOKEN_MASK) >> @N_INPUT_TOKEN_SHIFT) as u8 }
/// the encoded event stands for v
pub open spec fn codes(e: u32, v: Event, nerr: int) -> bool {
    match v {
        Event::Start { kind, .. } => !e_err(e) && e_tag(e) == @ENTER_EVENT && e_kind(e) == kind as u16,
        Event::Finish => !e_err(e) && e_tag(e) == @EXIT_EVENT,
        Event::Token { kind, n_raw_tokens } => !e_err(e) && e_tag(e) == @TOKEN_EVENT && e_kind(e) == kind as u16 && e_n(e) == n_raw_tokens,
        Event::Error { .. } => e_err(e) && e_idx(e) < nerr,
    }
}
pub proof fn lemma_code(k: u32, n: u32, i: u32)
    requires k <= 0xffff, n <= 0xff, i < 0x8000_0000,
    ensures ({ let e = (k << @KIND_SHIFT) | (n << @N_INPUT_TOKEN_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @TOKEN_EVENT && ((e & @KIND_MASK) >> @KIND_SHIFT) as u16 == k as u16 && ((e & @N_INPUT_TOKEN_MASK) >> @N_INPUT_TOKEN_SHIFT) as u8 == n as u8 }),
        ({ let e = (k << @KIND_SHIFT) | ((@ENTER_EVENT as u32) << @TAG_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @ENTER_EVENT && ((e & @KIND_MASK) >> @KIND_SHIFT) as u16 == k as u16 }),
        ({ let e = ((@EXIT_EVENT as u32) << @TAG_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @EXIT_EVENT }),
        (i << @ERROR_SHIFT) & @EVENT_MASK == 0u32 && (i << @ERROR_SHIFT) >> @ERROR_SHIFT == i,
{
    assert(k <= 0xffff && n <= 0xff ==> ({ let e = (k << @KIND_SHIFT) | (n << @N_INPUT_TOKEN_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @TOKEN_EVENT && ((e & @KIND_MASK) >> @KIND_SHIFT) as u16 == k as u16 && ((e & @N_INPUT_TOKEN_MASK) >> @N_INPUT_TOKEN_SHIFT) as u8 == n as u8 })) by (bit_vector);
    assert(k <= 0xffff ==> ({ let e = (k << @KIND_SHIFT) | ((@ENTER_EVENT as u32) << @TAG_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @ENTER_EVENT && ((e & @KIND_MASK) >> @KIND_SHIFT) as u16 == k as u16 })) by (bit_vector);
    assert(({ let e = ((@EXIT_EVENT as u32) << @TAG_SHIFT) | @EVENT_MASK; e & @EVENT_MASK != 0u32 && ((e & @TAG_MASK) >> @TAG_SHIFT) as u8 == @EXIT_EVENT })) by (bit_vector);
    assert(i < 0x8000_0000 ==> (i << @ERROR_SHIFT) & @EVENT_MASK == 0u32 && (i << @ERROR_SHIFT) >> @ERROR_SHIFT == i) by (bit_vector);
}
""" + TREESPEC0)


def _sub(t):
    c = {n: f"{v}{ty}" for n, (v, ty) in out_consts().items()}
    return re.sub(r"@(\w+)", lambda m: c[m.group(1)], t)


TREESPEC0 = r"""
impl Output {
    pub open spec fn nerr(&self) -> int { self.errors@.len() as int }
    pub open spec fn is(&self, ev: Seq<Event>) -> bool { self.events@.len() == ev.len() && forall|i: int| 0 <= i < ev.len() ==> codes(#[trigger] self.events@[i], ev[i], self.nerr()) }
    pub fn vx_default() -> (r: Output) ensures r.events@.len() == 0, r.errors@.len() == 0 { Output { events: Vec::new(), errors: Vec::new() } }
}
/// std::mem::replace(&mut v[i], x)
#[verifier::external_body]
pub fn vx_replace(v: &mut Vec<Event>, i: usize, x: Event) -> (r: Event) requires i < old(v)@.len() ensures r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, x) { std::mem::replace(&mut v[i], x) }
#[verifier::external_body]
pub fn vx_replace_state(v: &mut State, x: State) -> (r: State) ensures r == *old(v), *final(v) == x { std::mem::replace(v, x) }
#[verifier::external_body]
pub fn vx_clone_err(e: &PError) -> PError { unimplemented!() }
pub open spec fn kcast(k: SyntaxKind) -> u16 { k as u16 }
pub open spec fn is_kind(v: u16) -> bool { exists|k: SyntaxKind| #[trigger] kcast(k) == v }
/// SyntaxKind::from(u16): a transmute, defined for the discriminants
#[verifier::external_body]
pub fn vx_kind(v: u16) -> (r: SyntaxKind) requires is_kind(v) ensures r as u16 == v { unimplemented!() }
/// error lists are taken to stay below 2^31 entries
#[verifier::external_body]
pub fn vx_err_count(v: &Vec<PError>) -> (r: usize) ensures r == v@.len(), r < 0x8000_0000 { v.len() }
#[verifier::external_body] pub fn vx_unreachable<T>() -> (r: T) requires false { unreachable!() }

// ---- green tree: node cache and green nodes are trusted, the builder is verified ----
#[verifier::external_body] pub struct GreenNode;
#[verifier::external_body] pub struct GreenToken;
#[verifier::external_body] pub struct NodeCache;
pub struct RawKind(pub u16);
pub type GreenElement = NodeOrToken<GreenNode, GreenToken>;
/// the text below a green node or token
pub uninterp spec fn ntext(n: GreenNode) -> Seq<char>;
pub uninterp spec fn ttext(t: GreenToken) -> Seq<char>;
pub open spec fn gtext(e: GreenElement) -> Seq<char> { match e { NodeOrToken::Node(n) => ntext(n), NodeOrToken::Token(t) => ttext(t) } }
pub open spec fn ctext(c: Seq<(u64, GreenElement)>) -> Seq<char> decreases c.len() { if c.len() == 0 { Seq::empty() } else { ctext(c.drop_last()) + gtext(c.last().1) } }
pub proof fn lemma_ctext(a: Seq<(u64, GreenElement)>, b: Seq<(u64, GreenElement)>)
    ensures ctext(a + b) == ctext(a) + ctext(b),
    decreases b.len(),
{ if b.len() == 0 { assert(a + b =~= a); assert(ctext(a) + ctext(b) =~= ctext(a)); } else { lemma_ctext(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert(ctext(a + b) =~= ctext(a) + ctext(b)); } }
impl NodeCache {
    #[verifier::external_body]
    pub fn token(&mut self, kind: RawKind, text: &str) -> (r: (u64, GreenToken)) ensures ttext(r.1) == text@ { unimplemented!() }
    #[verifier::external_body]
    pub fn node(&mut self, kind: RawKind, children: &mut Vec<(u64, GreenElement)>, first_child: usize) -> (r: (u64, GreenNode))
        requires first_child <= old(children)@.len(), ensures final(children)@ == old(children)@.take(first_child as int), ntext(r.1) == ctext(old(children)@.skip(first_child as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_default() -> NodeCache { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_raw_kind(k: SyntaxKind) -> RawKind { unimplemented!() }
impl GreenNodeBuilder {
    pub fn vx_default() -> (r: GreenNodeBuilder) ensures r.parents@.len() == 0, r.children@.len() == 0 { GreenNodeBuilder { cache: NodeCache::vx_default(), parents: Vec::new(), children: Vec::new() } }
    pub open spec fn gwf(&self) -> bool {
        &&& self.parents@.len() > 0 ==> self.parents@[0].1 == 0
        &&& self.parents@.len() == 0 ==> self.children@.len() == 0 || (self.children@.len() == 1 && self.children@[0].1 is Node)
        &&& forall|i: int| 0 <= i < self.parents@.len() ==> (#[trigger] self.parents@[i]).1 <= self.children@.len()
        &&& forall|i: int, j: int| 0 <= i <= j < self.parents@.len() ==> (#[trigger] self.parents@[i]).1 <= (#[trigger] self.parents@[j]).1
    }
}
impl SyntaxTreeBuilder {
    pub open spec fn ok(&self) -> bool { self.inner.gwf() }
    pub open spec fn open(&self) -> int { self.inner.parents@.len() as int }
    pub open spec fn fresh(&self) -> bool { self.inner.parents@.len() == 0 && self.inner.children@.len() == 0 }
    /// the text of everything added so far
    pub open spec fn text(&self) -> Seq<char> { ctext(self.inner.children@) }
}
// ---- the tree-building loop ----
pub open spec fn upto(s: Seq<char>, ts: Seq<Token>, i: int) -> Seq<char> { s.take(cidx(s, ts[i].span.start.raw as int)) }
pub proof fn lemma_tile_mono(ts: Seq<Token>, s: Seq<char>, i: int, j: int)
    requires tile(ts, s), 0 <= i <= j < ts.len(),
    ensures ts[i].span.start.raw <= ts[j].span.start.raw, is_bound(s, ts[i].span.start.raw as int), is_bound(s, ts[j].span.start.raw as int),
    decreases j - i,
{ assert(tile1(ts, s, i)); assert(tile1(ts, s, j)); if i < j { lemma_tile_mono(ts, s, i, j - 1); assert(tile1(ts, s, j - 1)); } }
pub proof fn lemma_upto(s: Seq<char>, a: int, b: int)
    requires is_bound(s, a), is_bound(s, b), a <= b,
    ensures s.take(cidx(s, a)) + s.subrange(cidx(s, a), cidx(s, b)) == s.take(cidx(s, b)),
{
    let i = cidx(s, a); let j = cidx(s, b);
    assert(at_byte(s, a, i)); assert(at_byte(s, b, j));
    if j < i { lemma_blen_mono(s, j, i); }
    assert(s.take(i) + s.subrange(i, j) =~= s.take(j));
}
pub proof fn lemma_skipt_last(f: Seq<Token>, last: Token, i: int)
    requires 0 <= i <= f.len(), !triv(last.kind),
    ensures skipt(f.push(last), i) == skipt(f, i),
{ lemma_skipt_push(f, i, last); lemma_skipt(f, i); }
impl<'a, 'b, 'c> Builder<'a, 'b, 'c> {
    pub open spec fn f(&self) -> Seq<Token> { self.tokens@.drop_last() }
    pub open spec fn pend(&self) -> int { if self.state is PendingExit { 1 } else { 0 } }
    pub open spec fn bwf(&self) -> bool {
        &&& self.tokens@.len() > 0 && tile(self.tokens@, self.source@) && !triv(self.tokens@.last().kind)
        &&& self.token_index < self.tokens@.len()
        &&& self.sink.ok() && self.sink.text() == upto(self.source@, self.tokens@, self.token_index as int)
        &&& (self.state is PendingEnter) == self.sink.fresh()
    }
    /// what every step keeps
    #[verifier::prophetic] pub open spec fn fix(&self, o: Builder<'a, 'b, 'c>) -> bool { self.source == o.source && self.tokens == o.tokens && *final(self.sink) == *final(o.sink) }
}
pub proof fn lemma_toks_prefix(ev: Seq<Event>, i: int)
    requires 0 <= i <= ev.len(),
    ensures toks(ev.take(i)).len() <= toks(ev).len(), toks(ev).take(toks(ev.take(i)).len() as int) == toks(ev.take(i)),
    decreases ev.len() - i,
{
    if i == ev.len() { assert(ev.take(i) =~= ev); assert(toks(ev).take(toks(ev).len() as int) =~= toks(ev)); }
    else { lemma_toks_prefix(ev, i + 1); assert(ev.take(i + 1).drop_last() =~= ev.take(i)); let a = toks(ev.take(i)); let b = toks(ev.take(i + 1)); assert(a =~= b.take(a.len() as int)); assert(toks(ev).take(a.len() as int) =~= toks(ev).take(b.len() as int).take(a.len() as int)); }
}
/// what is left to place after the first i events
pub open spec fn left(ev: Seq<Event>, i: int) -> Seq<int> { toks(ev).skip(toks(ev.take(i)).len() as int) }
pub proof fn lemma_left(ev: Seq<Event>, i: int)
    requires 0 <= i < ev.len(),
    ensures match ev[i] { Event::Token { n_raw_tokens, .. } => left(ev, i).len() > 0 && left(ev, i)[0] == n_raw_tokens && left(ev, i).skip(1) == left(ev, i + 1), _ => left(ev, i + 1) == left(ev, i) },
        nst(ev.take(i + 1)) == nst(ev.take(i)) + (match ev[i] { Event::Start { .. } => 1int, Event::Finish => -1int, _ => 0int }),
{
    lemma_toks_prefix(ev, i); lemma_toks_prefix(ev, i + 1);
    assert(ev.take(i + 1).drop_last() =~= ev.take(i));
    let a = toks(ev.take(i)); let b = toks(ev.take(i + 1));
    if ev[i] is Token { assert(toks(ev).take(b.len() as int)[a.len() as int] == b[a.len() as int]); assert(left(ev, i).skip(1) =~= left(ev, i + 1)); }
}
"""
BFIX = "final(self).fix(*old(self)), final(self).bwf()"
TREE = [
    Fn(OUT, "Output::iter", pre=closure_fn("pub fn vx_step(&self, event: u32) -> OStep", "self.events.iter().map(|&event| { $$b })"),
       requires="exists|v: Event| #[trigger] codes(event, v, self.nerr())", entry="proof { let v = choose|v: Event| #[trigger] codes(event, v, self.nerr()); match v { Event::Start { kind, .. } => { assert(kcast(kind) == e_kind(event)); }, Event::Token { kind, .. } => { assert(kcast(kind) == e_kind(event)); }, _ => {} } }",
       ensures="""match r { OStep::Token { kind, n_input_tokens } => !e_err(event) && e_tag(event) == @TOKEN_EVENT && e_kind(event) == kind as u16 && e_n(event) == n_input_tokens,
          OStep::Enter { kind } => !e_err(event) && e_tag(event) == @ENTER_EVENT && e_kind(event) == kind as u16,
          OStep::Exit => !e_err(event) && e_tag(event) == @EXIT_EVENT, OStep::Error { .. } => e_err(event) }"""),
    Fn(OUT, "Output::token", ensures="final(self).events@.len() == old(self).events@.len() + 1, final(self).events@.drop_last() == old(self).events@, final(self).errors == old(self).errors, codes(final(self).events@.last(), Event::Token { kind, n_raw_tokens: n_tokens }, final(self).nerr())",
       entry="let ghost e0 = self.events@; proof { lemma_code(kind as u16 as u32, n_tokens as u32, 0); }", exit="proof { assert(self.events@.drop_last() =~= e0); }"),
    Fn(OUT, "Output::enter_node", ensures="final(self).events@.len() == old(self).events@.len() + 1, final(self).events@.drop_last() == old(self).events@, final(self).errors == old(self).errors, codes(final(self).events@.last(), Event::Start { kind, forward_parent: None }, final(self).nerr())",
       entry="let ghost e0 = self.events@; proof { lemma_code(kind as u16 as u32, 0, 0); }", exit="proof { assert(self.events@.drop_last() =~= e0); }"),
    Fn(OUT, "Output::leave_node", ensures="final(self).events@.len() == old(self).events@.len() + 1, final(self).events@.drop_last() == old(self).events@, final(self).errors == old(self).errors, codes(final(self).events@.last(), Event::Finish, final(self).nerr())",
       entry="let ghost e0 = self.events@; proof { lemma_code(0, 0, 0); }", exit="proof { assert(self.events@.drop_last() =~= e0); }"),
    Fn(OUT, "Output::error", ensures="final(self).events@.len() == old(self).events@.len() + 1, final(self).events@.drop_last() == old(self).events@, final(self).nerr() == old(self).nerr() + 1, codes(final(self).events@.last(), Event::Error { error }, final(self).nerr())",
       rewrites=[("self.errors.len()", "vx_err_count(&self.errors)")],
       entry="let ghost e0 = self.events@; proof { let n = self.errors@.len() as u32; lemma_code(0, 0, if n < 0x8000_0000 { n } else { 0 }); }", exit="proof { assert(self.events@.drop_last() =~= e0); }"),
    Fn(EV, "fn process", attrs="#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]", requires="forall|i: int| 0 <= i < events@.len() ==> sealed(#[trigger] events@[i])", ensures="r.is(events@)",
       rewrites=[("mut events: Vec<Event>", "events: Vec<Event>"), ("let mut output = Output::default();", "let mut events = events; let ghost ev0 = events@; let mut output = Output::vx_default();"),
                 ("let mut forward_parents = Vec::new();", "let mut forward_parents: Vec<SyntaxKind> = Vec::new();"),
                 ("std::mem::replace(&mut events[$$i], $$x)", "vx_replace(&mut events, $$i, $$x)"), ("output.error(error),", "{ output.error(error) }"),
                 ("for kind in forward_parents.drain(..).rev() { $$b }", "while let Some(kind) = forward_parents.pop() { $$b }")],
       loops={0: Loop("for", invariant="""forall|k: int| 0 <= k < ev0.len() ==> sealed(#[trigger] ev0[k]), events@.len() == ev0.len(), forall|k: int| i <= k < ev0.len() ==> (#[trigger] events@[k]) == ev0[k], forward_parents@.len() == 0,
              output.events@.len() == i, forall|k: int| 0 <= k < i ==> codes(#[trigger] output.events@[k], ev0[k], output.nerr())""",
              start="let ghost o0 = output.events@; proof { assert(sealed(ev0[i as int])); }", end="proof { assert forall|k: int| 0 <= k < i + 1 implies codes(#[trigger] output.events@[k], ev0[k], output.nerr()) by { if k < i { assert(output.events@.drop_last()[k] == o0[k]); } } }"),
              1: Loop("while let", invariant="fp is None, events@.len() == ev0.len(), forall|k: int| i < k < ev0.len() ==> (#[trigger] events@[k]) == ev0[k], forward_parents@.len() == 1, ev0[i as int] == (Event::Start { kind: forward_parents@[0], forward_parent: None })", decreases="0int", nocanary=True),
              2: Loop("while let", invariant="i < ev0.len(), sealed(ev0[i as int]), ev0[i as int] is Start, forward_parents@.len() <= 1, forward_parents@.len() == 1 ==> ev0[i as int] == (Event::Start { kind: forward_parents@[0], forward_parent: None }) && output.events@ == o0, o0.len() == i, forall|k: int| 0 <= k < i ==> codes(#[trigger] o0[k], ev0[k], output.nerr()), forward_parents@.len() == 0 ==> output.events@.len() == i + 1 && output.events@.drop_last() == o0 && codes(output.events@.last(), ev0[i as int], output.nerr())",
                      ensures="forward_parents@.len() == 0", decreases="forward_parents@.len()")}),
    # green builder
    Fn(GB, "GreenNodeBuilder::token", header="impl GreenNodeBuilder", requires="old(self).gwf(), old(self).parents@.len() > 0", rewrites=[("token.into()", "NodeOrToken::Token(token)")],
       ensures="final(self).gwf(), final(self).parents == old(self).parents, ctext(final(self).children@) == ctext(old(self).children@) + text@",
       entry="let ghost c0 = self.children@;", exit="proof { assert(self.children@.drop_last() =~= c0); }"),
    Fn(GB, "GreenNodeBuilder::start_node", header="impl GreenNodeBuilder", requires="old(self).gwf(), old(self).parents@.len() > 0 || old(self).children@.len() == 0",
       ensures="final(self).gwf(), final(self).children == old(self).children, final(self).parents@.len() == old(self).parents@.len() + 1"),
    Fn(GB, "GreenNodeBuilder::finish_node", header="impl GreenNodeBuilder", requires="old(self).gwf(), old(self).parents@.len() > 0", rewrites=[("node.into()", "NodeOrToken::Node(node)")],
       ensures="final(self).gwf(), final(self).parents@.len() == old(self).parents@.len() - 1, ctext(final(self).children@) == ctext(old(self).children@), final(self).children@.len() > 0",
       entry="let ghost c0 = self.children@; let ghost p0 = self.parents@;",
       exit="proof { let n = p0.last().1 as int; assert(self.children@.drop_last() =~= c0.take(n)); lemma_ctext(c0.take(n), c0.skip(n)); assert(c0.take(n) + c0.skip(n) =~= c0); }"),
    Fn(GB, "GreenNodeBuilder::finish", header="impl GreenNodeBuilder", requires="self.gwf(), self.parents@.len() == 0, self.children@.len() > 0", ensures="ntext(r) == ctext(self.children@)",
       pre=mutself, rewrites=[("debug_assert_eq!($$a, $b);", "vx_debug_assert($$a == $b);"), ("panic!()", "vx_unreachable()")],
       ghost=[("after", "let mut vx_self = self;", "proof { let c = vx_self.children@; assert(c.drop_last() =~= Seq::<(u64, GreenElement)>::empty()); assert(ctext(c.drop_last()) =~= Seq::<char>::empty()); assert(ctext(c) =~= gtext(c[0].1)); }")]),
    *[Fn(STB, "SyntaxTreeBuilder::" + n, header="impl SyntaxTreeBuilder", rewrites=[("TomlLanguage::kind_to_raw(kind)", "vx_raw_kind(kind)"), ("Vec<E>", "Vec<PError>"), ("<E>", ""), ("error: E", "error: PError"), ("tombi_rg_tree::GreenNode", "GreenNode"), ("$a::SyntaxKind", "SyntaxKind")], requires=rq, ensures=en)
      for n, rq, en in [
        ("finish", "self.ok(), self.open() == 0, !self.fresh()", "ntext(r.0) == self.text()"),
        ("token", "old(self).ok(), old(self).open() > 0", "final(self).ok(), final(self).open() == old(self).open(), final(self).text() == old(self).text() + text@, !final(self).fresh()"),
        ("start_node", "old(self).ok(), old(self).open() > 0 || old(self).fresh()", "final(self).ok(), final(self).open() == old(self).open() + 1, final(self).text() == old(self).text(), !final(self).fresh()"),
        ("finish_node", "old(self).ok(), old(self).open() > 0", "final(self).ok(), final(self).open() == old(self).open() - 1, final(self).text() == old(self).text(), !final(self).fresh()"),
        ("error", "", "final(self).inner == old(self).inner")]],
    Fn(LIBP, "fn build_green_tree", rename="vx_sink", pre=closure_fn("fn vx_sink(builder: &mut SyntaxTreeBuilder, step: BStep<'_>)", "intersperse_trivia($$x, &mut |step| $$b)"), rewrites=[("builder::Step::", "BStep::")],
       requires="old(builder).ok(), match step { BStep::AddToken { .. } => old(builder).open() > 0, BStep::StartNode { .. } => old(builder).open() > 0 || old(builder).fresh(), BStep::FinishNode => old(builder).open() > 0, _ => true }",
       ensures="""final(builder).ok(), match step { BStep::AddToken { text, .. } => final(builder).open() == old(builder).open() && final(builder).text() == old(builder).text() + text@ && !final(builder).fresh(),
          BStep::StartNode { .. } => final(builder).open() == old(builder).open() + 1 && final(builder).text() == old(builder).text() && !final(builder).fresh(),
          BStep::FinishNode => final(builder).open() == old(builder).open() - 1 && final(builder).text() == old(builder).text() && !final(builder).fresh(), BStep::Error { .. } => final(builder).inner == old(builder).inner }"""),
    Fn(BLD, "Builder::new", requires="old(sink).ok(), old(sink).fresh(), tokens@.len() > 0, tile(tokens@, source@), !triv(tokens@.last().kind)",
       ensures="r.bwf(), r.state is PendingEnter, r.token_index == 0, r.tokens == tokens, r.source == source, *final(r.sink) == *final(sink), r.sink.open() == 0",
       entry="proof { assert(tile1(tokens@, source@, 0)); assert(source@.take(0) =~= Seq::<char>::empty()); lemma_cidx(source@, 0); assert(sink.text() =~= Seq::<char>::empty()); }"),
    Fn(BLD, "Builder::do_token", requires="old(self).bwf(), old(self).sink.open() > 0, old(self).token_index + n_tokens < old(self).tokens@.len()",
       ensures=BFIX + ", final(self).state == old(self).state, final(self).token_index == old(self).token_index + n_tokens, final(self).sink.open() == old(self).sink.open()",
       entry="proof { lemma_tile_mono(self.tokens@, self.source@, self.token_index as int, self.token_index + n_tokens); lemma_upto(self.source@, self.tokens@[self.token_index as int].span.start.raw as int, self.tokens@[self.token_index + n_tokens].span.start.raw as int); }"),
    Fn(BLD, "Builder::eat_trivias", requires="old(self).bwf(), old(self).sink.open() > 0",
       ensures=BFIX + ", final(self).state == old(self).state, final(self).token_index == skipt(old(self).f(), old(self).token_index as int), final(self).sink.open() == old(self).sink.open()",
       entry="let ghost s0 = *self; proof { assert(self.tokens@ =~= self.f().push(self.tokens@.last())); lemma_skipt_last(self.f(), self.tokens@.last(), self.token_index as int); }",
       loops={0: Loop("while", invariant="s0.bwf(), self.bwf(), self.source == s0.source, self.tokens == s0.tokens, *final(self.sink) == *final(s0.sink), self.state == s0.state, self.sink.open() == s0.sink.open(), self.sink.open() > 0, skipt(s0.tokens@, s0.token_index as int) == skipt(self.tokens@, self.token_index as int), skipt(s0.tokens@, s0.token_index as int) == skipt(s0.f(), s0.token_index as int)",
              ensures="self.token_index == skipt(s0.tokens@, s0.token_index as int)", decreases="self.tokens@.len() - self.token_index")}),
    Fn(BLD, "Builder::token", requires="old(self).bwf(), !(old(self).state is PendingEnter), old(self).sink.open() >= 1 + old(self).pend(), skipt(old(self).f(), old(self).token_index as int) + n_tokens <= old(self).f().len()",
       ensures=BFIX + ", final(self).state is Normal, final(self).token_index == skipt(old(self).f(), old(self).token_index as int) + n_tokens, final(self).sink.open() == old(self).sink.open() - old(self).pend()"),
    Fn(BLD, "Builder::enter", requires="old(self).bwf(), old(self).state is PendingEnter || old(self).sink.open() >= 1 + old(self).pend()",
       ensures=BFIX + ", final(self).state is Normal, final(self).sink.open() == old(self).sink.open() - old(self).pend() + 1, final(self).token_index == (if old(self).state is PendingEnter { old(self).token_index as int } else { skipt(old(self).f(), old(self).token_index as int) })"),
    Fn(BLD, "Builder::exit", requires="old(self).bwf(), !(old(self).state is PendingEnter), old(self).sink.open() >= 1 + old(self).pend()",
       ensures=BFIX + ", final(self).state is PendingExit, final(self).sink.open() == old(self).sink.open() - old(self).pend(), final(self).token_index == old(self).token_index"),
    Fn(BLD, "fn intersperse_trivia", attrs="#[verifier::loop_isolation(false)]", rewrites=[("for event in output.iter() { $$b }", "for vx_i in 0..output.events.len() { let event = output.vx_step(output.events[vx_i]); $$b }"), ("output::Step::", "OStep::"), ("sink: &mut dyn FnMut(Step<'_>)", "sink: &mut SyntaxTreeBuilder, Ghost(ev): Ghost<Seq<Event>>")],
       requires="old(sink).ok(), old(sink).fresh(), fin_ok(tokens@, source@, ev), tree_ok(ev), output.is(ev)",
       ensures="final(sink).ok(), final(sink).open() == 0, !final(sink).fresh(), final(sink).text() == source@",
       entry="proof { assert(ev.take(0) =~= Seq::<Event>::empty()); assert(toks(ev).skip(0) =~= toks(ev)); }",
       ghost=[("after", "let mut builder = Builder::new(source, tokens, sink);", "let ghost b0 = builder;")],
       loops={0: Loop("for", invariant="""builder.bwf(), builder.source == source, builder.tokens == tokens, *final(builder.sink) == *final(b0.sink),
            vx_i == 0 ==> builder.state is PendingEnter && builder.token_index == 0 && builder.sink.open() == 0, vx_i > 0 ==> !(builder.state is PendingEnter), fwd(builder.f(), builder.token_index as int, left(ev, vx_i as int)),
            builder.sink.open() == nst(ev.take(vx_i as int)) + builder.pend(), vx_i > 0 && (ev[vx_i - 1] is Finish) ==> builder.state is PendingExit""",
            start="proof { let x = ev[vx_i as int]; lemma_left(ev, vx_i as int); assert(codes(output.events@[vx_i as int], x, output.nerr())); assert(sealed(x)); assert(nst(ev.take(0)) == 0); lemma_skipt(builder.f(), builder.token_index as int); if vx_i + 1 < ev.len() { assert(nst(ev.take(vx_i + 1)) >= 1); } if vx_i > 0 { assert(nst(ev.take(vx_i as int)) >= 1); } }",
            after="proof { assert(ev.take(ev.len() as int) =~= ev); lemma_toks_prefix(ev, ev.len() as int); lemma_left(ev, ev.len() - 1); lemma_cidx(source@, source@.len() as int); assert(source@.take(source@.len() as int) =~= source@); assert(nst(ev.take(ev.len() - 1)) >= 1 || ev.len() == 1); }")}),
    Fn(LIBP, "fn build_green_tree", requires="fin_ok(tokens@, source@, ev), tree_ok(ev), parser_output.is(ev)", ensures="ntext(r.0) == source@",
       rewrites=[("SyntaxTreeBuilder::<crate::Error>::default()", "SyntaxTreeBuilder::vx_default()"), ("tombi_syntax::SyntaxTreeBuilder", "SyntaxTreeBuilder"), ("builder::intersperse_trivia(source, tokens, &parser_output, $$x);", "intersperse_trivia(source, tokens, &parser_output, &mut builder, Ghost(ev));"),
                 ("parser_output: crate::Output", "parser_output: Output, Ghost(ev): Ghost<Seq<Event>>"), ("parser_output: Output", "parser_output: Output"), ("tombi_rg_tree::GreenNode", "GreenNode")]),
    Fn(PSD, "Parsed::new", header="impl Parsed", rewrites=[("-> Parsed<T>", "-> Parsed"), ("_ty: PhantomData,", ""), ("tombi_rg_tree::GreenNode", "GreenNode"), ("tombi_text::LineEnding", "LineEnding")], ensures="r.green_tree == green_tree"),
    Fn(LIBP, "fn parse_as", rename="parse_as", rewrites=[("<P: Parse>", ""), ("P::parse(&mut p);", "Root::parse(&mut p);"), ("-> Parsed<SyntaxNode>", "-> Parsed"), ("tombi_lexer::lex(source)", "vx_lex(source)"),
          ("crate::event::process(events)", "process(events)"), ("build_green_tree(source, &tokens, output)", "build_green_tree(source, &tokens, output, Ghost(ev))"), ("let output =", "let ghost ev = events@; let output ="),
          ("lexed.errors.into_iter().map(Into::into).collect_vec()", "vx_conv(lexed.errors)"), ("errors.extend(errs)", "vx_extend_errors(&mut errors, errs)")],
       requires="blen(source@) <= i32::MAX", ensures="ntext(r.green_tree) == source@"),
    Fn(LIBP, "fn parse", rewrites=[("-> Parsed<SyntaxNode>", "-> Parsed"), ("parse_as::<tombi_ast::Root>(source)", "parse_as(source)")], requires="blen(source@) <= i32::MAX", ensures="ntext(r.green_tree) == source@"),
]
LASTSPEC = r"""
impl SyntaxTreeBuilder { pub fn vx_default() -> (r: SyntaxTreeBuilder) ensures r.ok(), r.fresh() { SyntaxTreeBuilder { inner: GreenNodeBuilder::vx_default(), errors: Vec::new() } } }
#[verifier::external_body] pub struct LexError;
pub struct VxLexed { pub tokens: Vec<Token>, pub errors: Vec<LexError>, pub line_ending: LineEnding }
/// tombi_lexer::lex: its contract is proved in the lexer unit (lex and lemma_parser_input there); both facts are proved there (lemma_parser_input)
#[verifier::external_body]
pub fn vx_lex(source: &str) -> (r: VxLexed) requires blen(source@) <= i32::MAX ensures parser_input(r.tokens@, source@), floats_ok(r.tokens@, source@) { unimplemented!() }
#[verifier::external_body] pub fn vx_conv(e: Vec<LexError>) -> Vec<PError> { unimplemented!() }
#[verifier::external_body] pub fn vx_extend_errors(a: &mut Vec<PError>, b: Vec<PError>) { unimplemented!() }
pub struct Parsed { pub green_tree: GreenNode, pub errors: Vec<PError>, pub line_ending: LineEnding }
"""


def tree_parts():
    pub = lambda *n: [(x + ":", "pub " + x + ":") for x in n]
    step = lambda n: [("enum Step", "enum " + n)]
    for q in TREE:
        q.ensures = _sub(q.ensures)
        if q.file == OUT:
            q.rewrites = list(q.rewrites) + out_rules() + [("Step::", "OStep::"), ("(($$x) as u16).into()", "vx_kind(($$x) as u16)"), ("self.errors[$$x].clone()", "vx_clone_err(&self.errors[$$x])")]
        if q.file == GB:
            q.rewrites = list(q.rewrites) + [("SyntaxKind", "RawKind")]
        if q.file == BLD:
            q.rewrites = list(q.rewrites) + [("OStep::$X", "OStep::$X"), ("Step::", "BStep::"), ("&'c mut dyn FnMut(Step<'_>)", "&'c mut SyntaxTreeBuilder"), ("(self.sink)($$x)", "vx_sink(self.sink, $$x)"), ("(builder.sink)($$x)", "vx_sink(builder.sink, $$x)"),
                                             ("std::mem::replace(&mut $a.state, $$x)", "vx_replace_state(&mut $a.state, $$x)")]
        q.rewrites = list(q.rewrites) + [("unreachable!()", "vx_unreachable()")]
    return [
        Raw(OUT, "struct Output", attrs="", rewrites=pub("events", "errors")), Raw(OUT, "enum Step", attrs="", rewrites=step("OStep")),
        Raw(UT, "enum NodeOrToken", attrs=""),
        Raw(GB, "struct GreenNodeBuilder", attrs="", rewrites=[("<'cache>", ""), ("CowMut<'cache, NodeCache>", "NodeCache"), ("SyntaxKind", "RawKind")] + pub("cache", "parents", "children")),
        Raw(STB, "struct SyntaxTreeBuilder", attrs="", rewrites=[("Vec<E>", "Vec<PError>"), ("<E>", ""), ("tombi_rg_tree::GreenNodeBuilder<'static>", "GreenNodeBuilder")] + pub("inner", "errors")),
        Raw(BLD, "struct Builder", attrs="", rewrites=[("&'c mut dyn FnMut(Step<'_>)", "&'c mut SyntaxTreeBuilder")] + pub("source", "token_index", "tokens", "state", "sink")),
        Raw(BLD, "enum State", attrs=""), Raw(BLD, "enum Step", attrs="", rewrites=step("BStep")),
        Text(_sub(TREESPEC())), Text(LASTSPEC),
    ]


def build():
    types = [Text(STR), *tt.TYPES, *tt.FNS, Raw(KIND, "enum SyntaxKind", attrs=tt.DER + "\n#[repr(u16)]"),
             Raw(TOK, "struct Token", rewrites=[("kind:", "pub kind:"), ("span:", "pub span:"), ("range:", "pub range:")], attrs=tt.DER),
             *HDRV, Text(PINPUT), Text(SHIM), Text(SPEC), Text(FIN), Text(PSPEC), Text(STRUCTS),
             Fn(KIND, "SyntaxKind::is_trivia", rewrites=[("matches!(self, SyntaxKind::WHITESPACE)", "match self { SyntaxKind::WHITESPACE => true, _ => false }")], ensures="r == triv(self)"),
             Fn(TOK, "Token::new", ensures="r.kind == kind, r.span == p.0, r.range == p.1", pre=lx.unpack),
             Fn(TOK, "Token::eof", rewrites=[("tombi_text::Span::MAX", "vx_span_max()"), ("tombi_text::Range::MAX", "vx_range_max()"), ("const fn", "fn")], ensures="r.kind == SyntaxKind::EOF"),
             Fn(TOK, "Token::kind", ensures="r == self.kind"), Fn(TOK, "Token::span", ensures="r == self.span"), Fn(TOK, "Token::range", ensures="r == self.range"),
             ]
    return Unit("parser", types + TSETS + [Text(BITS)] + consts() + tree_parts() + [Mod("m", [Text("broadcast use super::ext_trans;")] + PRIM + PARSE + TREE)], rewrites=lx.t_rules() + RW)


UNIT = build()
