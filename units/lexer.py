import re
from vgen import *
from rsx import tokenize, find_closures
from shims import *
import text_types as tt

X = "crates/tombi-lexer/src/"
LIB, CUR, LEXD, TOK, ERR = X + "lib.rs", X + "cursor.rs", X + "lexed.rs", X + "token.rs", X + "error.rs"
KIND = "crates/tombi-syntax/src/generated/syntax_kind.rs"

CHARS = r'''
/// std::str::Chars: `src` is the whole text, `pos` how many characters were consumed.
#[verifier::external_body]
pub struct PkChars<'a> { it: std::str::Chars<'a> }
impl<'a> PkChars<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.src().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).src() == old(self).src(), final(self).wf(), old(self).wf(),
            old(self).pos() == old(self).src().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).src().len() ==> r == Some(old(self).src()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
    { self.it.next() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PkChars<'a>) ensures r.src() == self.src(), r.pos() == self.pos() { PkChars { it: self.it.clone() } }
}
#[verifier::external_body]
pub fn vx_chars<'a>(s: &'a str) -> (r: PkChars<'a>) ensures r.src() == s@, r.pos() == 0, r.wf() { PkChars { it: s.chars() } }
/// it.clone().nth(k)
#[verifier::external_body]
pub fn vx_nth<'a>(it: &PkChars<'a>, k: usize) -> (r: Option<char>)
    ensures it.wf(), it.pos() + k < it.src().len() ==> r == Some(it.src()[it.pos() + k]), it.pos() + k >= it.src().len() ==> r is None,
{ it.it.clone().nth(k) }
/// it.as_str().is_empty()
#[verifier::external_body]
pub fn vx_rest_empty<'a>(it: &PkChars<'a>) -> (r: bool) ensures it.wf(), r == (it.pos() == it.src().len()) { it.it.as_str().is_empty() }
#[verifier::external_body]
pub fn vx_len_utf8(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
#[verifier::external_body]
pub fn vx_is_ascii_digit(c: char) -> (r: bool) ensures r == ('0' <= c && c <= '9') { c.is_ascii_digit() }
#[verifier::external_body]
pub fn vx_eq(a: Option<char>, b: Option<char>) -> (r: bool) ensures r == (a == b) { a == b }
#[verifier::external_body]
pub fn vx_one_of2(a: &str, b: &str, s: &str) -> (r: bool) ensures r == (s@ == a@ || s@ == b@) { [a, b].contains(&s) }
#[verifier::external_body]
pub fn vx_span_max() -> Span { unimplemented!() }
#[verifier::external_body]
pub fn vx_range_max() -> Range { unimplemented!() }
pub fn vx_is_multiple_of(a: usize, b: usize) -> (r: bool) requires b != 0, ensures r == (a % b == 0) { a % b == 0 }
#[verifier::external_body]
pub fn vx_relpos_of(s: &str) -> (r: RelativePosition) ensures s@.len() == 0 ==> r.line == 0 && r.column == 0, r.line <= s@.len(), r.column <= s@.len()
{ unimplemented!() }
'''

SPEC = r'''
pub open spec fn posof(s: Seq<char>) -> (nat, nat) decreases s.len() {
    if s.len() == 0 { (0, 0) } else { let (l, c) = posof(s.drop_last()); if s.last() == '\n' { (l + 1, 0) } else { (l, c + 1) } }
}
pub proof fn lemma_posof_le(s: Seq<char>)
    ensures posof(s).0 <= s.len(), posof(s).1 <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_posof_le(s.drop_last()); } }
pub proof fn lemma_posof_push(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures posof(s.take(i + 1)) == (if s[i] == '\n' { ((posof(s.take(i)).0 + 1) as nat, 0nat) } else { (posof(s.take(i)).0, (posof(s.take(i)).1 + 1) as nat) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub proof fn lemma_posof_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures posof(s.take(i)).0 < posof(s.take(j)).0 || (posof(s.take(i)).0 == posof(s.take(j)).0 && posof(s.take(i)).1 <= posof(s.take(j)).1),
    decreases j - i,
{ if i < j { lemma_posof_mono(s, i, j - 1); lemma_posof_push(s, j - 1); } }

pub open spec fn sp_ws(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn sp_lb(c: char) -> bool { c == '\r' || c == '\n' }
pub open spec fn sp_sep(c: char) -> bool { c == '{' || c == '}' || c == '[' || c == ']' || c == ',' || c == '=' || c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '#' || c == '\0' }
pub open spec fn sp_sepdot(c: char) -> bool { sp_sep(c) || c == '.' }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }

pub open spec fn at_pos(p: Position, s: Seq<char>, i: int) -> bool { p.line == posof(s.take(i)).0 && p.column == posof(s.take(i)).1 }
pub open spec fn fits(s: Seq<char>) -> bool { blen(s) <= i32::MAX }
impl<'a> Cursor<'a> {
    pub open spec fn src(&self) -> Seq<char> { self.chars.src() }
    /// characters consumed
    pub open spec fn p(&self) -> int { self.chars.pos() }
    /// character index where the current token starts
    pub open spec fn t(&self) -> int { cidx(self.src(), self.token_start_offset.raw as int) }
    pub open spec fn wf(&self) -> bool {
        &&& self.chars.wf() && fits(self.src())
        &&& self.current_offset.raw == blen(self.src().take(self.p()))
        &&& at_pos(self.current_position, self.src(), self.p())
        &&& at_byte(self.src(), self.token_start_offset.raw as int, self.t())
        &&& self.t() <= self.p()
        &&& at_pos(self.token_start_position, self.src(), self.t())
    }
    /// inside a token: `current` is the last consumed character
    pub open spec fn on(&self) -> bool { self.wf() && self.t() < self.p() && self.current_char == self.src()[self.p() - 1] }
    /// as `on`, but a failed bump at the end of the text may have set current to EOF_CHAR
    pub open spec fn past(&self) -> bool { self.wf() && self.t() < self.p() && (self.current_char == self.src()[self.p() - 1] || (self.p() == self.src().len() && self.current_char == '\0')) }
    pub open spec fn same(&self, o: Cursor<'a>) -> bool {
        self.src() == o.src() && self.token_start_offset == o.token_start_offset && self.token_start_position == o.token_start_position && self.line_ending == o.line_ending
    }
    /// what peek(i) sees
    pub open spec fn ahead(&self, i: int) -> char { if self.p() + i - 1 < self.src().len() { self.src()[self.p() + i - 1] } else { '\0' } }
    pub open spec fn ended(&self, o: Cursor<'a>) -> bool { self.wf() && self.src() == o.src() && self.t() == self.p() && self.p() >= o.p() }
}
/// `span`/`range` are where characters a..b of s are
pub open spec fn placed(span: Span, range: Range, s: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a <= b <= s.len()
    &&& span.start.raw == blen(s.take(a)) && span.end.raw == blen(s.take(b))
    &&& at_pos(range.start, s, a) && at_pos(range.end, s, b)
}
pub open spec fn quoted(s: Seq<char>, q: char, n: int) -> bool {
    s.len() >= 2 * n && (forall|i: int| 0 <= i < n ==> s[i] == q) && (forall|i: int| s.len() - n <= i < s.len() ==> s[i] == q)
}
pub open spec fn one(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
/// what the text of a token of each kind looks like
pub open spec fn shape(k: SyntaxKind, s: Seq<char>) -> bool {
    match k {
        SyntaxKind::BASIC_STRING => quoted(s, '"', 1),
        SyntaxKind::LITERAL_STRING => quoted(s, '\'', 1),
        SyntaxKind::MULTI_LINE_BASIC_STRING => quoted(s, '"', 3),
        SyntaxKind::MULTI_LINE_LITERAL_STRING => quoted(s, '\'', 3),
        SyntaxKind::WHITESPACE => forall|i: int| 0 <= i < s.len() ==> sp_ws(#[trigger] s[i]),
        SyntaxKind::LINE_BREAK => s == seq!['\n'] || s == seq!['\r', '\n'],
        SyntaxKind::COMMENT => s.len() > 0 && s[0] == '#' && forall|i: int| 0 <= i < s.len() ==> !sp_lb(#[trigger] s[i]),
        SyntaxKind::COMMA => one(s, ','), SyntaxKind::DOT => one(s, '.'), SyntaxKind::EQUAL => one(s, '='),
        SyntaxKind::BRACKET_START => one(s, '['), SyntaxKind::BRACKET_END => one(s, ']'),
        SyntaxKind::BRACE_START => one(s, '{'), SyntaxKind::BRACE_END => one(s, '}'),
        SyntaxKind::BOOLEAN => (s.len() == 4 && s[0] == 't' && s[1] == 'r' && s[2] == 'u' && s[3] == 'e') || (s.len() == 5 && s[0] == 'f' && s[1] == 'a' && s[2] == 'l' && s[3] == 's' && s[4] == 'e'),
        SyntaxKind::BARE_KEY => true,
        SyntaxKind::INTEGER_DEC => re_num(REGEX_INTEGER_DEC.id, s), SyntaxKind::INTEGER_HEX => re_num(REGEX_INTEGER_HEX.id, s),
        SyntaxKind::INTEGER_OCT => re_num(REGEX_INTEGER_OCT.id, s), SyntaxKind::INTEGER_BIN => re_num(REGEX_INTEGER_BIN.id, s),
        SyntaxKind::FLOAT => re_num(REGEX_FLOAT.id, s) || inf_nan(s) || (s.len() > 0 && (s[0] == '+' || s[0] == '-') && inf_nan(s.skip(1))),
        SyntaxKind::OFFSET_DATE_TIME => re(REGEX_OFFSET_DATE_TIME.id, s), SyntaxKind::LOCAL_DATE_TIME => re(REGEX_LOCAL_DATE_TIME.id, s),
        SyntaxKind::LOCAL_DATE => re(REGEX_LOCAL_DATE.id, s), SyntaxKind::LOCAL_TIME => re(REGEX_LOCAL_TIME.id, s),
        _ => false,
    }
}
/// is the character after s escaped by a backslash
pub open spec fn esc(s: Seq<char>) -> bool decreases s.len() { s.len() > 0 && !esc(s.drop_last()) && s.last() == '\\' }
pub proof fn lemma_esc(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b < s.len(),
    ensures esc(s.subrange(a, b + 1)) == (!esc(s.subrange(a, b)) && s[b] == '\\'),
{ assert(s.subrange(a, b + 1).drop_last() =~= s.subrange(a, b)); }
/// an unescaped double quote at k, for a basic string whose opening quote is at t
pub open spec fn bclose(s: Seq<char>, t: int, k: int) -> bool { t < k < s.len() && s[k] == '"' && !esc(s.subrange(t + 1, k)) }
pub open spec fn three(s: Seq<char>, q: char, k: int) -> bool { 0 <= k && k + 2 < s.len() && s[k] == q && s[k + 1] == q && s[k + 2] == q }
/// an unescaped closing delimiter at k, for a multi-line basic string whose opening delimiter is at t
pub open spec fn mbclose(s: Seq<char>, t: int, k: int) -> bool { t + 3 <= k && three(s, '"', k) && !esc(s.subrange(t + 3, k)) }
pub open spec fn mlclose(s: Seq<char>, t: int, k: int) -> bool { t + 3 <= k && three(s, '\'', k) }
/// k..p is a maximal run of q
pub open spec fn run(s: Seq<char>, q: char, k: int, p: int) -> bool { k < p <= s.len() && (forall|i: int| k <= i < p ==> s[i] == q) && (p < s.len() ==> s[p] != q) }
/// a string token ends at its first unescaped closing delimiter; if none comes (in time) it is an error
pub open spec fn basic_end(ok: bool, s: Seq<char>, t: int, p: int) -> bool {
    (forall|j: int| t < j < p - 1 ==> !bclose(s, t, j)) && (ok ==> bclose(s, t, p - 1))
    && (!ok ==> !bclose(s, t, p - 1) && (p == s.len() || sp_lb(s[p])))
}
pub open spec fn literal_end(ok: bool, s: Seq<char>, t: int, p: int) -> bool {
    (forall|j: int| t < j < p - 1 ==> s[j] != '\'') && (ok ==> p - 1 > t && s[p - 1] == '\'')
    && (!ok ==> (p - 1 == t || s[p - 1] != '\'') && (p == s.len() || sp_lb(s[p])))
}
pub open spec fn ml_end(ok: bool, basic: bool, q: char, s: Seq<char>, t: int, p: int) -> bool {
    if exists|k: int| #[trigger] mclose(basic, s, t, k) {
        exists|k: int| #![trigger run(s, q, k, p)] mclose(basic, s, t, k) && (forall|j: int| j < k ==> !#[trigger] mclose(basic, s, t, j)) && run(s, q, k, p) && (ok <==> p - k <= 5)
    } else { !ok && p == s.len() }
}
pub open spec fn mclose(basic: bool, s: Seq<char>, t: int, k: int) -> bool { if basic { mbclose(s, t, k) } else { mlclose(s, t, k) } }
/// kinds that only end where something that is no part of them follows
pub open spec fn bounded(k: SyntaxKind, s: Seq<char>, b: int) -> bool {
    match k {
        SyntaxKind::BARE_KEY | SyntaxKind::INTEGER_DEC | SyntaxKind::INTEGER_HEX | SyntaxKind::INTEGER_OCT | SyntaxKind::INTEGER_BIN | SyntaxKind::FLOAT | SyntaxKind::BOOLEAN
        | SyntaxKind::OFFSET_DATE_TIME | SyntaxKind::LOCAL_DATE_TIME | SyntaxKind::LOCAL_DATE | SyntaxKind::LOCAL_TIME => b >= s.len() || sp_sepdot(s[b]),
        SyntaxKind::COMMENT => b >= s.len() || sp_lb(s[b]),
        SyntaxKind::WHITESPACE => b >= s.len() || !sp_ws(s[b]),
        _ => true,
    }
}
pub open spec fn tok_ok(k: SyntaxKind, span: Span, range: Range, s: Seq<char>, a: int, b: int) -> bool {
    placed(span, range, s, a, b) && a < b && shape(k, s.subrange(a, b)) && bounded(k, s, b)
}
/// outcome of one scan from character a
pub open spec fn scanned(r: Result<Token, Error>, s: Seq<char>, a: int, b: int) -> bool {
    match r {
        Ok(t) => tok_ok(t.kind, t.span, t.range, s, a, b),
        Err(e) => placed(e.span, e.range, s, a, b) && a < b,
    }
}
pub open spec fn wf_tokens(ts: Seq<Token>, s: Seq<char>, b: int) -> bool {
    exists|cuts: Seq<int>| #[trigger] cut_at(cuts, ts, s, b)
}
/// cuts[i]..cuts[i+1] are the characters of token i; the tokens are contiguous, non-empty and cover s[0..b]
pub open spec fn cut_at(cuts: Seq<int>, ts: Seq<Token>, s: Seq<char>, b: int) -> bool {
    &&& cuts.len() == ts.len() + 1 && cuts[0] == 0 && cuts.last() == b
    &&& forall|i: int| 0 <= i < ts.len() ==> #[trigger] token_at(ts[i], s, cuts[i], cuts[i + 1])
}
pub open spec fn token_at(t: Token, s: Seq<char>, a: int, b: int) -> bool {
    placed(t.span, t.range, s, a, b) && a < b && (t.kind == SyntaxKind::INVALID_TOKEN || (shape(t.kind, s.subrange(a, b)) && bounded(t.kind, s, b)))
}
/// spans of the invalid tokens, in order
pub open spec fn inv_spans(ts: Seq<Token>) -> Seq<(Span, Range)> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { let r = inv_spans(ts.drop_last()); if ts.last().kind == SyntaxKind::INVALID_TOKEN { r.push((ts.last().span, ts.last().range)) } else { r } }
}
pub open spec fn err_spans(es: Seq<Error>) -> Seq<(Span, Range)> { Seq::new(es.len(), |i: int| (es[i].span, es[i].range)) }

// ---- the four regular-expression tests the tiling depends on (trusted: what the expressions mean)
pub struct Regex { pub id: u32 }
pub struct Match { pub a: usize, pub b: usize }
impl Match {
    pub fn end(&self) -> (r: usize) ensures r == self.b { self.b }
    pub fn start(&self) -> (r: usize) ensures r == self.a { self.a }
}
pub open spec fn date_head(s: Seq<char>) -> bool { s.len() >= 10 && forall|i: int| 0 <= i < 10 ==> digit(#[trigger] s[i]) || s[i] == '-' }
/// the language of the pattern (uninterpreted: the regex engine is trusted)
pub uninterp spec fn re(id: u32, s: Seq<char>) -> bool;
#[verifier::external_body]
pub proof fn axiom_re(id: u32, s: Seq<char>)
    ensures re(REGEX_IS_DATE_TIME.id, s) ==> date_head(s),
        id != REGEX_IS_DATE_TIME.id && re(id, s) ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80,
{}
#[verifier::external_body]
pub fn vx_is_match(re: &Regex, s: &str) -> (r: bool) ensures r == crate::re(re.id, s@) { unimplemented!() }
/// every pattern used with find is anchored at both ends (checked when this file is generated)
#[verifier::external_body]
pub fn vx_find(re: &Regex, s: &str) -> (r: Option<Match>)
    ensures r is Some <==> crate::re(re.id, s@), r is Some ==> r->0.a == 0 && r->0.b == blen(s@) && blen(s@) == s@.len(),
{ unimplemented!() }
/// an optional sign, then a text of pattern id
#[verifier::opaque]
pub open spec fn re_num(id: u32, s: Seq<char>) -> bool { re(id, s) || (s.len() > 0 && (s[0] == '+' || s[0] == '-') && re(id, s.skip(1))) }
pub proof fn lemma_re_num(s: Seq<char>, t: int, p: int, n: int)
    requires 0 <= t < p <= n <= s.len(), t == p - 1 || (t == p - 2 && (s[t] == '+' || s[t] == '-')),
    ensures forall|id: u32| #[trigger] re(id, s.subrange(p - 1, n)) ==> re_num(id, s.subrange(t, n)),
{
    reveal(re_num);
    if t == p - 2 { assert(s.subrange(t, n).skip(1) =~= s.subrange(p - 1, n)); }
}
/// the text of a float word that ends n
pub proof fn lemma_inf(s: Seq<char>, a: int, w: Seq<char>)
    requires 0 <= a, a + 3 <= s.len(), w.len() == 3, inf_nan(w), s.subrange(a, a + 3) == w,
    ensures shape(SyntaxKind::FLOAT, s.subrange(a, a + 3)), a > 0 && (s[a - 1] == '+' || s[a - 1] == '-') ==> shape(SyntaxKind::FLOAT, s.subrange(a - 1, a + 3)),
{ if a > 0 { assert(s.subrange(a - 1, a + 3).skip(1) =~= w); } }
pub open spec fn inf_nan(s: Seq<char>) -> bool {
    (s.len() == 3 && ((s[0] == 'i' && s[1] == 'n' && s[2] == 'f') || (s[0] == 'n' && s[1] == 'a' && s[2] == 'n')))
}
pub proof fn lemma_take1(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures blen(s.take(i + 1)) == blen(s.take(i)) + clen(s[i]),
{ assert(s.take(i + 1) =~= s.take(i) + seq![s[i]]); lemma_blen_concat(s.take(i), seq![s[i]]); lemma_blen_one(s[i]); }
pub proof fn lemma_lit(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s) == s.len(),
{ lemma_blen_ascii(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_blen_ascii(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s.take(n)) == n,
    decreases n,
{
    if n > 0 { lemma_blen_ascii(s, n - 1); assert(s.take(n) =~= s.take(n - 1) + seq![s[n - 1]]); lemma_blen_concat(s.take(n - 1), seq![s[n - 1]]); lemma_blen_one(s[n - 1]); }
    else { assert(s.take(0) =~= Seq::<char>::empty()); }
}
'''

REGEXES = ["REGEX_INTEGER_BIN", "REGEX_INTEGER_OCT", "REGEX_INTEGER_HEX", "REGEX_INTEGER_DEC", "REGEX_FLOAT", "REGEX_IS_DATE_TIME",
           "REGEX_OFFSET_DATE_TIME", "REGEX_LOCAL_DATE_TIME", "REGEX_LOCAL_DATE", "REGEX_LOCAL_TIME"]


def check_regexes():
    """what the trusted regex contracts rely on: ASCII-only patterns without wildcards, anchored at both ends"""
    src = F(LIB).src
    for n in REGEXES:
        m = re.search(r"static " + n + r"\s*=\s*r\"([^\"]*)\"", src)
        if not m:
            raise Lost(f"pattern {n} is gone")
        pat = m.group(1)
        if not pat.isascii() or not pat.startswith("^") or (not pat.endswith("$") and n != "REGEX_IS_DATE_TIME"):
            raise Lost(f"pattern {n} is not anchored: {pat}")
        bare = re.sub(r"\[[^\]^][^\]]*\]", "x", pat)
        if re.search(r"\\[^.]", bare) or re.search(r"(?<!\\)\.", bare) or "[^" in bare:
            raise Lost(f"pattern {n} has a wildcard: {pat}")
        d, top = 0, False
        for c in bare:
            d += (c == "(") - (c == ")")
            top |= c == "|" and d == 0
        if top:
            raise Lost(f"pattern {n} has a top-level alternative: {pat}")


def t_rules():
    check_regexes()
    f = F(KIND)
    src = f.src[f.src.index("macro_rules ! T"):]
    out = []
    for k, n in re.findall(r"\[('.'|\"[^\"]+\"|[\w,.=]+)\] => \{ \$ crate :: SyntaxKind :: (\w+) \}", src):
        out.append((f"T!({k})", f"SyntaxKind::{n}"))
        out.append((f"T![{k}]", f"SyntaxKind::{n}"))
    if len(out) < 20:
        raise Lost("macro T! changed shape")
    return out


RW = tt.RULES + [
    ("crate::Error", "Error"), ("crate::Token", "Token"), ("tombi_syntax::SyntaxKind", "SyntaxKind"),
    ("std::str::Chars<'a>", "PkChars<'a>"), ("pub(crate)", "pub"), ("Cursor<'_>", "Cursor<'a>"),
    ("chars.clone().next()", "vx_nth(&chars, 0)"),
    ("self.chars.clone().nth($$k)", "vx_nth(&self.chars, $$k)"),
    ("self.chars.as_str().is_empty()", "vx_rest_empty(&self.chars)"),
    ("c.len_utf8()", "vx_len_utf8(c)"),
    ("self.current_offset += $$x;", "self.current_offset.add_assign($$x);"),
    ("self.current_position += $$x;", "self.current_position.add_assign($$x);"),
    ("let iter = self.chars.clone();", "let mut iter = self.chars.clone();"),
    ("for c in iter { $$b }", "while let Some(c) = iter.next() { $$b }"),
    ("for (i, c) in iter.enumerate() { $$b }", "let mut i: usize = 0; while let Some(c) = iter.next() { $$b i += 1; }"),
    ("for _ in $$r {", "for _i in $$r {"),
    ("s.push($$x)", "vx_push(&mut s, $$x)"),
    ("String::with_capacity($$x)", "String::new()"),
    ("iter.next() != Some($$x)", "!vx_eq(iter.next(), Some($$x))"),
    ("mut predicate: impl FnMut(char) -> bool", "predicate: impl Fn(char) -> bool"),
    ("self.current().is_ascii_digit()", "vx_is_ascii_digit(self.current())"),
    ("self.peek($x).is_ascii_digit()", "vx_is_ascii_digit(self.peek($x))"),
    ("[$L_a, $L_b].contains(&$$e.as_str())", "vx_one_of2({ proof { reveal_strlit($L_a); } $L_a }, { proof { reveal_strlit($L_b); } $L_b }, &$$e)"),
    ("expected.chars()", "vx_chars(expected)"), ("input.chars()", "vx_chars(input)"),
    ("keyword.len()", "vx_len(keyword)"), ("source.len()", "vx_len(source)"),
    ("last_quotes.len()", "vx_len(&last_quotes)"),
    ("$R.is_match(&$$s)", "vx_is_match(&$R, &$$s)"), ("$R.find(&$$s)", "vx_find(&$R, &$$s)"),
    ("&line[..10]", "vx_slice_to(&line, 10)"), ("&vx_slice_to", "vx_slice_to"),
    ("idx.is_multiple_of($$x)", "vx_is_multiple_of(idx, $$x)"),
    ("bits::BITS", "64u32"), ("Vec<bits>", "Vec<u64>"),
    ("self.matches($L_l)", "self.matches({ proof { reveal_strlit($L_l); } $L_l })"),
    ("self.is_keyword($L_l)", "self.is_keyword({ proof { reveal_strlit($L_l); lemma_lit($L_l@); } $L_l })"),
]


def specify(body):
    for a, b in (("is_token_separator_with_dot(", "sp_sepdot("), ("is_token_separator(", "sp_sep("), ("is_whitespace(", "sp_ws("), ("is_line_break(", "sp_lb(")):
        body = body.replace(a, b)
    return body


def auto(params, body):
    p = params.strip("|").split(":")[0].strip()
    return f"|{p}: char| -> (b: bool) ensures b == ({specify(body)})"


AUTO = {"*": auto}
TOKF = dict(requires="old(self).on()", ensures="final(self).ended(*old(self)), scanned(r, old(self).src(), old(self).t(), final(self).p())")
ENTRY = "broadcast use lemma_sub; "


def inline_date(text):
    """peek_with_current_while's own body, inlined where its closure mutates a captured counter"""
    f = F(CUR)
    it = f.find("Cursor<'a>::peek_with_current_while") if False else f.find("Cursor::peek_with_current_while")
    body = strip_comments(f.src[it.body[0]:it.body[1]])
    T = tokenize(text)
    cl = find_closures(T, 0, len(T))
    for c in cl:
        b = text[T[c["b"]].s:T[c["be"] - 1].e]
        if "index +=" in b or "index+=" in b:
            m = re.search(r"self\s*\.\s*peek_with_current_while\(\s*$", text[:T[c["start"]].s])
            if not m:
                break
            nb = body.replace("predicate(c)", b)
            if nb == body:
                break
            # `{ stmts; s }` as a block expression
            end = T[c["be"] - 1].e
            while text[end] != ")":
                end += 1
            return text[:m.start()] + "{" + nb + "}" + text[end + 1:]
    raise Lost("date_time: the look-ahead closure changed shape")


def tokenize_step(text):
    """the closure that drives `tokenize`'s from_fn, as a function"""
    T = tokenize(text)
    cl = find_closures(T, 0, len(T))
    m = re.search(r"from_fn\(\s*move\s*$", text[:T[cl[0]["start"]].s]) if cl else None
    if len(cl) != 1 or not m:
        raise Lost("fn tokenize is not one from_fn over a closure")
    c = cl[0]
    return "pub fn tokenize(cursor: &mut Cursor) -> Option<Result<Token, Error>> { " + text[T[c["b"]].s:T[c["be"] - 1].e] + " }"


CK = "impl<'a> Cursor<'a>"
SELFR = "final(self).same(*old(self)), final(self).wf()"


def cur(name, **k):
    return Fn(CUR, f"Cursor::{name}", header=CK, **k)


def lx(name, **k):
    return Fn(LIB, f"Cursor::{name}", header=CK, **k)


def tokf(name, req="", ens="", **k):
    le = "" if name == "line_break" else ", final(self).line_ending == old(self).line_ending, r is Ok ==> r->Ok_0.kind != SyntaxKind::LINE_BREAK"
    return lx(name, requires="old(self).on()" + req, ensures=TOKF["ensures"] + le + ens, **k)


CURSOR = [
    cur("new", requires="fits(input@)", ensures="r.wf(), r.src() == input@, r.p() == 0, r.t() == 0, r.line_ending == LineEnding::Lf",
        rewrites=[("current_offset: Default::default()", "current_offset: Offset::vx_default()"), ("token_start_offset: Default::default()", "token_start_offset: Offset::vx_default()"),
                  ("current_position: Default::default()", "current_position: Position::vx_default()"), ("token_start_position: Default::default()", "token_start_position: Position::vx_default()"),
                  ("LineEnding::default()", "LineEnding::Lf")],
        entry="proof { assert(input@.take(0) =~= Seq::<char>::empty()); assert(blen(input@.take(0)) == 0); lemma_cidx(input@, 0); }"),
    cur("current", ensures="r == self.current_char"),
    cur("peek", requires="i != 0, self.chars.wf(), i < 0x1_0000_0000", ensures="r == self.ahead(i as int)"),
    cur("peek_while", requires="forall|c: char| predicate.requires((c,)), self.chars.wf()",
        ensures="forall|i: int| 0 <= i < r@.len() ==> predicate.ensures((#[trigger] r@[i],), true), self.p() + r@.len() <= self.src().len(), r@ == self.src().subrange(self.p(), self.p() + r@.len()), self.p() + r@.len() < self.src().len() ==> predicate.ensures((self.src()[self.p() + r@.len()],), false)",
        loops={0: Loop("while let", invariant="iter.src() == self.src(), iter.wf(), self.chars.wf(), self.p() <= iter.pos(), forall|c: char| predicate.requires((c,)), forall|i: int| 0 <= i < s@.len() ==> predicate.ensures((#[trigger] s@[i],), true)",
                       ieb="s@ == self.src().subrange(self.p(), iter.pos())",
                       ensures="self.p() + s@.len() <= self.src().len(), s@ == self.src().subrange(self.p(), self.p() + s@.len()), self.p() + s@.len() < self.src().len() ==> predicate.ensures((self.src()[self.p() + s@.len()],), false)",
                       start="proof { assert(self.src().subrange(self.p(), iter.pos() - 1) + seq![c] =~= self.src().subrange(self.p(), iter.pos())); }",
                       decreases="self.src().len() - iter.pos()")}),
    cur("peeks", requires="size > 0, self.chars.wf()", ensures="self.p() + r@.len() <= self.src().len(), r@ == self.src().subrange(self.p(), self.p() + r@.len()), r@.len() == size || self.p() + r@.len() == self.src().len(), r@.len() <= size",
        loops={0: Loop("for", invariant="self.chars.wf(), iter.src() == self.src(), iter.wf(), self.p() + s@.len() == iter.pos(), s@ == self.src().subrange(self.p(), iter.pos())",
               ieb="s@.len() == _i", ensures="s@.len() == size || iter.pos() == self.src().len(), s@.len() <= size",
               start="proof { if iter.pos() < self.src().len() { assert(self.src().subrange(self.p(), iter.pos()) + seq![self.src()[iter.pos()]] =~= self.src().subrange(self.p(), iter.pos() + 1)); } }")}),
    cur("peeks_with_current", requires="size > 0, self.wf(), self.on()",
        ensures="self.p() - 1 + r@.len() <= self.src().len(), r@ == self.src().subrange(self.p() - 1, self.p() - 1 + r@.len())",
        loops={0: Loop("for", invariant="self.on(), iter.src() == self.src(), iter.wf(), self.p() - 1 + s@.len() == iter.pos(), s@ == self.src().subrange(self.p() - 1, iter.pos())",
               before="proof { assert(s@ =~= self.src().subrange(self.p() - 1, self.p())); }",
               start="proof { if iter.pos() < self.src().len() { assert(self.src().subrange(self.p() - 1, iter.pos()) + seq![self.src()[iter.pos()]] =~= self.src().subrange(self.p() - 1, iter.pos() + 1)); } }")}),
    cur("peek_with_current_while", requires="forall|c: char| predicate.requires((c,)), self.on()",
        ensures="""r@.len() >= 1, self.p() - 1 + r@.len() <= self.src().len(), r@ == self.src().subrange(self.p() - 1, self.p() - 1 + r@.len()),
            forall|i: int| self.p() <= i < self.p() - 1 + r@.len() ==> predicate.ensures((#[trigger] self.src()[i],), true),
            self.p() - 1 + r@.len() < self.src().len() ==> predicate.ensures((self.src()[self.p() - 1 + r@.len()],), false)""",
        loops={0: Loop("while let", invariant="iter.wf(), self.on(), iter.src() == self.src(), self.p() <= iter.pos(), forall|c: char| predicate.requires((c,)), s@.len() >= 1, forall|i: int| self.p() <= i < self.p() - 1 + s@.len() ==> predicate.ensures((#[trigger] self.src()[i],), true)",
               ieb="s@ == self.src().subrange(self.p() - 1, iter.pos())",
               before="proof { assert(s@ =~= self.src().subrange(self.p() - 1, self.p())); }",
               ensures="self.p() - 1 + s@.len() <= self.src().len(), s@ == self.src().subrange(self.p() - 1, self.p() - 1 + s@.len()), self.p() - 1 + s@.len() < self.src().len() ==> predicate.ensures((self.src()[self.p() - 1 + s@.len()],), false)",
               start="proof { assert(self.src().subrange(self.p() - 1, iter.pos() - 1) + seq![c] =~= self.src().subrange(self.p() - 1, iter.pos())); }",
               decreases="iter.src().len() - iter.pos()")}),
    cur("matches", requires="self.chars.wf(), expected@.len() < 100",
        ensures="r == (expected@.len() > 0 && self.current_char == expected@[0] && forall|i: int| #![trigger self.ahead(i)] #![trigger expected@[i]] 1 <= i < expected@.len() ==> self.ahead(i) == expected@[i])",
        
        loops={0: Loop("while let", invariant="self.chars.wf(), iter.src() == expected@, iter.wf(), iter.pos() == i + 1, expected@.len() > 0, expected@.len() < 100, self.current_char == expected@[0], forall|k: int| 1 <= k <= i ==> self.ahead(k) == #[trigger] expected@[k]",
                       ensures="i + 1 == expected@.len()", decreases="expected@.len() - iter.pos()")}),
    cur("is_eof", requires="self.chars.wf()", ensures="r == (self.p() == self.src().len())"),
    cur("bump", requires="old(self).wf()",
        ensures=SELFR + """, final(self).t() == old(self).t(),
            old(self).p() < old(self).src().len() ==> r == Some(old(self).src()[old(self).p()]) && final(self).p() == old(self).p() + 1 && final(self).current_char == old(self).src()[old(self).p()],
            old(self).p() >= old(self).src().len() ==> r is None && final(self).p() == old(self).p() && final(self).current_char == '\\0'""",
        entry="""proof { let s = old(self).src(); let p = old(self).p(); if p < s.len() { lemma_posof_push(s, p); lemma_posof_le(s.take(p)); lemma_blen_split(s, p); lemma_blen_split(s, p + 1); lemma_blen_ge(s);
            assert(s.take(p + 1) =~= s.take(p) + seq![s[p]]); lemma_blen_concat(s.take(p), seq![s[p]]); lemma_blen_one(s[p]); } }"""),
    cur("eat_n", requires="old(self).wf(), n > 0",
        ensures=SELFR + """, final(self).t() == old(self).t(),
            old(self).p() + n <= old(self).src().len() ==> final(self).p() == old(self).p() + n && final(self).current_char == final(self).src()[final(self).p() - 1],
            old(self).p() + n > old(self).src().len() ==> final(self).p() == final(self).src().len() && final(self).current_char == '\\0'""",
        loops={0: Loop("for", invariant="self.same(*old(self)), self.wf(), self.t() == old(self).t(), n > 0",
               ieb="self.p() == old(self).p() + _i, _i > 0 ==> self.current_char == self.src()[self.p() - 1]",
               ensures="(self.p() == old(self).p() + n && self.current_char == self.src()[self.p() - 1]) || (self.p() == self.src().len() && old(self).p() + n > self.src().len() && self.current_char == '\\0')")}),
    cur("eat_while", requires="old(self).wf(), forall|c: char| predicate.requires((c,))",
        ensures=SELFR + """, final(self).t() == old(self).t(), final(self).p() >= old(self).p(),
            forall|i: int| old(self).p() <= i < final(self).p() ==> predicate.ensures((#[trigger] old(self).src()[i],), true),
            final(self).p() < old(self).src().len() ==> predicate.ensures((old(self).src()[final(self).p()],), false),
            final(self).p() == old(self).p() ==> final(self).current_char == old(self).current_char,
            final(self).p() > old(self).p() ==> final(self).current_char == final(self).src()[final(self).p() - 1]""",
        loops={0: Loop("while", invariant="""self.same(*old(self)), self.wf(), self.t() == old(self).t(), self.p() >= old(self).p(), forall|c: char| predicate.requires((c,)),
            forall|i: int| old(self).p() <= i < self.p() ==> predicate.ensures((#[trigger] old(self).src()[i],), true),
            self.p() == old(self).p() ==> self.current_char == old(self).current_char,
            self.p() > old(self).p() ==> self.current_char == self.src()[self.p() - 1]""",
            decreases="self.src().len() - self.p()")}),
    cur("pop_span_range", requires="old(self).wf()",
        ensures="""final(self).wf(), final(self).src() == old(self).src(), final(self).p() == old(self).p(), final(self).t() == final(self).p(), final(self).current_char == old(self).current_char, final(self).line_ending == old(self).line_ending,
            placed(r.0, r.1, old(self).src(), old(self).t(), old(self).p())""",
        entry="proof { let s = old(self).src(); lemma_cidx(s, old(self).p()); lemma_posof_mono(s, old(self).t(), old(self).p()); lemma_blen_mono(s, old(self).t(), old(self).p()); }"),
]
SCAN = [
    Fn(LIB, "fn is_whitespace", ensures="r == sp_ws(c)"),
    Fn(LIB, "fn is_line_break", ensures="r == sp_lb(c)"),
    Fn(LIB, "fn is_token_separator", ensures="r == sp_sep(c)"),
    Fn(LIB, "fn is_token_separator_with_dot", ensures="r == sp_sepdot(c)"),
    lx("is_whitespace", ensures="r == sp_ws(self.current_char)"),
    lx("is_line_break", ensures="r == sp_lb(self.current_char)"),
    tokf("whitespace", ", sp_ws(old(self).current_char), old(self).t() == old(self).p() - 1", ", r is Ok"),
    tokf("line_comment", ", old(self).current_char == '#', old(self).t() == old(self).p() - 1", ", r is Ok, final(self).p() < final(self).src().len() ==> sp_lb(final(self).src()[final(self).p()])", closures=AUTO),
    tokf("line_break", ", sp_lb(old(self).current_char), old(self).t() == old(self).p() - 1", """, r is Err <==> (old(self).current_char == '\\r' && old(self).ahead(1) != '\\n'),
        final(self).line_ending == (if r is Ok && crlf_tok(r->Ok_0, old(self).src()) { LineEnding::Crlf } else { old(self).line_ending }), r is Ok ==> r->Ok_0.kind == SyntaxKind::LINE_BREAK""",
        tail="proof { let s = old(self).src(); let t = old(self).t(); lemma_take1(s, t); if t + 1 < s.len() { lemma_take1(s, t + 1); } let tx = s.subrange(t, self.p()); if c == '\\n' { assert(tx =~= seq!['\\n']); } else { assert(tx =~= seq!['\\r', '\\n']); } }"),
    lx("is_keyword", requires="self.past(), 0 < blen(keyword@) < 50, keyword@.len() == blen(keyword@), forall|i: int| 0 <= i < keyword@.len() ==> #[trigger] keyword@[i] != '\0'",
       ensures="r ==> self.on() && self.p() - 1 + keyword@.len() <= self.src().len() && self.src().subrange(self.p() - 1, self.p() - 1 + keyword@.len()) == keyword@ && (self.p() - 1 + keyword@.len() == self.src().len() || sp_sepdot(self.src()[self.p() - 1 + keyword@.len()]))",
       exit="", pre=None, tail="""proof { if self.p() - 1 + keyword@.len() > self.src().len() { let j = self.src().len() - self.p() + 1; if j > 0 { assert(self.ahead(j) == '\0'); } assert(keyword@[j] != '\0'); assert(keyword@[0] != '\0'); }
            else { let w = self.src().subrange(self.p() - 1, self.p() - 1 + keyword@.len()); assert(keyword@[0] != '\0');
                assert((self.current_char == keyword@[0] && forall|i: int| #![trigger self.ahead(i)] #![trigger keyword@[i]] 1 <= i < keyword@.len() ==> self.ahead(i) == keyword@[i]) ==> w =~= keyword@) by {
                  if self.current_char == keyword@[0] && forall|i: int| #![trigger self.ahead(i)] #![trigger keyword@[i]] 1 <= i < keyword@.len() ==> self.ahead(i) == keyword@[i] { assert forall|i: int| 0 <= i < w.len() implies w[i] == keyword@[i] by { if i > 0 { assert(self.ahead(i) == keyword@[i]); } } } } } }"""),
    lx("is_date_time", requires="self.on(), digit(self.current_char)", ensures="r ==> date_head(self.src().skip(self.p() - 1))",
       entry="proof { assert forall|s: Seq<char>| #[trigger] re(REGEX_IS_DATE_TIME.id, s) implies date_head(s) by { axiom_re(0, s); } }"),
    tokf("date_time", ", digit(old(self).current_char), date_head(old(self).src().skip(old(self).p() - 1)), old(self).t() == old(self).p() - 1", "", closures=AUTO, pre=inline_date,
         entry="let ghost h = self.src().skip(self.p() - 1); proof { assert(h[0] == self.current_char); }",
         loops={0: Loop("while let",
            invariant="self.on(), self.same(*old(self)), self.t() == old(self).t(), self.p() == old(self).p(), iter.src() == self.src(), iter.wf(), h == self.src().skip(self.p() - 1), date_head(h), 0 <= index <= iter.pos(), s@.len() > 0, s@[0] == h[0], forall|i: int| 0 <= i < s@.len() && i < 10 ==> s@[i] == h[i]",
            ieb="index == iter.pos() - self.p(), s@.len() == index + 1, s@ == self.src().subrange(self.p() - 1, iter.pos())", ensures="s@.len() >= 10, self.p() - 1 + s@.len() <= self.src().len(), s@ == self.src().subrange(self.p() - 1, self.p() - 1 + s@.len())",
            decreases="self.src().len() - iter.pos()",
            before="proof { assert(s@ =~= self.src().subrange(self.p() - 1, self.p())); }",
            start="proof { lemma_blen_ge(self.src()); if index < 9 { assert(h[index as int + 1] == c); } assert(self.src().subrange(self.p() - 1, iter.pos() - 1) + seq![c] =~= self.src().subrange(self.p() - 1, iter.pos())); }")},
         ghost=[("before", "if let Some(m)", """proof { assert(line@.len() >= 10); assert forall|i: int| 0 <= i < 10 implies (#[trigger] line@[i] as u32) < 0x80 by { assert(line@[i] == h[i]); assert(digit(h[i]) || h[i] == '-'); }
            lemma_blen_ascii(line@, 10); lemma_cidx(line@, 10); assert(line@.take(10) =~= old(self).src().subrange(old(self).t(), old(self).t() + 10)); }""", 0)]),
    lx("is_time", requires="self.on(), digit(self.current_char)"),
    tokf("time", ", digit(old(self).current_char), old(self).t() == old(self).p() - 1", closures=AUTO),
    lx("is_number", requires="self.on()", closures=AUTO),
    Fn(LIB, "Cursor::number", header=CK, requires="old(self).on(), old(self).t() == old(self).p() - 1 || (old(self).t() == old(self).p() - 2 && (old(self).src()[old(self).t()] == '+' || old(self).src()[old(self).t()] == '-'))",
       ensures=TOKF["ensures"] + ", final(self).line_ending == old(self).line_ending, r is Ok ==> r->Ok_0.kind != SyntaxKind::LINE_BREAK", closures=AUTO,
       ghost=[("before", "if let Some(m)", "proof { lemma_re_num(old(self).src(), old(self).t(), old(self).p(), old(self).p() - 1 + line@.len()); }", 0)]),
    tokf("basic_string", ", old(self).current_char == '\"', old(self).t() == old(self).p() - 1", ", basic_end(r is Ok, old(self).src(), old(self).t(), final(self).p()), r is Ok ==> r->Ok_0.kind == SyntaxKind::BASIC_STRING",
        entry="proof { assert(old(self).src().subrange(old(self).p(), old(self).p()) =~= Seq::<char>::empty()); }",
        loops={0: Loop("while let", invariant="""self.same(*old(self)), self.wf(), self.t() == old(self).t(), old(self).on(), old(self).t() == old(self).p() - 1, old(self).src()[old(self).t()] == '"', self.p() >= old(self).p(), old(self).current_char == '"',
            forall|j: int| old(self).t() < j < self.p() ==> !bclose(old(self).src(), old(self).t(), j),
            esc(old(self).src().subrange(old(self).t() + 1, self.p())) ==> self.p() < old(self).src().len() ==> old(self).src()[self.p()] != '"' && old(self).src()[self.p()] != '\\\\'""",
            ensures="self.p() == old(self).src().len() || sp_lb(old(self).src()[self.p()])",
            start="let ghost s = old(self).src(); let ghost p = self.p(); let ghost t = old(self).t(); proof { lemma_esc(s, t + 1, p - 1); if p < s.len() { lemma_esc(s, t + 1, p); } }",
            decreases="old(self).src().len() - self.p()")}),
    tokf("literal_string", ", old(self).current_char == '\\'', old(self).t() == old(self).p() - 1", ", literal_end(r is Ok, old(self).src(), old(self).t(), final(self).p()), r is Ok ==> r->Ok_0.kind == SyntaxKind::LITERAL_STRING",
        loops={0: Loop("while let", invariant="""self.same(*old(self)), self.wf(), self.t() == old(self).t(), old(self).on(), old(self).t() == old(self).p() - 1, old(self).src()[old(self).t()] == '\\'', self.p() >= old(self).p(),
            forall|j: int| old(self).t() < j < self.p() ==> old(self).src()[j] != '\\''""",
            ensures="self.p() == old(self).src().len() || sp_lb(old(self).src()[self.p()])",
            decreases="old(self).src().len() - self.p()")}),
]


def ml(name, q, basic, inv, start):
    B = "true" if basic else "false"
    s, t = "old(self).src()", "old(self).t()"
    kind = "MULTI_LINE_BASIC_STRING" if basic else "MULTI_LINE_LITERAL_STRING"
    return tokf(name, f", old(self).t() == old(self).p() - 1, old(self).current_char == {q}, old(self).ahead(1) == {q}, old(self).ahead(2) == {q}",
        f", ml_end(r is Ok, {B}, {q}, {s}, {t}, final(self).p()), r is Ok ==> r->Ok_0.kind == SyntaxKind::{kind}",
        closures=AUTO,
        ghost=[("before", "let last_quotes", f"let ghost k = self.p() - 1; proof {{ assert(mclose({B}, {s}, {t}, k)); }}", 0),
               ("after", f"self.eat_while(|c| c == {q});", f"""proof {{ assert(run({s}, {q}, k, self.p()));  assert(last_quotes@.len() == self.p() - k - 1) by {{
                    if last_quotes@.len() < self.p() - k - 1 {{ assert({s}[k + 1 + last_quotes@.len()] == {q}); }}
                    if last_quotes@.len() > self.p() - k - 1 {{ assert(last_quotes@[self.p() - k - 1] == {q}); }} }}
                    lemma_blen_ascii(last_quotes@, last_quotes@.len() as int); assert(last_quotes@.take(last_quotes@.len() as int) =~= last_quotes@); }}""", 0)],
        loops={0: Loop("while let", before=f"proof {{ assert({s}.subrange({t} + 3, {t} + 3) =~= Seq::<char>::empty()); }}",
            invariant=f"""self.same(*old(self)), self.wf(), self.t() == {t}, old(self).on(), {t} == old(self).p() - 1, {s}[{t}] == {q}, {s}[{t} + 1] == {q}, {s}[{t} + 2] == {q}, self.p() >= {t} + 3""",
            ieb=f"forall|j: int| {t} < j < self.p() ==> !mclose({B}, {s}, {t}, j)" + inv,
            ensures=f"""(self.p() == {s}.len() && forall|j: int| !mclose({B}, {s}, {t}, j)) || (exists|k: int| #![trigger run({s}, {q}, k, self.p())] mclose({B}, {s}, {t}, k) && (forall|j: int| j < k ==> !mclose({B}, {s}, {t}, j)) && run({s}, {q}, k, self.p()) && self.p() - k > 5)""",
            start=start,
            decreases=f"{s}.len() - self.p()")})


SCAN += [
    ml("multi_line_basic_string", "'\"'", True, ", was_quote == esc(old(self).src().subrange(old(self).t() + 3, self.p()))",
       "proof { lemma_esc(old(self).src(), old(self).t() + 3, self.p() - 1); }"),
    ml("multi_line_literal_string", "'\\''", False, "", ""),
    Fn(LIB, "Cursor::key", header=CK, requires="old(self).past()", ensures=TOKF["ensures"] + ", final(self).line_ending == old(self).line_ending, r is Ok ==> r->Ok_0.kind != SyntaxKind::LINE_BREAK", closures=AUTO),
]
ADV = [lx("advance_token", requires="old(self).wf(), old(self).t() == old(self).p()",
    ensures="""final(self).ended(*old(self)), final(self).p() <= old(self).src().len(),
        old(self).p() == old(self).src().len() ==> final(self).p() == old(self).p() && r is Ok && r->Ok_0.kind == SyntaxKind::EOF,
        old(self).p() < old(self).src().len() ==> final(self).p() > old(self).p() && scanned(r, old(self).src(), old(self).p(), final(self).p()),
        final(self).line_ending == (if r is Ok && crlf_tok(r->Ok_0, old(self).src()) { LineEnding::Crlf } else { old(self).line_ending })""",
    ghost=[("before", "self.eat_n(2);", "proof { lemma_inf(self.src(), self.p() - 1, self.src().subrange(self.p() - 1, self.p() + 2)); }", "any"),
           ("before", "self.eat_n(3);", "proof { if self.current_char == '-' && self.p() + 3 <= self.src().len() { let w = self.src().subrange(self.p(), self.p() + 3); if inf_nan(w) { lemma_inf(self.src(), self.p(), w); } } }", "any")],
    closures=AUTO)]

LEXSPEC = r"""
pub proof fn lemma_cuts(s: Seq<char>, ts: Seq<Token>, b: int, t: Token, c: int) -> (out: Seq<int>)
    requires wf_tokens(ts, s, b), token_at(t, s, b, c),
    ensures wf_tokens(ts.push(t), s, c), cut_at(out, ts.push(t), s, c),
{
    let cuts = choose|cuts: Seq<int>| #[trigger] cut_at(cuts, ts, s, b);
    let out = cuts.push(c);
    let u = ts.push(t);
    assert forall|i: int| 0 <= i < u.len() implies #[trigger] token_at(u[i], s, out[i], out[i + 1]) by {
        if i < ts.len() { assert(token_at(ts[i], s, cuts[i], cuts[i + 1])); assert(u[i] == ts[i]); }
    }
    assert(cut_at(out, u, s, c));
    out
}
pub open spec fn has_crlf(ts: Seq<Token>, s: Seq<char>) -> bool {
    exists|i: int| 0 <= i < ts.len() && #[trigger] crlf_tok(ts[i], s)
}
pub proof fn lemma_crlf(ts: Seq<Token>, t: Token, s: Seq<char>)
    ensures has_crlf(ts.push(t), s) == (has_crlf(ts, s) || crlf_tok(t, s)),
{ let u = ts.push(t); assert(u[ts.len() as int] == t); if has_crlf(ts, s) { let i = choose|i: int| 0 <= i < ts.len() && #[trigger] crlf_tok(ts[i], s); assert(u[i] == ts[i]); } 
  if has_crlf(u, s) { let i = choose|i: int| 0 <= i < u.len() && #[trigger] crlf_tok(u[i], s); if i < ts.len() { assert(crlf_tok(ts[i], s)); } } }
pub open spec fn crlf_tok(t: Token, s: Seq<char>) -> bool { t.kind == SyntaxKind::LINE_BREAK && t.span.end.raw == t.span.start.raw + 2 }
/// everything `lex` promises
pub open spec fn lexed_ok(l: Lexed, s: Seq<char>) -> bool {
    &&& l.tokens@.len() > 0
    &&& wf_tokens(l.tokens@.drop_last(), s, s.len() as int)
    &&& l.tokens@.last().kind == SyntaxKind::EOF && placed(l.tokens@.last().span, l.tokens@.last().range, s, s.len() as int, s.len() as int)
    &&& inv_spans(l.tokens@.drop_last()) == err_spans(l.errors@)
    &&& l.joints@.len() * 64 >= l.tokens@.len() - 1
    &&& l.line_ending == (if has_crlf(l.tokens@.drop_last(), s) { LineEnding::Crlf } else { LineEnding::Lf })
}
impl Lexed {
    pub fn vx_default() -> (r: Lexed) ensures r.tokens@.len() == 0, r.joints@.len() == 0, r.errors@.len() == 0, r.line_ending == LineEnding::Lf
    { Lexed { tokens: Vec::new(), joints: Vec::new(), errors: Vec::new(), line_ending: LineEnding::Lf } }
}
pub fn vx_or_bit(a: u64, b: usize) -> (r: u64) requires b < 64 { a | (1u64 << b) }
pub open spec fn tok_of(r: Result<Token, Error>) -> Token { match r { Ok(t) => t, Err(e) => Token { kind: SyntaxKind::INVALID_TOKEN, span: e.span, range: e.range } } }
"""
# shared with the parser unit
PINPUT = r'''
pub open spec fn triv(k: SyntaxKind) -> bool { k == SyntaxKind::WHITESPACE }
pub open spec fn composite(k: SyntaxKind) -> bool { k == SyntaxKind::DOUBLE_BRACKET_START || k == SyntaxKind::DOUBLE_BRACKET_END }
pub open spec fn tend(ts: Seq<Token>, i: int) -> int { if 0 < i <= ts.len() { ts[i - 1].span.end.raw as int } else { 0 } }
pub open spec fn tile1(ts: Seq<Token>, s: Seq<char>, i: int) -> bool {
    ts[i].span.start.raw == tend(ts, i) && ts[i].span.start.raw <= ts[i].span.end.raw && is_bound(s, ts[i].span.start.raw as int) && is_bound(s, ts[i].span.end.raw as int)
}
/// contiguous spans on character boundaries, from byte 0 on
pub open spec fn tile(ts: Seq<Token>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < ts.len() ==> #[trigger] tile1(ts, s, i) }
pub open spec fn small(r: Range) -> bool { r.start.line <= i32::MAX && r.start.column <= i32::MAX && r.end.line <= i32::MAX && r.end.column <= i32::MAX }
/// a token list the parser may be given
pub open spec fn parser_input(ts: Seq<Token>, s: Seq<char>) -> bool {
    &&& 0 < ts.len() <= i32::MAX + 1 && blen(s) <= i32::MAX
    &&& tile(ts, s)
    &&& ts.last().kind == SyntaxKind::EOF && ts.last().span.start.raw == blen(s) && ts.last().span.end.raw == blen(s)
    &&& forall|i: int| 0 <= i < ts.len() - 1 ==> (#[trigger] ts[i]).kind != SyntaxKind::EOF && !composite(ts[i].kind)
    &&& forall|i: int| 0 <= i < ts.len() ==> small((#[trigger] ts[i]).range)
}
pub open spec fn text_of(t: Token, s: Seq<char>) -> Seq<char> { s.subrange(cidx(s, t.span.start.raw as int), cidx(s, t.span.end.raw as int)) }
/// a float has at most one '.'
pub open spec fn floats_ok(ts: Seq<Token>, s: Seq<char>) -> bool { forall|i: int| 0 <= i < ts.len() && (#[trigger] ts[i]).kind == SyntaxKind::FLOAT ==> dot1(text_of(ts[i], s)) }
pub open spec fn dot1(s: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() && s[i] == '.' ==> s[j] != '.' }
'''


def float_dots():
    """how often '.' can occur in a text of the float pattern"""
    m = re.search(r"static REGEX_FLOAT\s*=\s*r\"([^\"]*)\"", F(LIB).src)
    import re._parser as sp
    def mx(seq):
        n = 0
        for op, av in seq:
            o = str(op)
            if o == "LITERAL":
                n += av == 46
            elif o == "IN":
                n += any((str(x) == "LITERAL" and y == 46) or (str(x) == "RANGE" and y[0] <= 46 <= y[1]) or str(x) in ("NEGATE", "CATEGORY") for x, y in av)
            elif o in ("MAX_REPEAT", "MIN_REPEAT"):
                k = mx(av[2])
                n += k * (99 if av[1] > 99 else av[1]) if k else 0
            elif o == "SUBPATTERN":
                n += mx(av[3])
            elif o == "BRANCH":
                n += max(mx(b) for b in av[1])
            elif o != "AT":
                raise Lost("float pattern: " + o)
        return n
    return mx(sp.parse(m.group(1)))


BRIDGE = r"""
/// a fact about the float pattern, computed from its source on every run (at most @DOTS '.')
#[verifier::external_body]
pub proof fn axiom_float_dots(s: Seq<char>) ensures @DOTS <= 1 && re(REGEX_FLOAT.id, s) ==> dot1(s) { }
pub proof fn lemma_cuts_len(cuts: Seq<int>, ts: Seq<Token>, s: Seq<char>, b: int, i: int)
    requires cut_at(cuts, ts, s, b), 0 <= i <= ts.len(),
    ensures cuts[i] >= i,
    decreases i,
{ if i > 0 { let k = i - 1; lemma_cuts_len(cuts, ts, s, b, k); assert(token_at(ts[k], s, cuts[k], cuts[k + 1])); } }
pub proof fn lemma_dot1_skip(x: Seq<char>)
    requires x.len() > 0, x[0] != '.', dot1(x.skip(1)),
    ensures dot1(x),
{ assert forall|p: int, q: int| 0 <= p < q < x.len() && x[p] == '.' implies x[q] != '.' by { assert(x.skip(1)[p - 1] == x[p]); assert(x.skip(1)[q - 1] == x[q]); } }
pub proof fn lemma_float(x: Seq<char>)
    requires shape(SyntaxKind::FLOAT, x),
    ensures dot1(x),
{
    axiom_float_dots(x); axiom_float_dots(x.skip(1)); reveal(re_num);
    if !re(REGEX_FLOAT.id, x) && !inf_nan(x) { lemma_dot1_skip(x); }
}
pub open spec fn tok1(t: Token, s: Seq<char>, start: int) -> bool {
    &&& t.span.start.raw == start && t.span.start.raw <= t.span.end.raw && is_bound(s, t.span.start.raw as int) && is_bound(s, t.span.end.raw as int)
    &&& small(t.range) && (t.kind == SyntaxKind::FLOAT ==> dot1(text_of(t, s)))
}
pub proof fn lemma_tok1(t: Token, s: Seq<char>, a: int, b: int)
    requires fits(s), placed(t.span, t.range, s, a, b), t.kind == SyntaxKind::FLOAT ==> shape(t.kind, s.subrange(a, b)),
    ensures tok1(t, s, blen(s.take(a)) as int), t.span.end.raw == blen(s.take(b)),
{
    lemma_cidx(s, a); lemma_cidx(s, b); lemma_blen_mono(s, a, b); lemma_posof_le(s.take(a)); lemma_posof_le(s.take(b)); lemma_blen_ge(s);
    if t.kind == SyntaxKind::FLOAT { lemma_float(s.subrange(a, b)); }
}
/// what lex promises is what the parser needs
pub proof fn lemma_parser_input(l: Lexed, s: Seq<char>)
    requires fits(s), lexed_ok(l, s),
    ensures parser_input(l.tokens@, s), floats_ok(l.tokens@, s),
{
    let ts = l.tokens@; let d = ts.drop_last(); let n = d.len() as int;
    let cuts = choose|cuts: Seq<int>| #[trigger] cut_at(cuts, d, s, s.len() as int);
    lemma_cuts_len(cuts, d, s, s.len() as int, n);
    lemma_blen_ge(s);
    assert(s.take(s.len() as int) =~= s);
    assert(s.take(0) =~= Seq::<char>::empty());
    assert forall|i: int| 0 <= i < ts.len() implies tok1(#[trigger] ts[i], s, tend(ts, i)) && (i < n ==> ts[i].kind != SyntaxKind::EOF && !composite(ts[i].kind)) by {
        if i > 0 { let k = i - 1; assert(token_at(d[k], s, cuts[k], cuts[k + 1])); assert(ts[k] == d[k]); }
        if i < n { assert(token_at(d[i], s, cuts[i], cuts[i + 1])); assert(ts[i] == d[i]); lemma_tok1(ts[i], s, cuts[i], cuts[i + 1]); }
        else { lemma_tok1(ts[i], s, s.len() as int, s.len() as int); }
    }
    assert forall|i: int| 0 <= i < ts.len() implies #[trigger] tile1(ts, s, i) by { assert(tok1(ts[i], s, tend(ts, i))); }
}
"""

LEXFNS = [
    Fn(KIND, "SyntaxKind::is_trivia", rewrites=[("matches!(self, SyntaxKind::WHITESPACE)", "match self { SyntaxKind::WHITESPACE => true, _ => false }")], ensures="r == (self == SyntaxKind::WHITESPACE)"),
    Fn(LEXD, "Lexed::len", ensures="r == self.tokens@.len()"),
    Fn(LEXD, "Lexed::bit_index", ensures="r.0 == n / 64, r.1 == n % 64, r.1 < 64"),
    Fn(LEXD, "Lexed::set_joint", requires="old(self).tokens@.len() > 0, old(self).joints@.len() * 64 >= old(self).tokens@.len()",
       ensures="final(self).tokens == old(self).tokens, final(self).errors == old(self).errors, final(self).line_ending == old(self).line_ending, final(self).joints@.len() == old(self).joints@.len()",
       rewrites=[("self.joints[idx] |= 1 << b_idx;", "let v = self.joints[idx]; self.joints.set(idx, vx_or_bit(v, b_idx));")]),
    Fn(LEXD, "Lexed::is_joint", requires="self.joints@.len() * 64 > n"),
    Fn(LEXD, "Lexed::push_result_token", requires="old(self).joints@.len() * 64 >= old(self).tokens@.len()",
       rewrites=[("INVALID_TOKEN", "SyntaxKind::INVALID_TOKEN")],
       ensures="""final(self).joints@.len() * 64 >= final(self).tokens@.len(), final(self).line_ending == old(self).line_ending,
         final(self).tokens@ == old(self).tokens@.push(tok_of(result_token)), r.0 == tok_of(result_token).span, r.1 == tok_of(result_token).range,
         final(self).errors@ == (match result_token { Ok(_) => old(self).errors@, Err(e) => old(self).errors@.push(e) })"""),
    Fn(LIB, "fn tokenize", pre=tokenize_step, ret="r", requires="old(cursor).wf(), old(cursor).t() == old(cursor).p()",
       ensures="""final(cursor).ended(*old(cursor)), final(cursor).p() <= old(cursor).src().len(),
         old(cursor).p() == old(cursor).src().len() ==> r is None,
         old(cursor).p() < old(cursor).src().len() ==> r is Some && final(cursor).p() > old(cursor).p() && scanned(r->0, old(cursor).src(), old(cursor).p(), final(cursor).p()),
         final(cursor).line_ending == (if r is Some && crlf_tok(tok_of(r->0), old(cursor).src()) { LineEnding::Crlf } else { old(cursor).line_ending })"""),
    Fn(LIB, "fn lex", requires="fits(source@)", ensures="lexed_ok(r, source@)",
       rewrites=[("for result in tokenize(&mut cursor) { $$b }", "while let Some(result) = tokenize(&mut cursor) { $$b }"),
                 ("Lexed::default()", "Lexed::vx_default()"), ("Offset::default()", "Offset::vx_default()"), ("Position::default()", "Position::vx_default()"),
                 ("last_position + tombi_text::RelativePosition::of(&source[last_offset.into()..])", "last_position.add(vx_relpos_of(vx_slice_from(source, last_offset.raw as usize)))"),
                 ("Ok(token) if token.kind().is_trivia() => was_joint = false,", "Ok(token) if token.kind().is_trivia() => { was_joint = false; }")],
       loops={0: Loop("while let",
         invariant="""fits(source@), cursor.wf(), cursor.src() == source@, cursor.t() == cursor.p(), lexed.joints@.len() * 64 >= lexed.tokens@.len(),
            wf_tokens(lexed.tokens@, source@, cursor.p()), inv_spans(lexed.tokens@) == err_spans(lexed.errors@), was_joint ==> lexed.tokens@.len() > 0,
            last_offset.raw == blen(source@.take(cursor.p())), at_pos(last_position, source@, cursor.p()),
            cursor.line_ending == (if has_crlf(lexed.tokens@, source@) { LineEnding::Crlf } else { LineEnding::Lf })""",
         ensures="cursor.p() == source@.len()", decreases="source@.len() - cursor.p()",
         before="proof { let e: Seq<Token> = Seq::empty(); assert(lexed.tokens@ =~= e); assert(source@.take(0) =~= Seq::<char>::empty()); assert(blen(source@.take(0)) == 0);  assert(cut_at(seq![0int], lexed.tokens@, source@, 0)); assert(inv_spans(lexed.tokens@) =~= err_spans(lexed.errors@)); }",
         start="let ghost pre_p = last_offset.raw; let ghost res = result; let ghost lx0 = lexed; let ghost p0 = cidx(source@, last_offset.raw as int);",
         end="""proof { let t = tok_of(res); let b = cidx(source@, pre_p as int); assert(lexed.tokens@.drop_last() =~= lx0.tokens@); let o = lemma_cuts(source@, lx0.tokens@, b, t, cursor.p()); lemma_crlf(lx0.tokens@, t, source@);
            assert(inv_spans(lexed.tokens@) =~= err_spans(lexed.errors@)); }""")},
       tail="proof { assert(lexed.tokens@.drop_last() =~= tk0); assert(source@.take(source@.len() as int) =~= source@); }",
       ghost=[("before", "lexed.tokens.push", "let ghost tk0 = lexed.tokens@; proof { assert(source@.take(source@.len() as int) =~= source@); lemma_cidx(source@, source@.len() as int); lemma_posof_le(source@); lemma_blen_ge(source@); }", 0)]),
]

def C01():
    types = [Text(STR), *tt.TYPES, *tt.FNS, Text(CHARS),
        Raw(KIND, "enum SyntaxKind", attrs=tt.DER),
        Raw(TOK, "struct Token", rewrites=[("kind:", "pub kind:"), ("span:", "pub span:"), ("range:", "pub range:")], attrs=tt.DER),
        Raw(ERR, "struct Error", rewrites=[("kind:", "pub kind:"), ("span:", "pub span:"), ("range:", "pub range:")]),
        Raw(ERR, "enum ErrorKind", attrs=tt.DER),
        Raw(CUR, "struct Cursor", rewrites=[("chars:", "pub chars:"), ("current_char:", "pub current_char:"), ("current_offset:", "pub current_offset:"), ("current_position:", "pub current_position:"),
            ("token_start_offset:", "pub token_start_offset:"), ("token_start_position:", "pub token_start_position:"), ("pub(crate)", "pub")]),
        Raw(CUR, "const EOF_CHAR", rewrites=[("pub(crate)", "pub")]),
        Text("\n".join(f"pub const {n}: Regex = Regex {{ id: {i} }};" for i, n in enumerate(REGEXES))),
        Text('use ErrorKind::*;'), Text(SPEC),
        Fn(TOK, "Token::new", ensures="r.kind == kind, r.span == span_range.0, r.range == span_range.1", rewrites=[("(span, range): (Span, Range)) -> Self {", "span_range: (Span, Range)) -> Self { let (span, range) = span_range; ")]) if False else
        Fn(TOK, "Token::new", ensures="r.kind == kind, r.span == p.0, r.range == p.1", pre=unpack),
        Fn(TOK, "Token::eof", rewrites=[("tombi_text::Span::MAX", "vx_span_max()"), ("tombi_text::Range::MAX", "vx_range_max()"), ("const fn", "fn")], ensures="r.kind == SyntaxKind::EOF"),
        Fn(TOK, "Token::kind", ensures="r == self.kind"),
        Fn(TOK, "Token::span", ensures="r == self.span"),
        Fn(TOK, "Token::range", ensures="r == self.range"),
        Fn(ERR, "Error::new", ensures="r.kind == kind, r.span == p.0, r.range == p.1", pre=unpack),
        Fn(ERR, "Error::span", ensures="r == self.span"),
        Fn(ERR, "Error::range", ensures="r == self.range"),
    ]
    lexed = [Raw(LEXD, "struct Lexed", rewrites=[("Vec<bits>", "Vec<u64>")]), Text(LEXSPEC), Text(PINPUT), Text(BRIDGE.replace("@DOTS", str(float_dots())))]
    return Unit("lexer", types + CURSOR + SCAN + ADV + lexed + LEXFNS, rewrites=t_rules() + RW)


def unpack(text):
    """a tuple pattern in parameter position becomes a let"""
    m = re.search(r"\((\w+), (\w+)\): \(([\w:]+), ([\w:]+)\)", text)
    if not m:
        return text
    text = text[:m.start()] + f"p: ({m.group(3)}, {m.group(4)})" + text[m.end():]
    i = text.index("{")
    return text[:i + 1] + f" let ({m.group(1)}, {m.group(2)}) = p; " + text[i + 1:]


UNIT = C01()
