from vgen import *
from shims import *

L = "crates/tombi-toml-text/src/lib.rs"

SPEC = r'''
pub open spec fn tv11(v: TomlVersion) -> bool { v != TomlVersion::V1_0_0 }

// ---------------------------------------------------------------- TOML string grammar (from the TOML spec, not from the code)
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' }
pub open spec fn bad_control(c: char) -> bool {
    ((c as u32) <= 0x1f && c != '\t') || (c as u32) == 0x7f
}
/// length of the maximal run of *( wschar / newline ), newline = LF / CRLF
pub open spec fn ws_run(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 }
    else if is_ws(s[0]) || s[0] == '\n' { 1 + ws_run(s.skip(1)) }
    else if s[0] == '\r' && s.len() > 1 && s[1] == '\n' { 2 + ws_run(s.skip(2)) }
    else { 0 }
}
pub open spec fn has_nl(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { false }
    else if s[0] == '\n' { true }
    else if is_ws(s[0]) { has_nl(s.skip(1)) }
    else { s[0] == '\r' && s.len() > 1 && s[1] == '\n' }
}
pub open spec fn simple_escape(c: char, v11: bool) -> Option<char> {
    if c == 'b' { Some('\u{8}') } else if c == 't' { Some('\t') } else if c == 'n' { Some('\n') }
    else if c == 'f' { Some('\u{c}') } else if c == 'r' { Some('\r') } else if c == '"' { Some('"') }
    else if c == '\\' { Some('\\') } else if c == 'e' && v11 { Some('\u{1b}') } else { None }
}
#[verifier::opaque]
pub open spec fn uni(s: Seq<char>, n: nat) -> Option<(nat, Seq<char>)> {
    // s starts with the backslash; n hexadecimal digits follow the letter
    if s.len() < 2 + n { None }
    else { match hexn(s.subrange(2, 2 + n as int)) {
        Some(v) => match char_of(v) { Some(ch) => Some(((2 + n) as nat, seq![ch])), None => None },
        None => None } }
}
/// one decoding step: (consumed characters, produced characters)
pub open spec fn step(s: Seq<char>, v11: bool, ml: bool) -> Option<(nat, Seq<char>)> {
    let c = s[0];
    if c == '\\' {
        if s.len() < 2 { None }
        else if simple_escape(s[1], v11) is Some { Some((2nat, seq![simple_escape(s[1], v11)->0])) }
        else if s[1] == 'u' { uni(s, 4) }
        else if s[1] == 'U' { uni(s, 8) }
        else if s[1] == 'x' && v11 { uni(s, 2) }
        else if ml && has_nl(s.skip(1)) { Some(((1 + ws_run(s.skip(1))) as nat, Seq::<char>::empty())) }
        else { None }
    }
    else if ml && c == '\n' { Some((1nat, seq![c])) }
    else if ml && c == '\r' { if s.len() > 1 && s[1] == '\n' { Some((2nat, seq!['\r', '\n'])) } else { None } }
    else if bad_control(c) { None }
    else { Some((1nat, seq![c])) }
}
pub open spec fn prepend(o: Seq<char>, t: Option<Seq<char>>) -> Option<Seq<char>> {
    match t { Some(x) => Some(o + x), None => None }
}
#[verifier::opaque]
pub open spec fn dec(s: Seq<char>, v11: bool, ml: bool) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::<char>::empty()) }
    else { match step(s, v11, ml) {
        None => None,
        Some((n, out)) => if 0 < n && n <= s.len() { prepend(out, dec(s.skip(n as int), v11, ml)) } else { None },
    } }
}
pub open spec fn declit(s: Seq<char>, ml: bool) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(Seq::<char>::empty()) }
    else if ml && s[0] == '\n' { prepend(seq![s[0]], declit(s.skip(1), ml)) }
    else if ml && s[0] == '\r' { if s.len() > 1 && s[1] == '\n' { prepend(seq!['\r', '\n'], declit(s.skip(2), ml)) } else { None } }
    else if bad_control(s[0]) { None }
    else { prepend(seq![s[0]], declit(s.skip(1), ml)) }
}
/// a newline immediately following the opening delimiter is trimmed
pub open spec fn trim1(s: Seq<char>) -> Seq<char> {
    if s.len() >= 1 && s[0] == '\n' { s.skip(1) }
    else if s.len() >= 2 && s[0] == '\r' && s[1] == '\n' { s.skip(2) }
    else { s }
}
pub open spec fn okr(r: Result<String, ParseError>) -> Option<Seq<char>> {
    match r { Ok(x) => Some(x@), Err(_) => None }
}
pub open spec fn quoted(s: Seq<char>, q: char, n: int) -> bool {
    s.len() >= 2 * n && (forall|i: int| 0 <= i < n ==> s[i] == q) && (forall|i: int| s.len() - n <= i < s.len() ==> s[i] == q)
}
pub open spec fn body(s: Seq<char>, n: int) -> Seq<char> { s.subrange(n, s.len() - n) }

// ---------------------------------------------------------------- lemmas
pub broadcast proof fn lemma_prepend_assoc(o: Seq<char>, a: Seq<char>, t: Option<Seq<char>>)
    ensures #[trigger] prepend(o, prepend(a, t)) == prepend(o + a, t),
{ if t is Some { assert(o + (a + t->0) =~= (o + a) + t->0); } }
pub broadcast proof fn lemma_add_empty(o: Seq<char>)
    ensures #[trigger] (o + Seq::<char>::empty()) == o,
{ assert(o + Seq::<char>::empty() =~= o); }
pub broadcast proof fn lemma_concat_skip(a: Seq<char>, b: Seq<char>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).skip(n) == b,
{ assert((a + b).skip(n) =~= b); }
pub broadcast proof fn lemma_empty_add(o: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + o) == o,
{ assert(Seq::<char>::empty() + o =~= o); }
pub broadcast proof fn lemma_add2(o: Seq<char>, a: char, b: char)
    ensures #[trigger] (o + seq![a] + seq![b]) == o + seq![a, b],
{ assert(o + seq![a] + seq![b] =~= o + seq![a, b]); }
pub broadcast proof fn lemma_skip_skip(s: Seq<char>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len(),
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b),
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub proof fn lemma_step_len(s: Seq<char>, v11: bool, ml: bool)
    requires s.len() > 0, step(s, v11, ml) is Some,
    ensures ({ let (n, o) = step(s, v11, ml)->0; 0 < n <= s.len() }),
{ reveal(uni); lemma_ws_run_le(s.skip(1)); }
pub proof fn lemma_dec_unfold(s: Seq<char>, v11: bool, ml: bool)
    requires s.len() > 0,
    ensures dec(s, v11, ml) == (match step(s, v11, ml) { None => None, Some((n, out)) => prepend(out, dec(s.skip(n as int), v11, ml)) }),
{ reveal(dec); if step(s, v11, ml) is Some { lemma_step_len(s, v11, ml); } }
pub proof fn lemma_dec_empty(s: Seq<char>, v11: bool, ml: bool)
    requires s.len() == 0,
    ensures dec(s, v11, ml) == Some(Seq::<char>::empty()),
{ reveal(dec); }
pub proof fn lemma_ws_run_le(s: Seq<char>)
    ensures ws_run(s) <= s.len(),
    decreases s.len(),
{ if s.len() > 0 { if is_ws(s[0]) || s[0] == '\n' { reveal(uni); lemma_ws_run_le(s.skip(1)); } else if s[0] == '\r' && s.len() > 1 && s[1] == '\n' { lemma_ws_run_le(s.skip(2)); } } }
/// the line-ending-backslash loop, phrased over what is left to read
pub proof fn lemma_ws(s: Seq<char>)
    ensures
        s.len() > 0 && (is_ws(s[0]) || s[0] == '\n') ==> ws_run(s) == 1 + ws_run(s.skip(1)),
        s.len() > 1 && s[0] == '\r' && s[1] == '\n' ==> ws_run(s) == 2 + ws_run(s.skip(2)) && has_nl(s),
        s.len() > 0 && s[0] == '\n' ==> has_nl(s),
        s.len() > 0 && is_ws(s[0]) ==> has_nl(s) == has_nl(s.skip(1)),
        s.len() == 0 || !(is_ws(s[0]) || s[0] == '\n' || s[0] == '\r') ==> ws_run(s) == 0 && !has_nl(s),
        s.len() > 0 && s[0] == '\r' && (s.len() == 1 || s[1] != '\n') ==> ws_run(s) == 0 && !has_nl(s),
        ws_run(s) <= s.len(),
{ lemma_ws_run_le(s); }
pub proof fn lemma_hexn_bound(s: Seq<char>)
    ensures hexn(s) is Some <==> (s.len() > 0 && all_hex(s)),
    decreases s.len(),
{
    if s.len() > 1 {
        lemma_hexn_bound(s.drop_last());
        if all_hex(s) { assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] hexd(s.drop_last()[i])) is Some by { assert(hexd(s[i]) is Some); } assert(hexd(s[s.len() - 1]) is Some); }
        if hexn(s) is Some {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] hexd(s[i])) is Some by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); assert(hexd(s.drop_last()[i]) is Some); } }
        }
    } else if s.len() == 1 { if all_hex(s) { assert(hexd(s[0]) is Some); } else if hexd(s[0]) is Some { assert(all_hex(s)); } }
}
pub proof fn lemma_bare_cr(s: Seq<char>, v11: bool)
    requires s.len() > 0, s[0] == '\r', s.len() == 1 || s[1] != '\n',
    ensures dec(s, v11, true) is None, declit(s, true) is None,
{ lemma_dec_unfold(s, v11, true); }

pub proof fn lemma_hex_push(s: Seq<char>, i: int)
    requires 2 <= i < s.len(),
    ensures s.subrange(2, i) + seq![s[i]] == s.subrange(2, i + 1),
            all_hex(s.subrange(2, i + 1)) <==> (all_hex(s.subrange(2, i)) && hexd(s[i]) is Some),
{
    let a = s.subrange(2, i); let b = s.subrange(2, i + 1);
    assert(a + seq![s[i]] =~= b);
    assert(b[i - 2] == s[i]);
    if all_hex(a) && hexd(s[i]) is Some { assert forall|k: int| 0 <= k < i - 1 implies (#[trigger] hexd(b[k])) is Some by { if k < i - 2 { assert(b[k] == a[k]); assert(hexd(a[k]) is Some); } } }
    if all_hex(b) { assert forall|k: int| 0 <= k < i - 2 implies (#[trigger] hexd(a[k])) is Some by { assert(b[k] == a[k]); assert(hexd(b[k]) is Some); } assert(hexd(b[i - 2]) is Some); }
}
pub proof fn lemma_uni(r0: Seq<char>, n: nat)
    requires r0.len() >= 2 + n, n > 0, all_hex(r0.subrange(2, 2 + n as int)),
    ensures hexn(r0.subrange(2, 2 + n as int)) is Some,
        uni(r0, n) == (match char_of(hexn(r0.subrange(2, 2 + n as int))->0) { Some(ch) => Some(((2 + n) as nat, seq![ch])), None => None }),
{ reveal(uni); lemma_hexn_bound(r0.subrange(2, 2 + n as int)); }
/// what follows a backslash that is followed by whitespace or a newline
pub proof fn lemma_step_ws(s: Seq<char>, v11: bool, ml: bool)
    requires s.len() >= 2, s[0] == '\\', s[1] == ' ' || s[1] == '\t' || s[1] == '\r' || s[1] == '\n',
    ensures step(s, v11, ml) == (if ml && has_nl(s.skip(1)) { Some(((1 + ws_run(s.skip(1))) as nat, Seq::<char>::empty())) } else { None }),
{}
pub proof fn lemma_uni_none(r0: Seq<char>, n: nat, i: int)
    requires r0.len() >= 2, 0 <= i < n, r0.len() == 2 + i || (r0.len() > 2 + i && hexd(r0[2 + i]) is None),
    ensures uni(r0, n) is None,
{ reveal(uni); if r0.len() >= 2 + n { let b = r0.subrange(2, 2 + n as int); lemma_hexn_bound(b); assert(b[i] == r0[2 + i]); assert(hexd(b[i]) is None); } }

#[verifier::external_body]
pub fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, ()>)
    requires radix == 16,
    ensures all_hex(s@) && s@.len() > 0 && hexn(s@)->0 <= 0xffff_ffff ==> r is Ok && Some((r->Ok_0) as nat) == hexn(s@),
            all_hex(s@) && s@.len() > 0 && hexn(s@)->0 > 0xffff_ffff ==> r is Err,
            s@.len() == 0 ==> r is Err,
{ u32::from_str_radix(s, radix).map_err(|_| ()) }
#[verifier::external_body]
pub fn vx_filter_hexdigit(o: Option<char>) -> (r: Option<char>)
    ensures r == (if o is Some && hexd(o->0) is Some { o } else { None }),
{ o.filter(char::is_ascii_hexdigit) }
#[verifier::external_body]
pub fn vx_fmt_u04x(n: u32) -> (r: String)
    requires n <= 0xffff,
    ensures r@.len() == 6, r@[0] == '\\', r@[1] == 'u', hexn(r@.subrange(2, 6)) == Some(n as nat),
{ format!("\\u{:04x}", n) }

// ---------------------------------------------------------------- encoding
/// a basic-string body the lexer reads as one string: no bare quote, no newline
pub open spec fn lexable(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if s[0] == '\\' { s.len() >= 2 && s[1] != '\n' && s[1] != '\r' && lexable(s.skip(2)) }
    else { s[0] != '"' && s[0] != '\n' && s[0] != '\r' && lexable(s.skip(1)) }
}
pub open spec fn enc_ok(b: Seq<char>, v: Seq<char>) -> bool {
    lexable(b) && dec(b, true, false) == Some(v) && dec(b, false, false) == Some(v)
}
pub proof fn lemma_lexable_concat(a: Seq<char>, b: Seq<char>)
    requires lexable(a), lexable(b),
    ensures lexable(a + b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if a[0] == '\\' { lemma_lexable_concat(a.skip(2), b); assert((a + b).skip(2) =~= a.skip(2) + b); assert((a + b)[1] == a[1]); }
    else { lemma_lexable_concat(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); }
}
pub proof fn lemma_dec_concat(a: Seq<char>, b: Seq<char>, v11: bool)
    requires dec(a, v11, false) is Some,
    ensures dec(a + b, v11, false) == prepend(dec(a, v11, false)->0, dec(b, v11, false)),
    decreases a.len(),
{
    if a.len() == 0 { lemma_dec_empty(a, v11, false); assert(a + b =~= b); if dec(b, v11, false) is Some { lemma_empty_add(dec(b, v11, false)->0); } }
    else {
        lemma_dec_unfold(a, v11, false); lemma_dec_unfold(a + b, v11, false); lemma_step_len(a, v11, false);
        reveal(uni);
        let (n, o) = step(a, v11, false)->0;
        lemma_dec_concat(a.skip(n as int), b, v11);
        assert((a + b).skip(n as int) =~= a.skip(n as int) + b);
        assert((a + b)[0] == a[0]);
        if a[0] == '\\' {
            assert((a + b)[1] == a[1]);
            if n >= 4 { assert((a + b).subrange(2, n as int) =~= a.subrange(2, n as int)); }
        }
        assert(step(a + b, v11, false) == step(a, v11, false));
        lemma_prepend_assoc(o, dec(a.skip(n as int), v11, false)->0, dec(b, v11, false));
    }
}
pub proof fn lemma_enc_add(a: Seq<char>, v: Seq<char>, e: Seq<char>, c: char)
    requires enc_ok(a, v), enc_ok(e, seq![c]),
    ensures enc_ok(a + e, v + seq![c]),
{
    lemma_lexable_concat(a, e);
    lemma_dec_concat(a, e, true);
    lemma_dec_concat(a, e, false);
}
/// the decode of one escape (or one plain character) is that character
pub proof fn lemma_enc1(e: Seq<char>, c: char)
    ensures
        e.len() == 1 && e[0] == c && !bad_control(c) && c != '"' && c != '\\' ==> enc_ok(e, seq![c]),
        e.len() == 2 && e[0] == '\\' && simple_escape(e[1], false) == Some(c) ==> enc_ok(e, seq![c]),
        e.len() == 6 && e[0] == '\\' && e[1] == 'u' && (hexn(e.subrange(2, 6)) == Some(c as nat)) ==> enc_ok(e, seq![c]),
{
    reveal(dec); reveal(uni);
    broadcast use lemma_add_empty;
    let z = Seq::<char>::empty();
    assert(dec(z, true, false) == Some(z) && dec(z, false, false) == Some(z) && lexable(z));
    if e.len() == 1 { assert(e.skip(1) =~= z); assert(lexable(e.skip(1)) == true); }
    if e.len() == 2 { assert(e.skip(2) =~= z); }
    if e.len() == 6 && e[0] == '\\' && e[1] == 'u' && (hexn(e.subrange(2, 6)) == Some(c as nat)) {
        assert(e.skip(6) =~= z);
        lemma_hexn_bound(e.subrange(2, 6));
        assert forall|i: int| 2 <= i < 6 implies e[i] != '"' && e[i] != '\\' && e[i] != '\n' && e[i] != '\r' by { assert(e.subrange(2, 6)[i - 2] == e[i]); assert(hexd(e.subrange(2, 6)[i - 2]) is Some); }
        let f = e.skip(2);
        assert(lexable(f.skip(4))) by { assert(f.skip(4) =~= z); }
        assert(lexable(f.skip(3))) by { assert(f.skip(3).skip(1) =~= f.skip(4)); }
        assert(lexable(f.skip(2))) by { assert(f.skip(2).skip(1) =~= f.skip(3)); }
        assert(lexable(f.skip(1))) by { assert(f.skip(1).skip(1) =~= f.skip(2)); }
        assert(lexable(f));
        assert(((c as nat) as u32) as char == c);
        assert(char_of(c as nat) == Some(c));
        assert(dec(e, true, false) == Some(seq![c] + z));
    }
}
pub open spec fn encodes(r: Seq<char>, v: Seq<char>) -> bool {
    quoted(r, '"', 1) && enc_ok(body(r, 1), v)
}
/// the first and last n characters are one byte each, so byte slicing off n bytes is slicing off n characters
pub proof fn lemma_quoted_slice(s: Seq<char>, q: char, n: int)
    requires quoted(s, q, n), (q as u32) < 0x80, 0 <= n <= 3,
    ensures blen(s) >= 2 * n, is_bound(s, n), is_bound(s, blen(s) - n), cidx(s, n) == n, cidx(s, blen(s) - n) == s.len() - n,
        n <= blen(s) - n,
{
    let l = s.len() as int;
    lemma_blen_ascii(s.take(n), q);
    lemma_blen_ascii(s.skip(l - n), q);
    lemma_blen_split(s, l - n);
    lemma_blen_mono(s, n, l - n);
    lemma_cidx(s, n); lemma_cidx(s, l - n);
}
pub proof fn lemma_blen_ascii(s: Seq<char>, q: char)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] == q, (q as u32) < 0x80,
    ensures blen(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_blen_ascii(s.skip(1), q); } }
pub proof fn lemma_declit_plain(s: Seq<char>, ml: bool)
    requires forall|i: int| 0 <= i < s.len() ==> !bad_control(#[trigger] s[i]) || (ml && s[i] == '\n'),
    ensures declit(s, ml) == Some(s),
    decreases s.len(),
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies !bad_control(#[trigger] s.skip(1)[i]) || (ml && s.skip(1)[i] == '\n') by { assert(s[i + 1] == s.skip(1)[i]); } lemma_declit_plain(s.skip(1), ml); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(s =~= Seq::<char>::empty()); } }
pub proof fn lemma_dec_plain(s: Seq<char>, v11: bool)
    requires forall|i: int| 0 <= i < s.len() ==> (!bad_control(#[trigger] s[i]) || s[i] == '\n') && s[i] != '\\',
    ensures dec(s, v11, true) == Some(s),
    decreases s.len(),
{ if s.len() > 0 { lemma_dec_unfold(s, v11, true); assert forall|i: int| 0 <= i < s.skip(1).len() implies (!bad_control(#[trigger] s.skip(1)[i]) || s.skip(1)[i] == '\n') && s.skip(1)[i] != '\\' by { assert(s[i + 1] == s.skip(1)[i]); } lemma_dec_plain(s.skip(1), v11); assert(seq![s[0]] + s.skip(1) =~= s); } else { lemma_dec_empty(s, v11, true); assert(s =~= Seq::<char>::empty()); } }
/// what the four string forms mean: quotes around a body that decodes to v and that the lexer reads as one string
pub open spec fn no_char(s: Seq<char>, q: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != q }
pub open spec fn enc_lit(r: Seq<char>, v: Seq<char>) -> bool {
    quoted(r, '\'', 1) && no_char(body(r, 1), '\'') && no_char(body(r, 1), '\n') && no_char(body(r, 1), '\r') && declit(body(r, 1), false) == Some(v)
}
pub open spec fn enc_mlb(r: Seq<char>, v: Seq<char>) -> bool {
    quoted(r, '"', 3) && no_char(body(r, 3), '"') && no_char(body(r, 3), '\\')
    && dec(trim1(body(r, 3)), true, true) == Some(v) && dec(trim1(body(r, 3)), false, true) == Some(v)
}
pub open spec fn enc_mll(r: Seq<char>, v: Seq<char>) -> bool {
    quoted(r, '\'', 3) && no_char(body(r, 3), '\'') && declit(trim1(body(r, 3)), true) == Some(v)
}
pub open spec fn bare_char(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' || c == '-' }
pub open spec fn is_placeholder(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '$' && s[1] == '{' && s.last() == '}' }
pub open spec fn is_bare(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> bare_char(#[trigger] s[i]) }
#[verifier::external_body]
pub fn vx_strip_prefix_str<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures s@.len() >= p@.len() && s@.take(p@.len() as int) == p@ ==> r is Some && r->0@ == s@.skip(p@.len() as int),
            !(s@.len() >= p@.len() && s@.take(p@.len() as int) == p@) ==> r is None,
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn vx_strip_prefix_char<'a>(s: &'a str, p: char) -> (r: Option<&'a str>)
    ensures s@.len() >= 1 && s@[0] == p ==> r is Some && r->0@ == s@.skip(1),
            !(s@.len() >= 1 && s@[0] == p) ==> r is None,
{ s.strip_prefix(p) }
#[verifier::external_body]
pub fn vx_or_else<'a, P: FnOnce() -> Option<&'a str>>(o: Option<&'a str>, p: P) -> (r: Option<&'a str>)
    requires p.requires(()),
    ensures o is Some ==> r == o, o is None ==> p.ensures((), r),
{ o.or_else(p) }
#[verifier::external_body]
pub fn vx_unwrap_or<'a>(o: Option<&'a str>, d: &'a str) -> (r: &'a str)
    ensures r == (match o { Some(x) => x, None => d }),
{ o.unwrap_or(d) }
#[verifier::external_body]
pub fn vx_starts_with_str(s: &str, p: &str) -> (r: bool) ensures r == (s@.len() >= p@.len() && s@.take(p@.len() as int) == p@) { s.starts_with(p) }
#[verifier::external_body]
pub fn vx_ends_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == p) { s.ends_with(p) }
#[verifier::external_body]
pub fn vx_contains_char(s: &str, p: char) -> (r: bool) ensures r == (exists|i: int| 0 <= i < s@.len() && #[trigger] s@[i] == p) { s.contains(p) }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub open spec fn seqany(s: Seq<char>, p: spec_fn(char) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && p(#[trigger] s[i]) }
#[verifier::external_body]
pub fn vx_any<P: Fn(char) -> bool>(s: &str, p: P) -> (r: bool)
    requires forall|c: char| p.requires((c,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && p.ensures((#[trigger] s@[i],), true),
            !r ==> forall|i: int| 0 <= i < s@.len() ==> p.ensures((#[trigger] s@[i],), false),
{ s.chars().any(p) }
#[verifier::external_body]
pub fn vx_all<P: Fn(char) -> bool>(s: &str, p: P) -> (r: bool)
    requires forall|c: char| p.requires((c,)),
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> p.ensures((#[trigger] s@[i],), true),
            !r ==> exists|i: int| 0 <= i < s@.len() && p.ensures((#[trigger] s@[i],), false),
{ s.chars().all(p) }
'''

RW = [
    ("&$v[$a..]", "vx_slice_from(&$v, $a)"),
    ("&$v[$$a..$$b]", "vx_slice($v, $$a, $$b)"),
    ("value.chars().any($$p)", "vx_any(value, $$p)"),
    ("value.chars().all($$p)", "vx_all(value, $$p)"),
    ("value.starts_with($$p)", "vx_starts_with_str(value, $$p)"),
    ("value.ends_with($$p)", "vx_ends_with_char(value, $$p)"),
    ("value.contains($$p)", "vx_contains_char(value, $$p)"),
    ("value.is_empty()", "vx_is_empty(value)"),
    ("result.push_str(value)", "vx_push_str(&mut result, value)"),
    ("result.push_str(&$$e)", "vx_push_str(&mut result, &$$e)"),
    ("result.push_str($l)", "vx_push_str(&mut result, { proof { reveal_strlit($l); } $l })"),
    ("std::char::from_u32($$x)", "vx_from_u32($$x)"),
    ("char::from_u32($$x)", "vx_from_u32($$x)"),
    ("u32::from_str_radix($$x)", "vx_from_str_radix($$x)"),
    ("$x.chars().peekable()", "vx_chars_peekable($x)"),
    ("String::with_capacity($$x)", "vx_with_capacity($$x)"),
    ("$x.len()", "vx_len($x)"),
    ("chars.next().filter(char::is_ascii_hexdigit)", "vx_filter_hexdigit(chars.next())"),
    ("Some(&$p)", "Some($p)"),
    # or-pattern with a guard: the same arm once per alternative
    ("$a | $b if is_multi_line => $c", "$a if is_multi_line => $c $b if is_multi_line => $c"),
    ("for _ in $$r {", "for _i in $$r {"),
    # the language's own desugaring of a for loop over an iterator
    ("for c in value.chars() {", "let mut it = vx_chars_peekable(value); while let Some(c) = it.next() {"),
    ("output.push($$x)", "vx_push(&mut output, $$x)"),
    ("result.push($$x)", "vx_push(&mut result, $$x)"),
    ("unicode_buf.push($$x)", "vx_push(&mut unicode_buf, $$x)"),
    ("$c.is_control()", "vx_is_control($c)"),
    ('format!("\\\\u{:04x}", $$x)', "vx_fmt_u04x($$x)"),
    ("value.to_string()", "vx_to_string(value)"),
    ("$x.strip_prefix($$s).or_else(|| $y.strip_prefix($$c)).unwrap_or($$d)",
     "vx_unwrap_or(vx_or_else(vx_strip_prefix_str($x, $$s), || -> (q: Option<&str>) ensures q is Some <==> (value@.len() >= 1 && value@[0] == '\\n'), q is Some ==> q->0@ == value@.skip(1) { vx_strip_prefix_char($y, $$c) }), $$d)"),
]


INNER = """chars.src() == input@, chars.wf(), v11 == tv11(toml_version), ml == is_multi_line, output@ == o0, r0 == input@.skip(p0), 0 <= p0,
        r0.len() >= 2, r0[0] == '\\\\',
        dec(input@, v11, ml) == prepend(o0, dec(r0, v11, ml)),
        dec(r0, v11, ml) == (match step(r0, v11, ml) { None => None, Some((n, out)) => prepend(out, dec(r0.skip(n as int), v11, ml)) }),
        """.replace("\\\\\\\\", "\\\\")
HEXLOOP = lambda n: Loop("for", invariant=INNER + f"""
        0 <= _i <= {n}, all_hex(unicode_buf@), chars.pos() == p0 + 2 + _i,
        unicode_buf@ == r0.subrange(2, 2 + _i as int), step(r0, v11, ml) == uni(r0, {n})""",
    start="proof { if r0.len() > 2 + _i { lemma_hex_push(r0, 2 + _i as int); } if !(r0.len() > 2 + _i && hexd(r0[2 + _i as int]) is Some) { lemma_uni_none(r0, %d, _i as int); } }" % n,
    after="proof { lemma_uni(r0, %d); }" % n)

parse_basic = Fn(L, "fn parse_basic_string",
    ensures="okr(r) == dec(input@, tv11(toml_version), is_multi_line)",
    entry="let ghost v11 = tv11(toml_version); let ghost ml = is_multi_line; proof { assert(input@.skip(0) =~= input@); }",
    loops={
      0: Loop("while let", before="proof { if dec(input@, v11, ml) is Some { lemma_empty_add(dec(input@, v11, ml)->0); } }",
         invariant="""dec(input@, v11, ml) == prepend(output@, dec(chars@, v11, ml)), v11 == tv11(toml_version), ml == is_multi_line,
            chars.src() == input@, chars.wf()""",
         ensures="chars@.len() == 0",
         decreases="chars@.len()",
         start="""let ghost o0 = output@; let ghost p0 = chars.pos() - 1; let ghost r0 = input@.skip(p0);
            proof { lemma_dec_unfold(r0, v11, ml); assert(r0.skip(1) =~= input@.skip(p0 + 1)); }""",
         end="""proof {
            let (n, out) = step(r0, v11, ml)->0;
            lemma_prepend_assoc(o0, out, dec(r0.skip(n as int), v11, ml));
            assert(chars.pos() == p0 + n);
            assert(r0.skip(n as int) =~= input@.skip(p0 + n));
            assert(output@ =~= o0 + out);
         }""",
         after="proof { lemma_dec_empty(chars@, v11, ml); assert(output@ + Seq::<char>::empty() =~= output@); }"),
      1: HEXLOOP(4), 2: HEXLOOP(8), 3: HEXLOOP(2),
      4: Loop("while let",
         before="let ghost r1 = r0.skip(1); proof { lemma_ws(r1); lemma_step_ws(r0, v11, ml); }",
         invariant=INNER + r"""r1 == r0.skip(1), p0 + 1 <= chars.pos() <= input@.len(),
            ws_run(r1) == chars.pos() - p0 - 1 + ws_run(input@.skip(chars.pos())), ws_run(r1) <= r1.len(), has_newline ==> has_nl(r1),
            !has_newline ==> has_nl(r1) == has_nl(input@.skip(chars.pos())),
            step(r0, v11, ml) == (if ml && has_nl(r1) { Some(((1 + ws_run(r1)) as nat, Seq::<char>::empty())) } else { None })""",
         ensures="ws_run(chars@) == 0, !has_nl(chars@)", decreases="chars@.len()",
         start="""let ghost rc = chars@; let ghost pc = chars.pos();
            proof { lemma_ws(rc); assert(rc.skip(1) =~= input@.skip(pc + 1)); if rc.len() > 1 { assert(rc.skip(2) =~= input@.skip(pc + 2)); }
                if rc[0] == '\\r' && (rc.len() == 1 || rc[1] != '\\n') { lemma_bare_cr(rc, v11); assert(r0.skip(1 + ws_run(r1) as int) =~= rc); } }""".replace("\\\\", "\\"),
         after="proof { lemma_ws(chars@); }"),
    })


QUOTES = [("basic_string", '"', 1), ("literal_string", "\\'", 1), ("multi_line_basic_string", '"', 3), ("multi_line_literal_string", "\\'", 3)]
DECODE = [parse_basic,
    Fn(L, "fn parse_literal_string",
       ensures="okr(r) == declit(input@, is_multi_line)",
       entry="proof { assert(input@.skip(0) =~= input@); }",
       loops={0: Loop("while let", before="proof { if declit(input@, is_multi_line) is Some { lemma_empty_add(declit(input@, is_multi_line)->0); } }",
         invariant="declit(input@, is_multi_line) == prepend(output@, declit(chars@, is_multi_line)), chars.src() == input@, chars.wf()",
         ensures="chars@.len() == 0", decreases="chars@.len()",
         start="let ghost o0 = output@; let ghost p0 = chars.pos() - 1; let ghost r0 = input@.skip(p0); proof { assert(r0.skip(1) =~= input@.skip(p0 + 1)); }",
         end="""proof {
            let n = chars.pos() - p0;
            let out = if n == 2 { seq!['\\r', '\\n'] } else { seq![c] };
            assert(r0.skip(n) =~= input@.skip(p0 + n));
            assert(declit(r0, is_multi_line) == prepend(out, declit(r0.skip(n), is_multi_line)));
            lemma_prepend_assoc(o0, out, declit(r0.skip(n), is_multi_line));
            assert(output@ =~= o0 + out);
         }""",
         after="proof { assert(output@ + Seq::<char>::empty() =~= output@); }")}),
    Fn(L, "fn trim_first_newline", ensures="r@ == trim1(value@)",
       
       entry="""proof { reveal_strlit("\\r\\n"); if value@.len() >= 2 { assert(value@.take(2) =~= seq![value@[0], value@[1]]); if value@[0] == '\\r' && value@[1] == '\\n' { assert(value@.take(2) =~= "\\r\\n"@); } } }"""),
    Fn(L, "fn try_from_basic_string", requires="quoted(value@, '\"', 1)",
       ensures="okr(r) == dec(body(value@, 1), tv11(toml_version), false)", entry="proof { lemma_quoted_slice(value@, '\"', 1); }"),
    Fn(L, "fn try_from_literal_string", requires="quoted(value@, '\\'', 1)",
       ensures="okr(r) == declit(body(value@, 1), false)", entry="proof { lemma_quoted_slice(value@, '\\'', 1); }"),
    Fn(L, "fn try_from_multi_line_basic_string", requires="quoted(value@, '\"', 3)",
       ensures="okr(r) == dec(trim1(body(value@, 3)), tv11(toml_version), true)", entry="proof { lemma_quoted_slice(value@, '\"', 3); }"),
    Fn(L, "fn try_from_multi_line_literal_string", requires="quoted(value@, '\\'', 3)",
       ensures="okr(r) == declit(trim1(body(value@, 3)), true)", entry="proof { lemma_quoted_slice(value@, '\\'', 3); }"),
    Fn(L, "fn try_from_bare_key",
       closures={0: "|$0: char| -> (b: bool) ensures b == ($0 == '+')", 1: "|$0: char| -> (b: bool) ensures b == (bare_char($0) || $0 == '.')"},
       ensures="r is Ok <==> (forall|i: int| 0 <= i < value@.len() ==> bare_char(#[trigger] value@[i]) || value@[i] == '.'), r is Ok ==> r->Ok_0@ == value@"),
]
ANYLIT = lambda extra: {0: "|$0: char| -> (b: bool) ensures b == (%s)" % extra}
PLAIN = lambda n, l: "proof { let b3 = body(r@, %d); assert(%s); %s }".replace("r@", "result@") % (n, "b3 =~= value@" if n == 1 else "b3 =~= seq!['\\n'] + value@", l)
ENCODE = [
    Fn(L, "fn to_basic_string", ensures="encodes(r@, value@)",
       entry="proof { assert(value@.skip(0) =~= value@); }",
       loops={0: Loop("while let",
          before="let ghost mut b: Seq<char> = Seq::empty(); proof { lemma_dec_empty(b, true, false); lemma_dec_empty(b, false, false); assert(value@.take(0) =~= Seq::<char>::empty()); }",
          invariant="result@ == seq!['\"'] + b, enc_ok(b, value@.take(it.pos())), it.src() == value@, it.wf()",
          ensures="it.pos() == value@.len()", decreases="it@.len()", after="let ghost b1 = b; proof { assert(value@.take(value@.len() as int) =~= value@); }",
          start="let ghost b0 = b; let ghost p0 = it.pos() - 1;",
          end="""proof { broadcast use lemma_concat_skip; let e = result@.skip(1 + b0.len() as int); b = b0 + e; assert(result@ =~= seq!['"'] + b); lemma_enc1(e, c); lemma_enc_add(b0, value@.take(p0), e, c); assert(value@.take(p0) + seq![c] =~= value@.take(p0 + 1)); }""")},
       tail="proof { assert(body(result@, 1) =~= b1); }"),
    Fn(L, "fn to_key_string",
       ensures="is_placeholder(value@) ==> r@ == value@, !is_placeholder(value@) ==> (is_bare(r@) && r@ == value@) || encodes(r@, value@)"),
    Fn(L, "fn is_variable_placeholder", ensures="r == is_placeholder(value@)",
       entry="""proof { reveal_strlit("${"); if value@.len() >= 2 { assert(value@.take(2) =~= seq![value@[0], value@[1]]); if value@[0] == '$' && value@[1] == '{' { assert(value@.take(2) =~= "${"@); } } }"""),
    Fn(L, "fn is_display_bare_key", ensures="r == is_bare(value@)"),
    Fn(L, "fn to_literal_string", ensures="enc_lit(r@, value@) || encodes(r@, value@)", closures=ANYLIT("$0 == '\\'' || (is_control($0) && $0 != '\\t')"),
       tail=PLAIN(1, "lemma_declit_plain(value@, false);")),
    Fn(L, "fn to_multi_line_basic_string", ensures="enc_mlb(r@, value@) || encodes(r@, value@)", closures=ANYLIT("$0 == '\"' || $0 == '\\\\' || (is_control($0) && $0 != '\\t' && $0 != '\\n')"), tail=PLAIN(3, "lemma_dec_plain(value@, true); lemma_dec_plain(value@, false); assert(b3.skip(1) =~= value@);")),
    Fn(L, "fn to_multi_line_literal_string", ensures="enc_mll(r@, value@) || encodes(r@, value@)", closures=ANYLIT("$0 == '\\'' || (is_control($0) && $0 != '\\t' && $0 != '\\n')"), tail=PLAIN(3, "lemma_declit_plain(value@, true); assert(b3.skip(1) =~= value@);")),
]
COMMON = [
    Raw("crates/tombi-toml-version/src/lib.rs", "macro define_toml_version / enum TomlVersion", rewrites=[("=> $v,", ",")], attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]"),
    Raw(L, "enum ParseError"),
    Text(STR), Text(PKCHARS), Text(SPEC)]
UNIT = Unit("toml_text", COMMON + DECODE + ENCODE, rewrites=RW)
C04 = Unit("string_decode", COMMON + DECODE, rewrites=RW)
C05 = Unit("string_encode", COMMON + DECODE + ENCODE, rewrites=RW)
