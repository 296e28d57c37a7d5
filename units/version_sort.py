import re
from vgen import *
from shims import *
from rsx import tokenize

V = "crates/tombi-version-sort/src/lib.rs"

SPEC = r'''
// ---------------------------------------------------------------- std contracts
pub open spec fn is_dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dig(c: char) -> int { c as int - '0' as int }
/// lexicographic order of texts (str's Ord: UTF-8 preserves code point order)
pub open spec fn lex(a: Seq<char>, b: Seq<char>) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if (a[0] as int) < b[0] as int { -1 }
    else if (a[0] as int) > b[0] as int { 1 }
    else { lex(a.skip(1), b.skip(1)) }
}
pub open spec fn ordi(o: Ordering) -> int { match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 } }
#[verifier::external_body]
pub fn vx_cmp_str(a: &str, b: &str) -> (r: Ordering) ensures ordi(r) == lex(a@, b@) { a.cmp(b) }
pub fn vx_cmp_usize(a: usize, b: usize) -> (r: Ordering) ensures ordi(r) == sgn(a as int - b as int) { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub fn vx_then(a: Ordering, b: Ordering) -> (r: Ordering) ensures ordi(r) == (if ordi(a) != 0 { ordi(a) } else { ordi(b) }) { match a { Ordering::Equal => b, o => o } }
pub open spec fn sgn(x: int) -> int { if x < 0 { -1 } else if x > 0 { 1 } else { 0 } }
pub open spec fn starts(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && forall|k: int| 0 <= k < t.len() ==> s[k] == #[trigger] t[k] }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, t: &str) -> (r: bool) ensures r == starts(s@, t@) { s.starts_with(t) }
#[verifier::external_body]
pub fn vx_is_dig(c: char) -> (r: bool) ensures r == is_dig(c) { c.is_ascii_digit() }
#[verifier::external_body]
pub fn vx_len_utf8(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
pub open spec fn zeros(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 || s[0] != '0' { 0 } else { 1 + zeros(s.skip(1)) } }
/// chars().take_while(|c| *c == '0').count()
#[verifier::external_body]
pub fn vx_zeros(s: &str) -> (r: usize) ensures r == zeros(s@) { s.chars().take_while(|c| *c == '0').count() }
/// value of a string of decimal digits
pub open spec fn numv(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { numv(s.drop_last()) * 10 + (if is_dig(s.last()) { dig(s.last()) as nat } else { 0 }) } }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_dig(#[trigger] s[i]) }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_body]
pub fn vx_parse_usize(s: &str) -> (r: Result<usize, std::num::ParseIntError>)
    ensures s@.len() > 0 && digits(s@) ==> (match r { Ok(v) => v == numv(s@), Err(_) => numv(s@) > usize::MAX }),
{ s.parse::<usize>() }
/// std::str::CharIndices: `src` is the text it was made from, `pos` the number of characters consumed
#[verifier::external_body]
pub struct CharIdx<'a> { it: std::str::CharIndices<'a> }
impl<'a> CharIdx<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(usize, char)>)
        requires 0 <= old(self).pos() <= old(self).src().len(),
        ensures final(self).src() == old(self).src(),
            old(self).pos() == old(self).src().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).src().len() ==> r == Some((blen(old(self).src().take(old(self).pos())) as usize, old(self).src()[old(self).pos()])) && final(self).pos() == old(self).pos() + 1,
            blen(old(self).src()) <= 0x7fff_ffff_ffff_ffff,
    { self.it.next() }
}
#[verifier::external_body]
pub fn vx_char_indices<'a>(s: &'a str) -> (r: CharIdx<'a>) ensures r.src() == s@, r.pos() == 0 { CharIdx { it: s.char_indices() } }
/// itertools::EitherOrBoth and one step of zip_longest
pub enum EitherOrBoth<A, B> { Both(A, B), Left(A), Right(B) }
pub fn vx_zip<A, B>(a: Option<A>, b: Option<B>) -> (r: Option<EitherOrBoth<A, B>>)
    ensures r == (match (a, b) { (Some(x), Some(y)) => Some(EitherOrBoth::Both(x, y)), (Some(x), None) => Some(EitherOrBoth::Left(x)), (None, Some(y)) => Some(EitherOrBoth::Right(y)), (None, None) => None::<EitherOrBoth<A, B>> }),
{ match (a, b) { (Some(x), Some(y)) => Some(EitherOrBoth::Both(x, y)), (Some(x), None) => Some(EitherOrBoth::Left(x)), (None, Some(y)) => Some(EitherOrBoth::Right(y)), (None, None) => None } }

// ---------------------------------------------------------------- the order (specification)
pub open spec fn at(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
/// length of the version operator at i, 0 if there is none
pub open spec fn op_len(s: Seq<char>, i: int) -> int {
    if at(s, i, '=') { if at(s, i + 1, '=') { if at(s, i + 2, '=') { 3 } else { 2 } } else { 1 } }
    else if at(s, i, '>') || at(s, i, '<') { if at(s, i + 1, '=') { 2 } else { 1 } }
    else if at(s, i, '!') { if at(s, i + 1, '=') { 2 } else { 0 } }
    else if at(s, i, '~') { if at(s, i + 1, '=') || at(s, i + 1, '>') { 2 } else { 1 } }
    else if at(s, i, '^') { 1 }
    else { 0 }
}
pub open spec fn dig_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && is_dig(s[i]) { dig_end(s, i + 1) } else { i } }
pub open spec fn str_end(s: Seq<char>, i: int) -> int decreases s.len() - i {
    if 0 <= i < s.len() && s[i] != '_' && s[i] != '-' && !is_dig(s[i]) && op_len(s, i) == 0 { str_end(s, i + 1) } else { i }
}
pub enum Ck { Sep, Op(Seq<char>), Str(Seq<char>), Num(Seq<char>) }
pub open spec fn ck_end(s: Seq<char>, i: int) -> int {
    if s[i] == '_' || s[i] == '-' { i + 1 } else if is_dig(s[i]) { dig_end(s, i) } else if op_len(s, i) > 0 { i + op_len(s, i) } else { str_end(s, i) }
}
pub open spec fn ck_at(s: Seq<char>, i: int) -> Ck {
    let t = s.subrange(i, ck_end(s, i));
    if s[i] == '_' || s[i] == '-' { Ck::Sep } else if is_dig(s[i]) { Ck::Num(t) } else if op_len(s, i) > 0 { Ck::Op(t) } else { Ck::Str(t) }
}
pub proof fn lemma_dig_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= dig_end(s, i) <= s.len(), forall|k: int| i <= k < dig_end(s, i) ==> is_dig(#[trigger] s[k]), i < s.len() && is_dig(s[i]) ==> dig_end(s, i) > i,
    decreases s.len() - i,
{ if i < s.len() && is_dig(s[i]) { lemma_dig_end(s, i + 1); } }
pub proof fn lemma_str_end(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= str_end(s, i) <= s.len(),
    decreases s.len() - i,
{ if i < s.len() && s[i] != '_' && s[i] != '-' && !is_dig(s[i]) && op_len(s, i) == 0 { lemma_str_end(s, i + 1); } }
pub proof fn lemma_ck_end(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures i < ck_end(s, i) <= s.len(), wf(ck_at(s, i)),
{
    lemma_dig_end(s, i); lemma_str_end(s, i); lemma_str_end(s, i + 1);
    let t = s.subrange(i, ck_end(s, i));
    assert(t.len() > 0 ==> t[0] == s[i]);
    assert(digits(s.subrange(i, dig_end(s, i))));
}
pub open spec fn chunks(s: Seq<char>, i: int) -> Seq<Ck> decreases s.len() - i {
    if 0 <= i < s.len() && i < ck_end(s, i) <= s.len() { seq![ck_at(s, i)] + chunks(s, ck_end(s, i)) } else { Seq::empty() }
}
pub open spec fn wf(c: Ck) -> bool {
    match c {
        Ck::Num(t) => t.len() > 0 && digits(t),
        Ck::Str(t) => t.len() > 0 && !is_dig(t[0]),
        _ => true,
    }
}
pub open spec fn rank(c: Ck) -> int { match c { Ck::Op(_) => 0, Ck::Sep => 1, _ => 2 } }
pub open spec fn ck_cmp(a: Ck, b: Ck) -> int {
    if rank(a) != rank(b) { sgn(rank(a) - rank(b)) }
    else {
        match (a, b) {
            (Ck::Op(x), Ck::Op(y)) => lex(x, y),
            (Ck::Str(x), Ck::Str(y)) => lex(x, y),
            (Ck::Str(x), Ck::Num(y)) => lex(x, y),
            (Ck::Num(x), Ck::Str(y)) => lex(x, y),
            (Ck::Num(x), Ck::Num(y)) => sgn(numv(x) as int - numv(y) as int),
            _ => 0,
        }
    }
}
/// of two equal numbers the one with more leading zeros comes first
pub open spec fn zc(a: Ck, b: Ck) -> int { match (a, b) { (Ck::Num(x), Ck::Num(y)) => sgn(zeros(y) as int - zeros(x) as int), _ => 0 } }
pub open spec fn vcmp(a: Seq<Ck>, b: Seq<Ck>, z: int) -> int decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { z } else { -1 } }
    else if b.len() == 0 { 1 }
    else if ck_cmp(a[0], b[0]) != 0 { ck_cmp(a[0], b[0]) }
    else { vcmp(a.skip(1), b.skip(1), if z != 0 { z } else { zc(a[0], b[0]) }) }
}
pub open spec fn version_cmp(a: Seq<char>, b: Seq<char>) -> int { vcmp(chunks(a, 0), chunks(b, 0), 0) }

// ---------------------------------------------------------------- it is a total preorder
pub open spec fn consistent(x: int, y: int, z: int) -> bool {
    &&& (x <= 0 && y <= 0 ==> z <= 0) && (x >= 0 && y >= 0 ==> z >= 0)
    &&& (x <= 0 && y <= 0 && (x < 0 || y < 0) ==> z < 0) && (x >= 0 && y >= 0 && (x > 0 || y > 0) ==> z > 0)
}
pub proof fn lemma_lex(a: Seq<char>, b: Seq<char>)
    ensures lex(b, a) == -lex(a, b), lex(a, a) == 0, lex(a, b) == 0 ==> a == b, -1 <= lex(a, b) <= 1,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 { lemma_lex(a.skip(1), b.skip(1));
        if lex(a, b) == 0 { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
    else if a.len() > 0 { lemma_lex(a.skip(1), b); }
    else if b.len() == 0 { assert(a =~= b); }
}
pub proof fn lemma_lex_consistent(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures consistent(lex(a, b), lex(b, c), lex(a, c)),
    decreases a.len() + b.len() + c.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 { lemma_lex_consistent(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn lemma_first(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, b.len() > 0, is_dig(a[0]), !is_dig(b[0]),
    ensures lex(a, b) == (if (b[0] as int) < '0' as int { 1int } else { -1int }), lex(b, a) == -lex(a, b),
{ lemma_lex(a, b); }
pub proof fn lemma_ck(a: Ck, b: Ck)
    requires wf(a), wf(b),
    ensures ck_cmp(b, a) == -ck_cmp(a, b), ck_cmp(a, a) == 0, zc(b, a) == -zc(a, b), zc(a, a) == 0, -1 <= ck_cmp(a, b) <= 1, -1 <= zc(a, b) <= 1,
{
    match (a, b) {
        (Ck::Op(x), Ck::Op(y)) => lemma_lex(x, y), (Ck::Str(x), Ck::Str(y)) => lemma_lex(x, y), (Ck::Str(x), Ck::Num(y)) => lemma_lex(x, y), (Ck::Num(x), Ck::Str(y)) => lemma_lex(x, y), _ => {}
    }
    match a { Ck::Op(x) => lemma_lex(x, x), Ck::Str(x) => lemma_lex(x, x), _ => {} }
}
pub proof fn lemma_ck_consistent(a: Ck, b: Ck, c: Ck)
    requires wf(a), wf(b), wf(c),
    ensures consistent(ck_cmp(a, b), ck_cmp(b, c), ck_cmp(a, c)), consistent(zc(a, b), zc(b, c), zc(a, c)) || !(a is Num && b is Num && c is Num),
{
    lemma_ck(a, b); lemma_ck(b, c); lemma_ck(a, c);
    match (a, b, c) {
        (Ck::Op(x), Ck::Op(y), Ck::Op(z)) => lemma_lex_consistent(x, y, z),
        (Ck::Str(x), Ck::Str(y), Ck::Str(z)) => lemma_lex_consistent(x, y, z),
        (Ck::Str(x), Ck::Str(y), Ck::Num(z)) => lemma_lex_consistent(x, y, z),
        (Ck::Str(x), Ck::Num(y), Ck::Str(z)) => lemma_lex_consistent(x, y, z),
        (Ck::Num(x), Ck::Str(y), Ck::Str(z)) => lemma_lex_consistent(x, y, z),
        (Ck::Str(x), Ck::Num(y), Ck::Num(z)) => { lemma_first(y, x); lemma_first(z, x); }
        (Ck::Num(x), Ck::Str(y), Ck::Num(z)) => { lemma_first(x, y); lemma_first(z, y); }
        (Ck::Num(x), Ck::Num(y), Ck::Str(z)) => { lemma_first(x, z); lemma_first(y, z); }
        _ => {}
    }
}
pub open spec fn all_wf(a: Seq<Ck>) -> bool { forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i]) }
/// equal chunks of different shape do not exist
pub proof fn lemma_same_shape(a: Ck, b: Ck)
    requires wf(a), wf(b), ck_cmp(a, b) == 0,
    ensures (a is Num) == (b is Num),
{ match (a, b) { (Ck::Str(x), Ck::Num(y)) => lemma_first(y, x), (Ck::Num(x), Ck::Str(y)) => lemma_first(x, y), _ => {} } }
pub proof fn lemma_wf_skip(a: Seq<Ck>)
    requires all_wf(a), a.len() > 0,
    ensures all_wf(a.skip(1)), wf(a[0]),
{ assert forall|i: int| 0 <= i < a.skip(1).len() implies wf(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); } }
pub proof fn lemma_vcmp_anti(a: Seq<Ck>, b: Seq<Ck>, z: int)
    requires all_wf(a), all_wf(b),
    ensures vcmp(b, a, -z) == -vcmp(a, b, z),
    decreases a.len(),
{ if a.len() > 0 && b.len() > 0 { lemma_wf_skip(a); lemma_wf_skip(b); lemma_ck(a[0], b[0]); lemma_vcmp_anti(a.skip(1), b.skip(1), if z != 0 { z } else { zc(a[0], b[0]) }); } }
pub proof fn lemma_vcmp_refl(a: Seq<Ck>)
    requires all_wf(a),
    ensures vcmp(a, a, 0) == 0,
    decreases a.len(),
{ if a.len() > 0 { lemma_wf_skip(a); lemma_ck(a[0], a[0]); lemma_vcmp_refl(a.skip(1)); } }
pub proof fn lemma_vcmp_trans(a: Seq<Ck>, b: Seq<Ck>, c: Seq<Ck>, x: int, y: int, z: int)
    requires all_wf(a), all_wf(b), all_wf(c), consistent(x, y, z),
    ensures vcmp(a, b, x) <= 0 && vcmp(b, c, y) <= 0 ==> vcmp(a, c, z) <= 0,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lemma_wf_skip(a); lemma_wf_skip(b); lemma_wf_skip(c);
        lemma_ck_consistent(a[0], b[0], c[0]);
        if ck_cmp(a[0], b[0]) == 0 && ck_cmp(b[0], c[0]) == 0 {
            lemma_same_shape(a[0], b[0]); lemma_same_shape(b[0], c[0]);
            let x1 = if x != 0 { x } else { zc(a[0], b[0]) };
            let y1 = if y != 0 { y } else { zc(b[0], c[0]) };
            let z1 = if z != 0 { z } else { zc(a[0], c[0]) };
            assert(consistent(x1, y1, z1));
            lemma_vcmp_trans(a.skip(1), b.skip(1), c.skip(1), x1, y1, z1);
        }
    }
}
pub proof fn lemma_chunks_wf(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures all_wf(chunks(s, i)),
    decreases s.len() - i,
{
    if i < s.len() {
        lemma_ck_end(s, i); lemma_chunks_wf(s, ck_end(s, i));
        let r = chunks(s, ck_end(s, i)); let w = chunks(s, i);
        assert(w == seq![ck_at(s, i)] + r);
        assert forall|k: int| 0 <= k < w.len() implies wf(#[trigger] w[k]) by { if k > 0 { assert(w[k] == r[k - 1]); } }
    }
}

// ---------------------------------------------------------------- only texts that differ in - and _ are equal
pub open spec fn dash(c: char) -> char { if c == '-' { '_' } else { c } }
pub open spec fn norm(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| dash(c)) }
pub open spec fn ck_text(c: Ck) -> Seq<char> { match c { Ck::Sep => seq!['_'], Ck::Op(t) => norm(t), Ck::Str(t) => norm(t), Ck::Num(t) => norm(t) } }
pub open spec fn text_of(a: Seq<Ck>) -> Seq<char> decreases a.len() { if a.len() == 0 { Seq::empty() } else { ck_text(a[0]) + text_of(a.skip(1)) } }
pub proof fn lemma_text(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures text_of(chunks(s, i)) == norm(s.skip(i)),
    decreases s.len() - i,
{
    let w = chunks(s, i);
    if i < s.len() {
        lemma_ck_end(s, i); let e = ck_end(s, i); lemma_text(s, e);
        assert(w[0] == ck_at(s, i)); assert(w.skip(1) =~= chunks(s, e));
        assert(norm(s.skip(i)) =~= norm(s.subrange(i, e)) + norm(s.skip(e)));
        if s[i] == '_' || s[i] == '-' { assert(norm(s.subrange(i, e)) =~= seq!['_']); }
    } else { assert(norm(s.skip(i)) =~= Seq::<char>::empty()); }
}
pub proof fn lemma_zeros(s: Seq<char>)
    ensures zeros(s) <= s.len(), forall|k: int| 0 <= k < zeros(s) ==> s[k] == '0', zeros(s) < s.len() ==> s[zeros(s) as int] != '0',
    decreases s.len(),
{ if s.len() > 0 && s[0] == '0' { let t = s.skip(1); lemma_zeros(t);
    assert forall|k: int| 0 <= k < zeros(s) implies s[k] == '0' by { if k > 0 { assert(t[k - 1] == s[k]); } }
    if zeros(s) < s.len() { assert(t[zeros(t) as int] == s[zeros(s) as int]); } } }
pub open spec fn sig(s: Seq<char>) -> Seq<char> { s.skip(zeros(s) as int) }
pub proof fn lemma_numv_sig(s: Seq<char>)
    requires digits(s),
    ensures numv(sig(s)) == numv(s), digits(sig(s)), sig(s).len() > 0 ==> sig(s)[0] != '0',
    decreases s.len(),
{
    lemma_zeros(s);
    if zeros(s) == 0 { assert(sig(s) =~= s); }
    else if zeros(s) == s.len() { assert(sig(s) =~= Seq::<char>::empty()); lemma_all_zero(s); }
    else {
        let d = s.drop_last();
        lemma_zeros(d);
        assert(zeros(d) == zeros(s)) by { if zeros(d) < zeros(s) { assert(d[zeros(d) as int] == s[zeros(d) as int]); } else if zeros(d) > zeros(s) { assert(d[zeros(s) as int] == s[zeros(s) as int]); } }
        assert(digits(d)) by { assert forall|i: int| 0 <= i < d.len() implies is_dig(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_numv_sig(d);
        assert(sig(s).drop_last() =~= sig(d)); assert(sig(s).last() == s.last());
    }
    assert forall|i: int| 0 <= i < sig(s).len() implies is_dig(#[trigger] sig(s)[i]) by { assert(sig(s)[i] == s[i + zeros(s)]); }
}
pub proof fn lemma_all_zero(s: Seq<char>)
    requires forall|k: int| 0 <= k < s.len() ==> s[k] == '0',
    ensures numv(s) == 0,
    decreases s.len(),
{ if s.len() > 0 { lemma_all_zero(s.drop_last()); } }
pub open spec fn pow10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * pow10((n - 1) as nat) } }
pub proof fn lemma_p10_mono(a: nat, b: nat) requires a <= b, ensures 0 < pow10(a) <= pow10(b), decreases b, { if b > 0 { if a < b { lemma_p10_mono(a, (b - 1) as nat); } else { lemma_p10_mono((a - 1) as nat, (b - 1) as nat); } } }
pub proof fn lemma_bounds(s: Seq<char>)
    requires digits(s),
    ensures numv(s) < pow10(s.len()), s.len() > 0 && s[0] != '0' ==> numv(s) >= pow10((s.len() - 1) as nat),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(digits(d)) by { assert forall|i: int| 0 <= i < d.len() implies is_dig(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_bounds(d); assert(is_dig(s.last()));
        if d.len() > 0 { assert(d[0] == s[0]); }
    }
}
pub proof fn lemma_lex_snoc(a: Seq<char>, b: Seq<char>)
    requires a.len() == b.len(), a.len() > 0,
    ensures lex(a, b) == (if lex(a.drop_last(), b.drop_last()) != 0 { lex(a.drop_last(), b.drop_last()) } else { sgn(a.last() as int - b.last() as int) }),
    decreases a.len(),
{
    if a.len() == 1 { assert(a.skip(1) =~= b.skip(1)); lemma_lex(a.skip(1), b.skip(1)); assert(a.drop_last() =~= b.drop_last()); lemma_lex(a.drop_last(), b.drop_last()); }
    else { lemma_lex_snoc(a.skip(1), b.skip(1)); assert(a.skip(1).drop_last() =~= a.drop_last().skip(1)); assert(b.skip(1).drop_last() =~= b.drop_last().skip(1)); assert(a.drop_last()[0] == a[0]); assert(b.drop_last()[0] == b[0]); }
}
/// of two digit strings of one length the greater number is the later text
pub proof fn lemma_same_len(a: Seq<char>, b: Seq<char>)
    requires digits(a), digits(b), a.len() == b.len(),
    ensures lex(a, b) == sgn(numv(a) as int - numv(b) as int),
    decreases a.len(),
{
    if a.len() > 0 {
        let x = a.drop_last(); let y = b.drop_last();
        assert(digits(x)) by { assert forall|i: int| 0 <= i < x.len() implies is_dig(#[trigger] x[i]) by { assert(x[i] == a[i]); } }
        assert(digits(y)) by { assert forall|i: int| 0 <= i < y.len() implies is_dig(#[trigger] y[i]) by { assert(y[i] == b[i]); } }
        lemma_same_len(x, y); lemma_lex_snoc(a, b); assert(is_dig(a.last()) && is_dig(b.last()));
    }
}
/// numbers compare as (count of significant digits, these digits)
pub open spec fn sig_cmp(a: Seq<char>, b: Seq<char>) -> int { if a.len() != b.len() { sgn(a.len() as int - b.len() as int) } else { lex(a, b) } }
pub proof fn lemma_sig_cmp(a: Seq<char>, b: Seq<char>)
    requires digits(a), digits(b), a.len() > 0 ==> a[0] != '0', b.len() > 0 ==> b[0] != '0',
    ensures sig_cmp(a, b) == sgn(numv(a) as int - numv(b) as int),
{
    lemma_bounds(a); lemma_bounds(b);
    if a.len() < b.len() { lemma_p10_mono(a.len(), (b.len() - 1) as nat); }
    else if b.len() < a.len() { lemma_p10_mono(b.len(), (a.len() - 1) as nat); }
    else { lemma_same_len(a, b); }
}
pub proof fn lemma_equal(a: Seq<Ck>, b: Seq<Ck>, z: int)
    requires all_wf(a), all_wf(b), vcmp(a, b, z) == 0,
    ensures z == 0, text_of(a) == text_of(b),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lemma_wf_skip(a); lemma_wf_skip(b);
        let z1 = if z != 0 { z } else { zc(a[0], b[0]) };
        lemma_equal(a.skip(1), b.skip(1), z1);
        match (a[0], b[0]) {
            (Ck::Op(x), Ck::Op(y)) => lemma_lex(x, y), (Ck::Str(x), Ck::Str(y)) => lemma_lex(x, y), (Ck::Str(x), Ck::Num(y)) => lemma_first(y, x), (Ck::Num(x), Ck::Str(y)) => lemma_first(x, y),
            (Ck::Num(x), Ck::Num(y)) => {
                lemma_numv_sig(x); lemma_numv_sig(y); lemma_sig_cmp(sig(x), sig(y)); lemma_lex(sig(x), sig(y)); lemma_zeros(x); lemma_zeros(y);
                assert(sig(x) == sig(y));
                assert forall|k: int| 0 <= k < x.len() implies x[k] == y[k] by { if k >= zeros(x) { assert(x[k] == sig(x)[k - zeros(x)]); assert(y[k] == sig(y)[k - zeros(y)]); } }
                assert(x =~= y);
            }
            _ => {}
        }
    }
}
/// the property: a total preorder in which only texts that differ at most in - and _ are equal
pub proof fn lemma_total_preorder(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        version_cmp(a, a) == 0,
        version_cmp(b, a) == -version_cmp(a, b),
        version_cmp(a, b) <= 0 && version_cmp(b, c) <= 0 ==> version_cmp(a, c) <= 0,
        version_cmp(a, b) == 0 ==> norm(a) == norm(b),
{
    lemma_chunks_wf(a, 0); lemma_chunks_wf(b, 0); lemma_chunks_wf(c, 0);
    lemma_vcmp_refl(chunks(a, 0)); lemma_vcmp_anti(chunks(a, 0), chunks(b, 0), 0); lemma_vcmp_trans(chunks(a, 0), chunks(b, 0), chunks(c, 0), 0, 0, 0);
    if version_cmp(a, b) == 0 { lemma_equal(chunks(a, 0), chunks(b, 0), 0); lemma_text(a, 0); lemma_text(b, 0); assert(a.skip(0) =~= a); assert(b.skip(0) =~= b); }
}
'''
SPEC2 = r'''
pub open spec fn ck(c: VersionChunk) -> Ck {
    match c { VersionChunk::Underscore => Ck::Sep, VersionChunk::Hyphen => Ck::Sep, VersionChunk::VersionOp(t) => Ck::Op(t@), VersionChunk::Str(t) => Ck::Str(t@), VersionChunk::Number { value, zeros, source } => Ck::Num(source@) }
}
pub open spec fn min(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub open spec fn ck_ok(c: VersionChunk) -> bool { c is Number ==> c->Number_value == min(numv(c->Number_source@), usize::MAX as nat) && c->Number_zeros == zeros(c->Number_source@) }
impl<'a> VersionChunkIter<'a> {
    pub open spec fn k(&self) -> int { cidx(self.ident@, self.start as int) }
    pub open spec fn wf(&self) -> bool { is_bound(self.ident@, self.start as int) }
}
/// the step an iterator makes
pub open spec fn step(a: VersionChunkIter, b: VersionChunkIter, r: Option<VersionChunk>) -> bool {
    let s = a.ident@;
    &&& b.ident == a.ident && b.wf()
    &&& a.k() == s.len() ==> r is None && b.k() == a.k()
    &&& a.k() < s.len() ==> r is Some && ck(r->0) == ck_at(s, a.k()) && ck_ok(r->0) && b.k() == ck_end(s, a.k())
}
pub proof fn lemma_k(s: Seq<char>, a: int)
    requires is_bound(s, a),
    ensures at_byte(s, a, cidx(s, a)),
{ }
/// byte offset of the j-th character after the one at k
pub proof fn lemma_off(s: Seq<char>, k: int, j: int)
    requires 0 <= k, 0 <= j, k + j <= s.len(),
    ensures blen(s.take(k)) + blen(s.skip(k).take(j)) == blen(s.take(k + j)), is_bound(s, blen(s.take(k + j)) as int), cidx(s, blen(s.take(k + j)) as int) == k + j,
{ lemma_blen_mono(s, k, k + j); assert(s.skip(k).take(j) =~= s.subrange(k, k + j)); lemma_cidx(s, k + j); }
pub proof fn lemma_starts(s: Seq<char>, t: Seq<char>)
    ensures
        t.len() == 1 ==> starts(s, t) == at(s, 0, t[0]),
        t.len() == 2 ==> starts(s, t) == (at(s, 0, t[0]) && at(s, 1, t[1])),
        t.len() == 3 ==> starts(s, t) == (at(s, 0, t[0]) && at(s, 1, t[1]) && at(s, 2, t[2])),
{ if t.len() <= 3 && t.len() <= s.len() && (forall|k: int| 0 <= k < t.len() ==> at(s, k, t[k])) { assert(starts(s, t)); } if starts(s, t) { assert forall|k: int| 0 <= k < t.len() implies at(s, k, t[k]) by {} 
    if t.len() > 0 { assert(s[0] == t[0]); } if t.len() > 1 { assert(s[1] == t[1]); } if t.len() > 2 { assert(s[2] == t[2]); } } }
'''


def unroll(text):
    """`for &x in &[ literals ] { body }` is unrolled"""
    T = tokenize(text)
    for i in range(len(T) - 6):
        if [t.t for t in T[i:i + 2]] == ["for", "&"] and [t.t for t in T[i + 3:i + 6]] == ["in", "&", "["]:
            var, lb = T[i + 2].t, i + 5
            items = [t.t for t in T[lb + 1:T[lb].m] if t.t != ","]
            ob = T[lb].m + 1
            if any(t.k != "str" for t in T[lb + 1:T[lb].m] if t.t != ",") or T[ob].t != "{":
                return text
            body = text[T[ob].e:T[T[ob].m].s]
            if re.search(r"\b(break|continue)\b", body):
                return text
            out = "".join("{" + re.sub(rf"\b{var}\b", lambda m: x, body) + "}\n" for x in items)
            return text[:T[i].s] + out + text[T[T[ob].m].e:]
    return text


OPS = ["===", ">=", "<=", "==", "!=", "~=", "~>", ">", "<", "=", "^", "~"]
OPL = "".join(f'reveal_strlit("{o}"); lemma_starts(remaining@, "{o}"@); lemma_lit("{o}"@); ' for o in OPS)
RW = [
    ("use itertools::$$x;", ""), ("std::str::CharIndices<'a>", "CharIdx<'a>"), ("std::cmp::Ordering", "Ordering"),
    ("for ($i, $c) in chars { $$b }", "let mut chars = chars; while let Some(($i, $c)) = chars.next() { $$b }"),
    ("$c.is_ascii_digit()", "vx_is_dig($c)"), ("$c.len_utf8()", "vx_len_utf8($c)"),
    ("&self.ident[self.start..]", "vx_slice_from(self.ident, self.start)"), ("self.ident[self.start..].char_indices()", "vx_char_indices(vx_slice_from(self.ident, self.start))"),
    ("&self.ident[pos..]", "vx_slice_from(self.ident, pos)"),
    ("&self.ident[self.start..$e]", "vx_slice(self.ident, self.start, $e)"), ("self.ident.len()", "vx_len(self.ident)"),
    ("source.chars().take_while(|c| *c == '0').count()", "vx_zeros(source)"),
    ("source.parse::<usize>().unwrap_or($$d)", "match vx_parse_usize(source) { Ok(vx_v) => vx_v, Err(_) => $$d }"), ("source.parse::<usize>().ok()?", "match vx_parse_usize(source) { Ok(vx_v) => vx_v, Err(_) => return None }"),
    ("source.parse::<usize>()", "vx_parse_usize(source)"),
    ("str_part.is_empty()", "(vx_len(str_part) == 0)"),
    ("remaining.starts_with($o)", "vx_starts_with(remaining, $o)"),
    ("pos + $L_x.len()", "pos + vx_len($L_x)"),
    ("for $x in $a.zip_longest($b) { $$body }", "let mut $a = $a; let mut $b = $b; loop { let $x = match vx_zip($a.next(), $b.next()) { Some(vx_x) => vx_x, None => break }; $$body }"),
    ("$a.len().cmp(&$b.len()).then_with(|| $$y)", "vx_then(vx_cmp_usize(vx_len($a), vx_len($b)), $$y)"),
    ("$a.cmp(&$b).then_with(|| $$y)", "vx_then(vx_cmp_usize($a, $b), $$y)"),
    ("&$a[$i..]", "vx_slice_from($a, $i)"),
    ("$a.cmp(&$b)", "vx_cmp_usize($a, $b)"), ("$a.cmp($b)", "vx_cmp_str($a, $b)"),
]
ST = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
WF = "old(self).wf()"
CH = "chars.src() == self.ident@.skip(self.k()), chars.pos() == 1, self.k() < self.ident@.len(),"
LOOPINV = """self.wf(), self.start == start0, chars.src() == self.ident@.skip(k0), k0 == self.k(), at_byte(self.ident@, self.start as int, k0), 0 <= k0 < self.ident@.len(), 1 <= chars.pos() <= chars.src().len(), blen(self.ident@) <= 0x7fff_ffff_ffff_ffff, blen(self.ident@) == blen(self.ident@.take(k0)) + blen(chars.src()),"""
LOOPSTART = """proof { let s = self.ident@; let j = chars.pos() - 1; lemma_off(s, k0, j); lemma_blen_split(chars.src(), j); assert(chars.src()[j] == s[k0 + j]); lemma_blen_mono(s, k0 + j, s.len() as int); assert(s.take(s.len() as int) =~= s); }"""
ENTRY = """let ghost k0 = self.k(); let ghost start0 = self.start; let vx_total = vx_len(self.ident);
proof { lemma_blen_split(self.ident@, k0); }"""

FNS = [
    Fn(V, "VersionChunkIter::new", ensures="r.ident == ident, r.wf(), r.k() == 0, r.start == 0",
       entry="proof { lemma_cidx(ident@, 0); assert(ident@.take(0) =~= Seq::<char>::empty()); }", rewrites=[("pub(crate) fn", "pub fn")]),
    Fn(V, "VersionChunkIter::parse_numeric_chunk", 
       requires="old(self).wf(), chars.src() == old(self).ident@.skip(old(self).k()), chars.pos() == 1, old(self).k() < old(self).ident@.len(), is_dig(old(self).ident@[old(self).k()])",
       ensures="step(*old(self), *final(self), r)",
       entry=ENTRY,
       loops={0: Loop("while let", invariant=LOOPINV,
                      ieb="forall|q: int| k0 <= q < k0 + chars.pos() ==> is_dig(#[trigger] self.ident@[q]), !is_end_of_chunk, end <= self.start + blen(chars.src()),",
                      ensures="self.wf(), self.start == start0, is_end_of_chunk ==> 0 < chars.pos() - 1 && k0 + chars.pos() - 1 < self.ident@.len() && end == blen(self.ident@.take(k0 + chars.pos() - 1)) && !is_dig(self.ident@[k0 + chars.pos() - 1]) && dig_end(self.ident@, k0 + chars.pos() - 1) == k0 + chars.pos() - 1, !is_end_of_chunk ==> chars.pos() == chars.src().len(), is_end_of_chunk ==> forall|q: int| k0 <= q < k0 + chars.pos() - 1 ==> is_dig(#[trigger] self.ident@[q]), !is_end_of_chunk ==> forall|q: int| k0 <= q < self.ident@.len() ==> is_dig(#[trigger] self.ident@[q]),",
                      decreases="chars.src().len() - chars.pos()", start=LOOPSTART,
                      after="proof { let s = self.ident@; let e = if is_end_of_chunk { k0 + chars.pos() - 1 } else { s.len() as int }; lemma_run(s, k0, e); lemma_off(s, k0, e - k0); lemma_blen_mono(s, k0, e); assert(s.take(s.len() as int) =~= s); lemma_cidx(s, s.len() as int); assert(s.skip(k0) =~= s.subrange(k0, s.len() as int)); }")},
       ghost=[("before", "let zeros", "proof { assert(source@ == self.ident@.subrange(k0, dig_end(self.ident@, k0))); assert(digits(source@)) by { lemma_dig_end(self.ident@, k0); } }")]),
    Fn(V, "VersionChunkIter::parse_str_chunk", requires="old(self).wf(), chars.src() == old(self).ident@.skip(old(self).k()), chars.pos() == 1, old(self).k() < old(self).ident@.len(), !is_dig(old(self).ident@[old(self).k()]), old(self).ident@[old(self).k()] != '_', old(self).ident@[old(self).k()] != '-', op_len(old(self).ident@, old(self).k()) == 0",
       ensures="step(*old(self), *final(self), r)", entry=ENTRY,
       loops={0: Loop("while let", invariant=LOOPINV,
                      ieb="str_end(self.ident@, k0) == str_end(self.ident@, k0 + chars.pos()), !is_end_of_chunk, version_op_pos is None,",
                      ensures="self.wf(), self.start == start0, is_end_of_chunk ==> 0 < chars.pos() - 1 && k0 + chars.pos() - 1 < self.ident@.len() && str_end(self.ident@, k0) == k0 + chars.pos() - 1, version_op_pos is Some ==> is_end_of_chunk && version_op_pos->0 == blen(self.ident@.take(k0 + chars.pos() - 1)), is_end_of_chunk && version_op_pos is None ==> end == blen(self.ident@.take(k0 + chars.pos() - 1)), !is_end_of_chunk ==> chars.pos() == chars.src().len() && str_end(self.ident@, k0) == self.ident@.len(),",
                      decreases="chars.src().len() - chars.pos()", start=LOOPSTART,
                      after="proof { let s = self.ident@; let e = if is_end_of_chunk { k0 + chars.pos() - 1 } else { s.len() as int }; lemma_off(s, k0, e - k0); lemma_blen_mono(s, k0, e); assert(s.take(s.len() as int) =~= s); lemma_cidx(s, s.len() as int); assert(s.skip(k0) =~= s.subrange(k0, s.len() as int)); lemma_blen_ge(s.subrange(k0, e)); }")}),
    Fn(V, "VersionChunkIter::check_version_operator_at", pre=unroll, requires="is_bound(self.ident@, pos as int)",
       ensures="({ let k = cidx(self.ident@, pos as int); let n = op_len(self.ident@, k); (n == 0 ==> r is None) && (n > 0 ==> r is Some && k + n <= self.ident@.len() && r->0 == blen(self.ident@.take(k + n)) && r->0 == pos + n) })",
       entry="let vx_total = vx_len(self.ident);",
       ghost=[("after", "let remaining = $$x;", "proof { let s = self.ident@; let k = cidx(s, pos as int); assert(at_byte(s, pos as int, k)); assert(forall|j: int, c: char| 0 <= j ==> #[trigger] at(remaining@, j, c) == at(s, k + j, c)); assert(remaining@.len() == s.len() - k); " + OPL + " lemma_ops(s, k); if op_len(s, k) > 0 { lemma_blen_mono(s, k + op_len(s, k), s.len() as int); assert(s.take(s.len() as int) =~= s); } }")]),
    Fn(V, "Iterator for VersionChunkIter::next", header="impl<'a> VersionChunkIter<'a>", requires="old(self).wf()", ensures="step(*old(self), *final(self), r)",
       rewrites=[("fn next(&mut self) -> Option<Self::Item>", "pub fn next(&mut self) -> Option<VersionChunk<'a>>"), ("let ($a, next) = chars.next()?;", "let ($a, next) = match chars.next() { Some(vx_x) => vx_x, None => return None };")],
       entry=ENTRY + "proof { let s = self.ident@; lemma_k(s, self.start as int); if k0 < s.len() { assert(s.skip(k0)[0] == s[k0]); lemma_off(s, k0, 1); assert(s.skip(k0).take(1) =~= seq![s[k0]]); lemma_blen_one(s[k0]); lemma_blen_mono(s, k0 + 1, s.len() as int); assert(s.take(s.len() as int) =~= s); if op_len(s, k0) > 0 { lemma_op_fits(s, k0); lemma_off(s, k0, op_len(s, k0)); } } }"),
    Fn(V, "fn cmp_digits", ensures="digits(a@) && digits(b@) ==> ordi(r) == sig_cmp(a@, b@)", optional=True, entry="proof { if digits(a@) && digits(b@) { lemma_dlen(a@); lemma_dlen(b@); } }"),
    Fn(V, "fn version_sort", ensures="ordi(r) == version_cmp(a@, b@)",
       entry="proof { lemma_chunks_wf(a@, 0); lemma_chunks_wf(b@, 0); }",
       loops={0: Loop("loop", invariant="iter_a.ident == a, iter_b.ident == b, iter_a.wf(), iter_b.wf(),",
                      ieb="0 <= iter_a.k() <= a@.len(), 0 <= iter_b.k() <= b@.len(), version_cmp(a@, b@) == vcmp(chunks(a@, iter_a.k()), chunks(b@, iter_b.k()), zi(more_leading_zeros)),",
                      ensures="version_cmp(a@, b@) == zi(more_leading_zeros),",
                      decreases="a@.len() - iter_a.k()",
                      start="let ghost ka = iter_a.k(); let ghost kb = iter_b.k(); proof { lemma_unfold(a@, ka); lemma_unfold(b@, kb); if ka < a@.len() && kb < b@.len() { lemma_nums(ck_at(a@, ka), ck_at(b@, kb)); } }")}),
]
SPEC3 = r'''
pub open spec fn zi(m: MoreLeadingZeros) -> int { match m { MoreLeadingZeros::Left => -1, MoreLeadingZeros::Right => 1, MoreLeadingZeros::Equal => 0 } }
pub proof fn lemma_unfold(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i < s.len() ==> i < ck_end(s, i) <= s.len() && chunks(s, i).len() > 0 && chunks(s, i)[0] == ck_at(s, i) && chunks(s, i).skip(1) == chunks(s, ck_end(s, i)) && wf(ck_at(s, i)),
        i == s.len() ==> chunks(s, i).len() == 0,
{ if i < s.len() { lemma_ck_end(s, i); assert(chunks(s, i).skip(1) =~= chunks(s, ck_end(s, i))); } }
pub proof fn lemma_run(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|q: int| i <= q < e ==> is_dig(#[trigger] s[q]), e < s.len() ==> !is_dig(s[e]),
    ensures dig_end(s, i) == e,
    decreases e - i,
{ if i < e { lemma_run(s, i + 1, e); } }
pub proof fn lemma_op_fits(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures i + op_len(s, i) <= s.len(), op_len(s, i) >= 0,
{ }
/// operators are ASCII
pub proof fn lemma_ops(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i + op_len(s, i) <= s.len(), op_len(s, i) >= 0, blen(s.take(i + op_len(s, i))) == blen(s.take(i)) + op_len(s, i),
{
    let n = op_len(s, i);
    assert(forall|k: int| i <= k < i + n ==> clen(#[trigger] s[k]) == 1);
    lemma_ascii_run(s, i, i + n);
}
pub proof fn lemma_ascii_run(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> clen(#[trigger] s[k]) == 1,
    ensures blen(s.take(e)) == blen(s.take(i)) + e - i,
    decreases e - i,
{ if i < e { lemma_ascii_run(s, i, e - 1); lemma_blen_mono(s, e - 1, e); assert(s.subrange(e - 1, e) =~= seq![s[e - 1]]); lemma_blen_one(s[e - 1]); } }
pub proof fn lemma_lit(t: Seq<char>)
    requires forall|k: int| 0 <= k < t.len() ==> clen(#[trigger] t[k]) == 1,
    ensures blen(t) == t.len(),
{ lemma_ascii_run(t, 0, t.len() as int); assert(t.take(t.len() as int) =~= t); assert(t.take(0) =~= Seq::<char>::empty()); }
pub proof fn lemma_dlen(s: Seq<char>)
    requires digits(s),
    ensures blen(s) == s.len(),
{ lemma_ascii_run(s, 0, s.len() as int); assert(s.take(s.len() as int) =~= s); assert(s.take(0) =~= Seq::<char>::empty()); }
/// what comparing two numbers needs: the leading zeros are bytes, and the digits left decide
pub proof fn lemma_nums(a: Ck, b: Ck)
    requires wf(a), wf(b),
    ensures match (a, b) { (Ck::Num(x), Ck::Num(y)) => num_ok(x) && num_ok(y) && sig_cmp(sig(x), sig(y)) == sgn(numv(x) as int - numv(y) as int), _ => true },
{ match (a, b) { (Ck::Num(x), Ck::Num(y)) => { lemma_num(x); lemma_num(y); lemma_sig_cmp(sig(x), sig(y)); } _ => {} } }
pub open spec fn num_ok(x: Seq<char>) -> bool { is_bound(x, zeros(x) as int) && x.skip(cidx(x, zeros(x) as int)) == sig(x) && digits(sig(x)) }
pub proof fn lemma_num(x: Seq<char>)
    requires digits(x),
    ensures num_ok(x), numv(sig(x)) == numv(x), sig(x).len() > 0 ==> sig(x)[0] != '0',
{ lemma_numv_sig(x); lemma_zeros(x); let z = zeros(x) as int; lemma_ascii_run(x, 0, z); assert(x.take(0) =~= Seq::<char>::empty()); lemma_cidx(x, z); }
'''
UNIT = Unit("version_sort", [Text("use core::cmp::Ordering;"), Text(STR), Text(SPEC), Raw(V, "struct VersionChunkIter", rewrites=[("ident: &'a str", "pub ident: &'a str"), ("start: usize", "pub start: usize"), ("struct VersionChunkIter", "pub struct VersionChunkIter")]),
    Raw(V, "enum VersionChunk", rewrites=[("enum", "pub enum")]), Raw(V, "enum MoreLeadingZeros", attrs=ST, rewrites=[("enum", "pub enum")]), Text(SPEC2), Text(SPEC3)] + FNS, rewrites=RW)
