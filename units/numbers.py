from vgen import *
from shims import *

I = "crates/tombi-ast/src/support/literal/integer.rs"
FL = "crates/tombi-ast/src/support/literal/float.rs"
BO = "crates/tombi-ast/src/support/literal/boolean.rs"
VI = "crates/tombi-document-tree/src/value/integer.rs"
VF = "crates/tombi-document-tree/src/value/float.rs"
VB = "crates/tombi-document-tree/src/value/boolean.rs"
DV = "crates/tombi-document-tree/src/value.rs"

SPEC = r'''
// ---------------------------------------------------------------- std contracts
pub open spec fn digv(c: char, radix: nat) -> Option<nat> { match hexd(c) { Some(v) => if v < radix { Some(v) } else { None }, None => None } }
pub open spec fn all_dig(s: Seq<char>, radix: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] digv(s[i], radix)) is Some }
/// value of a string of digits, most significant first
pub open spec fn numv(s: Seq<char>, radix: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { numv(s.drop_last(), radix) * radix + (match digv(s.last(), radix) { Some(v) => v, None => 0 }) }
}
pub open spec fn signed(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '+' || s[0] == '-') }
pub open spec fn unsign(s: Seq<char>) -> Seq<char> { if signed(s) { s.skip(1) } else { s } }
pub open spec fn in_i64(v: int) -> Option<i64> { if -0x8000_0000_0000_0000 <= v <= 0x7fff_ffff_ffff_ffff { Some(v as i64) } else { None } }
/// i64::from_str_radix as documented: an optional sign, then one or more digits; an error when out of range
pub open spec fn std_int(s: Seq<char>, radix: nat) -> Option<i64> {
    let b = unsign(s);
    if b.len() == 0 || !all_dig(b, radix) { None }
    else { in_i64(if s[0] == '-' { -(numv(b, radix) as int) } else { numv(b, radix) as int }) }
}
pub open spec fn oki(r: Result<i64, ParseIntError>) -> Option<i64> { match r { Ok(v) => Some(v), Err(_) => None } }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(std::num::ParseFloatError);
#[verifier::external_body]
pub fn vx_from_str_radix(s: &str, radix: u32) -> (r: Result<i64, ParseIntError>) requires 2 <= radix <= 36, ensures radix <= 16 ==> oki(r) == std_int(s@, radix as nat) { i64::from_str_radix(s, radix) }
#[verifier::external_body]
pub fn vx_parse_i64(s: &str) -> (r: Result<i64, ParseIntError>) ensures oki(r) == std_int(s@, 10) { s.parse::<i64>() }
pub open spec fn strip(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else if s.last() == '_' { strip(s.drop_last()) } else { strip(s.drop_last()).push(s.last()) }
}
#[verifier::external_body]
pub fn vx_without_underscores(s: &str) -> (r: String) ensures r@ == strip(s@) { s.replace('_', "") }

pub open spec fn index_of(s: Seq<char>, c: char, d: char) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == c || s[0] == d { 0 } else { 1 + index_of(s.skip(1), c, d) }
}
/// s.split([c, d]).next().unwrap(): what stands before the first c or d
#[verifier::external_body]
pub fn vx_before<'a>(s: &'a str, c: char, d: char) -> (r: &'a str) ensures r@ == s@.take(index_of(s@, c, d)) { s.split([c, d]).next().unwrap() }
#[verifier::external_body]
pub fn vx_contains(s: &str, c: char) -> (r: bool) ensures r == (exists|i: int| 0 <= i < s@.len() && s@[i] == c) { s.contains(c) }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn vx_nth(s: &str, n: usize) -> (r: Option<char>) ensures r == (if n < s@.len() { Some(s@[n as int]) } else { None::<char> }) { s.chars().nth(n) }
#[verifier::external_body]
pub fn vx_any_enum<FN: Fn(usize, char) -> bool>(s: &str, f: FN) -> (r: bool)
    requires forall|i: usize| 0 <= i < s@.len() ==> #[trigger] call_requires(f, (i, s@[i as int])),
    ensures
        r ==> exists|i: usize| 0 <= i < s@.len() && call_ensures(f, (i, #[trigger] s@[i as int]), true),
        !r ==> forall|i: usize| 0 <= i < s@.len() ==> call_ensures(f, (i, #[trigger] s@[i as int]), false),
{ s.chars().enumerate().any(|(i, c)| f(i, c)) }
/// the double nearest to a decimal text (std::f64::from_str; documented as correctly rounded)
pub uninterp spec fn f64_of(s: Seq<char>) -> f64;
pub open spec fn std_exp(s: Seq<char>) -> bool { s.len() >= 2 && (s[0] == 'e' || s[0] == 'E') && unsign(s.skip(1)).len() >= 1 && all_dig(unsign(s.skip(1)), 10) }
pub open spec fn std_num(s: Seq<char>, i: int, j: int) -> bool {
    0 < i <= j <= s.len() && all_dig(s.take(i), 10) && (i == j || (s[i] == '.' && all_dig(s.subrange(i + 1, j), 10))) && (j == s.len() || std_exp(s.skip(j)))
}
pub open spec fn lit(s: Seq<char>, a: char, b: char, c: char) -> bool { s.len() == 3 && s[0] == a && s[1] == b && s[2] == c }
/// a part of the documented grammar of f64::from_str (which accepts more)
pub open spec fn std_float(s: Seq<char>) -> bool {
    let t = unsign(s);
    lit(t, 'i', 'n', 'f') || lit(t, 'n', 'a', 'n') || (exists|i: int, j: int| #[trigger] std_num(t, i, j))
}
#[verifier::external_body]
pub fn vx_parse_f64(s: &str) -> (r: Result<f64, ParseFloatError>) ensures std_float(s@) ==> r is Ok, r is Ok ==> r->Ok_0 == f64_of(s@) { s.parse::<f64>() }
#[verifier::external_body]
pub fn vx_float_err(e: ParseFloatError) -> (r: ParseError) ensures r == ParseError::Std(e) { ParseError::Std(e) }

// ---------------------------------------------------------------- TOML grammar (from the TOML specification)
/// digits, with single underscores between two digits
pub open spec fn group(s: Seq<char>, radix: nat) -> bool {
    &&& s.len() > 0 && s[0] != '_' && s.last() != '_'
    &&& forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) == '_' || digv(s[i], radix) is Some)
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> !(#[trigger] s[i] == '_' && s[i + 1] == '_')
}
/// value of such a group
pub open spec fn groupv(s: Seq<char>, radix: nat) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s.last() == '_' { groupv(s.drop_last(), radix) }
    else { groupv(s.drop_last(), radix) * radix + (match digv(s.last(), radix) { Some(v) => v, None => 0 }) }
}
pub open spec fn no_leading_zero(s: Seq<char>) -> bool { s.len() > 1 ==> s[0] != '0' }
pub open spec fn dec_int(s: Seq<char>) -> bool { group(unsign(s), 10) }
pub open spec fn dec_value(s: Seq<char>) -> int { if signed(s) && s[0] == '-' { -(groupv(unsign(s), 10) as int) } else { groupv(unsign(s), 10) as int } }
pub open spec fn radix_int(s: Seq<char>, radix: nat) -> bool { s.len() > 2 && s[0] == '0' && clen(s[1]) == 1 && group(s.skip(2), radix) }
pub open spec fn toml_exp(s: Seq<char>) -> bool { s.len() >= 2 && (s[0] == 'e' || s[0] == 'E') && group(unsign(s.skip(1)), 10) }
/// int part = [0, i), fraction = [i, j), exponent = [j, ..)
pub open spec fn num_float(s: Seq<char>, i: int, j: int) -> bool {
    &&& 0 < i <= j <= s.len() && i < s.len()
    &&& group(s.take(i), 10) && no_leading_zero(s.take(i))
    &&& (i == j || (s[i] == '.' && group(s.subrange(i + 1, j), 10)))
    &&& (j == s.len() || toml_exp(s.skip(j)))
}
pub open spec fn toml_float(s: Seq<char>) -> bool {
    let t = unsign(s);
    lit(t, 'i', 'n', 'f') || lit(t, 'n', 'a', 'n') || (exists|i: int, j: int| #[trigger] num_float(t, i, j))
}
/// an underscore without a digit on both sides
#[verifier::opaque]
pub open spec fn bad_us(s: Seq<char>, i: int) -> bool {
    s[i] == '_' && !(0 < i && i + 1 < s.len() && digv(s[i - 1], 10) is Some && digv(s[i + 1], 10) is Some)
}

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_strip_add(a: Seq<char>, b: Seq<char>)
    ensures strip(a + b) == strip(a) + strip(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(strip(a) + strip(b) =~= strip(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        lemma_strip_add(a, b.drop_last());
        assert(strip(a + b) =~= strip(a) + strip(b));
    }
}
pub proof fn lemma_strip_one(c: char)
    ensures strip(seq![c]) == (if c == '_' { Seq::<char>::empty() } else { seq![c] }),
{
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    assert(strip(Seq::<char>::empty()) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty().push(c) =~= seq![c]);
}
pub proof fn lemma_strip_plain(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '_',
    ensures strip(s) == s,
    decreases s.len(),
{ if s.len() > 0 { lemma_strip_plain(s.drop_last()); assert(s.drop_last().push(s.last()) =~= s); } }
pub proof fn lemma_strip_digits(s: Seq<char>, radix: nat)
    requires radix <= 16, forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) == '_' || digv(s[i], radix) is Some),
    ensures
        all_dig(strip(s), radix), numv(strip(s), radix) == groupv(s, radix),
        s.len() > 0 && s[0] != '_' ==> strip(s).len() > 0 && strip(s)[0] == s[0],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() implies ((#[trigger] p[i]) == '_' || digv(p[i], radix) is Some) by { assert(p[i] == s[i]); }
        lemma_strip_digits(p, radix);
        if s.last() != '_' {
            assert(strip(s).drop_last() =~= strip(p));
            assert(digv(s[s.len() - 1], radix) is Some);
        }
    }
}
/// removing the underscores keeps the sign
pub proof fn lemma_strip_sign(s: Seq<char>)
    requires signed(s),
    ensures strip(s) == seq![s[0]] + strip(s.skip(1)),
{ assert(s =~= seq![s[0]] + s.skip(1)); lemma_strip_add(seq![s[0]], s.skip(1)); lemma_strip_one(s[0]); }
pub proof fn lemma_dec(s: Seq<char>)
    requires dec_int(s),
    ensures std_int(strip(s), 10) == in_i64(dec_value(s)),
{
    let b = unsign(s);
    lemma_strip_digits(b, 10);
    if signed(s) {
        lemma_strip_sign(s);
        assert(unsign(strip(s)) =~= strip(b));
    } else {
        assert(digv(s[0], 10) is Some);
        assert(!signed(strip(s)));
    }
}
pub proof fn lemma_radix(s: Seq<char>, radix: nat)
    requires radix_int(s, radix), radix <= 16,
    ensures std_int(strip(s.skip(2)), radix) == in_i64(groupv(s.skip(2), radix) as int),
{
    let b = s.skip(2);
    lemma_strip_digits(b, radix);
    assert(digv(b[0], radix) is Some);
    assert(!signed(strip(b)));
}
pub proof fn lemma_two(s: Seq<char>)
    requires s.len() >= 2, clen(s[0]) == 1, clen(s[1]) == 1,
    ensures is_bound(s, 2), cidx(s, 2) == 2,
{
    assert(s.take(2) =~= seq![s[0]] + seq![s[1]]);
    lemma_blen_one(s[0]); lemma_blen_one(s[1]); lemma_blen_concat(seq![s[0]], seq![s[1]]);
    lemma_cidx(s, 2);
}
pub proof fn lemma_first(s: Seq<char>)
    requires s.len() >= 1, clen(s[0]) == 1,
    ensures is_bound(s, 1), cidx(s, 1) == 1,
{ assert(s.take(1) =~= seq![s[0]]); lemma_blen_one(s[0]); lemma_cidx(s, 1); }
pub proof fn lemma_len1(s: Seq<char>)
    requires all1(s),
    ensures blen(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { assert(clen(s[0]) == 1); assert forall|i: int| 0 <= i < s.skip(1).len() implies clen(#[trigger] s.skip(1)[i]) == 1 by { assert(s.skip(1)[i] == s[i + 1]); } lemma_len1(s.skip(1)); } }
pub proof fn lemma_len_ge(s: Seq<char>)
    ensures blen(s) >= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_len_ge(s.skip(1)); } }
pub open spec fn all1(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> clen(#[trigger] s[i]) == 1 }
pub proof fn lemma_index_of(s: Seq<char>, c: char, d: char, k: int)
    requires 0 <= k < s.len(), s[k] == c || s[k] == d, forall|i: int| 0 <= i < k ==> s[i] != c && s[i] != d,
    ensures index_of(s, c, d) == k,
    decreases k,
{ if k > 0 { assert(s[0] != c && s[0] != d); let t = s.skip(1); assert(t[k - 1] == s[k]); assert forall|i: int| 0 <= i < k - 1 implies t[i] != c && t[i] != d by { assert(t[i] == s[i + 1]); } lemma_index_of(t, c, d, k - 1); } }
pub proof fn lemma_index_none(s: Seq<char>, c: char, d: char)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != c && s[i] != d,
    ensures index_of(s, c, d) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { assert(s[0] != c && s[0] != d); let t = s.skip(1); assert forall|i: int| 0 <= i < t.len() implies t[i] != c && t[i] != d by { assert(t[i] == s[i + 1]); } lemma_index_none(t, c, d); } }
pub open spec fn skip_sign(s: Seq<char>) -> int { if signed(s) { 1 } else { 0 } }

#[verifier::opaque]
pub open spec fn fine(s: Seq<char>, k: int) -> bool { clen(s[k]) == 1 && s[k] != '.' && !bad_us(s, k) }
pub open spec fn fines(s: Seq<char>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] fine(s, k) }
pub open spec fn no_e(s: Seq<char>, a: int, b: int) -> bool { forall|k: int| a <= k < b ==> #[trigger] s[k] != 'e' && s[k] != 'E' }
pub proof fn lemma_group_us(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len(), group(s.subrange(a, b), 10),
    ensures fines(s, a, b), no_e(s, a, b), s[a] != '_', s[b - 1] != '_', digv(s[a], 10) is Some,
{
    let g = s.subrange(a, b);
    assert(g[0] == s[a] && g.last() == s[b - 1]);
    assert forall|k: int| a <= k < b implies #[trigger] fine(s, k) by {
        assert(g[k - a] == s[k]);
        reveal(bad_us); reveal(fine);
        if s[k] == '_' {
            assert(a < k && k < b - 1);
            assert(g[k - a - 1] == s[k - 1] && g[k - a + 1] == s[k + 1]);
            if g[k - a - 1] == '_' { assert(g[k - a - 1] == '_' && g[k - a - 1 + 1] == '_'); assert(false); }
        }
    }
    assert forall|k: int| a <= k < b implies #[trigger] s[k] != 'e' && s[k] != 'E' by { assert(g[k - a] == s[k]); }
}
pub proof fn lemma_plain_fine(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), clen(s[k]) == 1, s[k] != '.', s[k] != '_',
    ensures fine(s, k),
{ reveal(fine); reveal(bad_us); }
pub proof fn lemma_exp_pos(s: Seq<char>, p: int)
    requires 0 <= p < s.len(), toml_exp(s.skip(p)),
    ensures fines(s, p, s.len() as int), s[p] == 'e' || s[p] == 'E',
{
    let x = s.skip(p);
    let y = x.skip(1);
    let so = skip_sign(y);
    assert(unsign(y) =~= s.subrange(p + 1 + so, s.len() as int));
    lemma_group_us(s, p + 1 + so, s.len() as int);
    assert(s[p] == x[0]);
    lemma_plain_fine(s, p);
    if so == 1 { assert(s[p + 1] == y[0]); lemma_plain_fine(s, p + 1); }
}
pub proof fn lemma_fines(s: Seq<char>, a: int, b: int)
    requires fines(s, a, b),
    ensures forall|k: int| a <= k < b ==> clen(#[trigger] s[k]) == 1 && s[k] != '.', forall|k: int| a <= k < b ==> !#[trigger] bad_us(s, k),
{
    assert forall|k: int| a <= k < b implies clen(#[trigger] s[k]) == 1 && s[k] != '.' && !bad_us(s, k) by { assert(fine(s, k)); reveal(fine); }
    assert forall|k: int| a <= k < b implies !#[trigger] bad_us(s, k) by { assert(fine(s, k)); reveal(fine); }
}
/// nothing is out of place in a TOML number
pub open spec fn pos_ok(s: Seq<char>) -> bool { all1(s) && s.len() > 0 && s[0] != '_' && (forall|k: int| 0 <= k < s.len() ==> !#[trigger] bad_us(s, k)) }
pub open spec fn has_dot(s: Seq<char>) -> bool { exists|k: int| 0 <= k < s.len() && s[k] == '.' }
pub proof fn lemma_num_pos(s: Seq<char>, i: int, j: int)
    requires num_float(unsign(s), i, j),
    ensures
        pos_ok(s),
        ({ let o = skip_sign(s);
           &&& has_dot(s) == (i < j)
           &&& i < j ==> index_of(s, '.', '.') == o + i
           &&& i == j ==> index_of(s, 'e', 'E') == o + i
           &&& unsign(s.take(o + i)) == unsign(s).take(i) }),
{
    let o = skip_sign(s);
    let t = unsign(s);
    assert(t =~= s.skip(o));
    assert(t.take(i) =~= s.subrange(o, o + i));
    lemma_group_us(s, o, o + i);
    if o == 1 { lemma_plain_fine(s, 0); }
    assert(fines(s, 0, o + i));
    if i < j {
        assert(s[o + i] == t[i]);
        if i + 1 == j { assert(t.subrange(i + 1, j).len() == 0); assert(false); }
        assert(t.subrange(i + 1, j) =~= s.subrange(o + i + 1, o + j));
        lemma_group_us(s, o + i + 1, o + j);
        lemma_fines(s, o + i + 1, o + j);
    }
    if j < t.len() { assert(t.skip(j) =~= s.skip(o + j)); lemma_exp_pos(s, o + j); lemma_fines(s, o + j, s.len() as int); }
    lemma_fines(s, 0, o + i);
    assert(!bad_us(s, o + i)) by { reveal(bad_us); }
    lemma_num_pos2(s, o + i, o + j);
    assert(unsign(s.take(o + i)) =~= t.take(i)) by { assert(s.take(o + i)[0] == s[0]); assert(signed(s.take(o + i)) == signed(s)) by { if !signed(s) { assert(digv(s[0], 10) is Some); } } }
    if i == j { assert(no_e(s, 0, o + i)); lemma_index_of(s, 'e', 'E', o + i); }
}
pub proof fn lemma_num_pos2(s: Seq<char>, p: int, q: int)
    requires
        0 < p <= q <= s.len(), p < s.len(), s[0] != '_',
        forall|k: int| 0 <= k < p ==> clen(#[trigger] s[k]) == 1 && s[k] != '.', forall|k: int| 0 <= k < p ==> !#[trigger] bad_us(s, k),
        p < q ==> s[p] == '.' && !bad_us(s, p),
        forall|k: int| p + 1 <= k < q ==> clen(#[trigger] s[k]) == 1 && s[k] != '.', forall|k: int| p + 1 <= k < q ==> !#[trigger] bad_us(s, k),
        forall|k: int| q <= k < s.len() ==> clen(#[trigger] s[k]) == 1 && s[k] != '.', forall|k: int| q <= k < s.len() ==> !#[trigger] bad_us(s, k),
    ensures pos_ok(s), has_dot(s) == (p < q), p < q ==> index_of(s, '.', '.') == p,
{
    if p < q { lemma_index_of(s, '.', '.', p); }
    assert forall|k: int| 0 <= k < s.len() implies clen(#[trigger] s[k]) == 1 by {}
    assert forall|k: int| 0 <= k < s.len() implies !#[trigger] bad_us(s, k) by {}
}
pub proof fn lemma_exp(x: Seq<char>)
    requires toml_exp(x),
    ensures std_exp(strip(x)),
{
    let y = x.skip(1);
    lemma_strip_digits(unsign(y), 10);
    assert(x =~= seq![x[0]] + y);
    lemma_strip_one(x[0]);
    lemma_strip_add(seq![x[0]], y);
    if signed(y) { lemma_strip_sign(y); }
    assert(strip(x).skip(1) =~= strip(y));
    assert(digv(unsign(y)[0], 10) is Some);
    assert(unsign(strip(y)) =~= strip(unsign(y)));
}
/// removing the underscores leaves a std number (t has no sign)
pub proof fn lemma_num_std(t: Seq<char>, i: int, j: int)
    requires num_float(t, i, j),
    ensures std_num(strip(t), strip(t.take(i)).len() as int, strip(t.take(j)).len() as int), strip(t).len() > 0, strip(t)[0] == t[0],
{
    let a = t.take(i); let b = t.subrange(i, j); let x = t.skip(j);
    lemma_strip_digits(a, 10);
    assert(t =~= t.take(j) + x); assert(t.take(j) =~= a + b);
    lemma_strip_add(t.take(j), x); lemma_strip_add(a, b);
    let n = strip(t); let i2 = strip(a).len() as int; let j2 = strip(t.take(j)).len() as int;
    assert(n.take(i2) =~= strip(a));
    assert(n[0] == t[0]);
    if i < j {
        let g = t.subrange(i + 1, j);
        lemma_strip_digits(g, 10);
        lemma_strip_one('.');
        assert(b =~= seq!['.'] + g);
        lemma_strip_add(seq!['.'], g);
        assert(n.subrange(i2 + 1, j2) =~= strip(g));
        assert(n[i2] == strip(b)[0]);
    } else { assert(b =~= Seq::<char>::empty()); assert(t.take(j) =~= a); }
    assert(n.skip(j2) =~= strip(x));
    if j < t.len() { lemma_exp(x); } else { assert(x =~= Seq::<char>::empty()); }
}
pub proof fn lemma_num(s: Seq<char>, i: int, j: int)
    requires num_float(unsign(s), i, j),
    ensures std_float(strip(s)),
{
    let t = unsign(s);
    lemma_num_std(t, i, j);
    lemma_num_pos(s, i, j);
    let n = strip(t);
    if signed(s) { lemma_strip_sign(s); assert(unsign(strip(s)) =~= n); } else { assert(t == s); assert(!signed(n)); assert(unsign(strip(s)) == n); }
}
pub proof fn lemma_word(s: Seq<char>)
    requires ({ let t = unsign(s); lit(t, 'i', 'n', 'f') || lit(t, 'n', 'a', 'n') }),
    ensures
        forall|k: int| 0 <= k < s.len() ==> !bad_us(s, k) && s[k] != '_' && s[k] != '.' && s[k] != 'e' && s[k] != 'E',
        all1(s), std_float(strip(s)), s[0] != '_', index_of(s, 'e', 'E') == s.len(), unsign(s)[0] != '0',
{
    let t = unsign(s);
    assert forall|k: int| 0 <= k < s.len() implies s[k] != '_' && s[k] != '.' && s[k] != 'e' && s[k] != 'E' && clen(#[trigger] s[k]) == 1 by {
        if signed(s) { if k > 0 { assert(t[k - 1] == s[k]); } } else { assert(t[k] == s[k]); }
    }
    assert forall|k: int| 0 <= k < s.len() implies !bad_us(s, k) by { reveal(bad_us); }
    lemma_strip_plain(s);
    lemma_index_none(s, 'e', 'E');
}
pub open spec fn part(s: Seq<char>) -> Seq<char> { if has_dot(s) { s.take(index_of(s, '.', '.')) } else { s.take(index_of(s, 'e', 'E')) } }
pub proof fn lemma_float(s: Seq<char>)
    requires toml_float(s),
    ensures pos_ok(s), std_float(strip(s)), part(s).len() > 0, all1(unsign(part(s))), no_leading_zero(unsign(part(s))),
{
    let t = unsign(s);
    if exists|i: int, j: int| #[trigger] num_float(t, i, j) {
        let (i, j) = choose|i: int, j: int| #[trigger] num_float(t, i, j);
        lemma_num(s, i, j); lemma_num_pos(s, i, j);
        let p = unsign(part(s));
        assert(p == t.take(i));
        assert forall|k: int| 0 <= k < p.len() implies clen(#[trigger] p[k]) == 1 by { assert(p[k] == s[k + skip_sign(s)]); }
    } else { lemma_word(s); assert(s.take(s.len() as int) =~= s); assert forall|k: int| 0 <= k < t.len() implies clen(#[trigger] t[k]) == 1 by { assert(t[k] == s[k + skip_sign(s)]); } }
}
'''

RW = [
    ("$v[2..].replace($c, $d)", "vx_without_underscores(vx_slice_from($v, 2))"),
    ("&value[2..].replace($c, $d)", "vx_without_underscores(vx_slice_from(value, 2)).as_str()"),
    ("&vx_without_underscores($$a)", "vx_without_underscores($$a).as_str()"),
    ("value.replace($c, $d).parse::<i64>()", "vx_parse_i64(vx_without_underscores(value).as_str())"),
    ("i64::from_str_radix($$a)", "vx_from_str_radix($$a)"),
    ("value.replace($c, $d).parse()?", "(match vx_parse_f64(vx_without_underscores(value).as_str()) { Ok(v) => v, Err(e) => return Err(vx_float_err(e)) })"),
    ("value.chars().enumerate().any($$c)", "vx_any_enum(value, $$c)"),
    ("|(i, c)|", "|i, c|"),
    ("value.chars().nth($$n)", "vx_nth(value, $$n)"),
    ("$v.split([$c, $d]).next().unwrap()", "vx_before($v, $c, $d)"),
    ("$v.split($c).next().unwrap()", "vx_before($v, $c, $c)"),
    ('$v.starts_with("+")', "vx_starts_with($v, '+')"), ('$v.starts_with("-")', "vx_starts_with($v, '-')"),
    ("$v.starts_with($c)", "vx_starts_with($v, $c)"),
    ("$v.contains('.')", "vx_contains($v, '.')"),
    ("&int_slice[1..]", "vx_slice_from(int_slice, 1)"),
    ("int_number.len()", "vx_len(int_number)"),
    ("self::ParseError", "ParseError"),
    ("$c.is_ascii_digit()", "vx_is_digit($c)"),
]
DIG = r'''
#[verifier::external_body]
pub fn vx_is_digit(c: char) -> (r: bool) ensures r == (digv(c, 10) is Some) { c.is_ascii_digit() }
'''


def rad(name, n):
    return Fn(I, f"fn {name}", requires="value@.len() >= 2, clen(value@[0]) == 1, clen(value@[1]) == 1",
              ensures=f"oki(r) == std_int(strip(value@.skip(2)), {n}), radix_int(value@, {n}) ==> oki(r) == in_i64(groupv(value@.skip(2), {n}) as int)",
              entry=f"proof {{ lemma_two(value@); if radix_int(value@, {n}) {{ lemma_radix(value@, {n}); }} }}")


TF = """proof { reveal_strlit("true"); reveal_strlit("false"); assert("true"@.len() == 4 && "false"@.len() == 5); }"""
STUBS = r"""
// ---- what the document tree needs from the syntax tree: a node's token and its text
#[verifier::external_body]
pub struct TombiValueCommentDirective;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Range;
#[verifier::external_body]
pub struct SyntaxToken;
impl SyntaxToken {
    pub uninterp spec fn text_(&self) -> Seq<char>;
    pub uninterp spec fn range_(&self) -> Range;
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.text_() { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range) ensures r == self.range_() { unimplemented!() }
}
pub trait AstNode { spec fn tok(&self) -> Option<SyntaxToken>; spec fn node_range(&self) -> Range; }
#[verifier::external_body]
pub fn collect_comment_directives_and_errors<N: AstNode>(node: &N) -> (Option<Vec<TombiValueCommentDirective>>, Vec<Error>) { unimplemented!() }
pub mod pay { use super::*; @PAY@ }
pub struct StrParseError; pub struct ChronoParseError; pub struct DateTimeParseError; pub struct CommentParseError;
#[verifier::external_body]
pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
pub fn vx_unreachable<T>() -> (r: T) requires false { unreachable!() }
"""
STUBS = STUBS.replace("@PAY@", " ".join(f"#[verifier::external_body] pub struct {n};" for n in ("Str", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime", "Array", "Table")))
for n in ("IntegerBin", "IntegerOct", "IntegerDec", "IntegerHex", "FloatNode", "BooleanNode"):
    STUBS += f"""
#[verifier::external_body]
pub struct {n};
impl AstNode for {n} {{ uninterp spec fn tok(&self) -> Option<SyntaxToken>; uninterp spec fn node_range(&self) -> Range; }}
impl {n} {{
    #[verifier::external_body]
    pub fn token(&self) -> (r: Option<SyntaxToken>) ensures r == self.tok() {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range) ensures r == self.node_range() {{ unimplemented!() }}
}}
"""
TREE = r"""
/// the value a token denotes, as the document tree holds it
pub open spec fn holds_int(v: Value, kind: IntegerKind, value: i64, range: Range) -> bool { v is Integer && v->Integer_0.kind == kind && v->Integer_0.value == value && v->Integer_0.range == range }
pub open spec fn tree_int(n: Option<SyntaxToken>, r: DocumentTreeAndErrors<Value>, kind: IntegerKind, want: Option<i64>) -> bool {
    match want { Some(v) => holds_int(r.tree, kind, v, n->0.range_()), None => r.tree is Incomplete && r.errors@.len() > 0 && r.errors@.last() is ParseIntError }
}
"""
TRW = [("tombi_text::Range", "Range"), ("crate::support::float::ParseError", "ParseError"), ("std::num::ParseIntError", "ParseIntError"), ("tombi_toml_text::ParseError", "StrParseError"),
       ("crate::support::chrono::ParseError", "ChronoParseError"), ("tombi_date_time::parse::Error", "DateTimeParseError"), ("crate::support::comment::ParseError", "CommentParseError"),
       ("crate::", ""), ("self, $v: TomlVersion,", "self,")]
VRW = TRW + [(f"{n}({n})", f"{n}(pay::{n})") for n in ("OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime", "Array", "Table")] + [("String(String)", "String(pay::Str)")]


def into(file, node, ensures, requires="true", stub=None, rewrites=()):
    return Fn(file, f"IntoDocumentTreeAndErrors for {node}::into_document_tree_and_errors", header=f"impl {stub or node}",
              requires="self.tok() is Some ==> (" + requires.replace("T", "self.tok()->0.text_()") + ")",
              ensures="self.tok() is None ==> r.tree is Incomplete && r.errors@.len() > 0, self.tok() is Some ==> (" + ensures.replace("T", "self.tok()->0.text_()") + ")", rewrites=TRW + list(rewrites))


# the verified copy is one module: field visibility is dropped
PUB = [("pub(crate) comment_directives", "comment_directives")] + [(f"{n}: $t", f"pub {n}: $t") for n in ("kind", "value", "range", "comment_directives")]
INTO = [
    Raw("crates/tombi-document-tree/src/value/integer.rs", "enum IntegerKind", attrs="#[derive(Clone, Copy, PartialEq, Eq, Structural)]"),
    Raw(VI, "struct Integer", rewrites=TRW + PUB), Raw(VF, "struct Float", rewrites=TRW + PUB), Raw(VB, "struct Boolean", rewrites=TRW + PUB),
    Raw("crates/tombi-document-tree/src/error.rs", "enum Error", rewrites=TRW), Raw(DV, "enum Value", rewrites=VRW), Raw("crates/tombi-document-tree/src/lib.rs", "struct DocumentTreeAndErrors", rewrites=TRW),
    Text(TREE),
] + [into(VI, n, f"radix_int(T, {x}) ==> tree_int(self.tok(), r, IntegerKind::{k}, in_i64(groupv(T.skip(2), {x}) as int))", "T.len() >= 2 && clen(T[0]) == 1 && clen(T[1]) == 1")
     for n, k, x in (("IntegerBin", "Binary", 2), ("IntegerOct", "Octal", 8), ("IntegerHex", "Hexadecimal", 16))] + [
    into(VI, "IntegerDec", "dec_int(T) ==> tree_int(self.tok(), r, IntegerKind::Decimal, in_i64(dec_value(T)))"),
    into(VF, "Float", "(toml_float(T) ==> r.tree is Float && r.tree->Float_0.value == f64_of(strip(T)) && r.tree->Float_0.range == self.tok()->0.range_()) && (r.tree is Float ==> r.tree->Float_0.value == f64_of(strip(T)) && no_leading_zero(unsign(part(T))) && forall|k: int| 0 <= k < T.len() ==> !bad_us(T, k)) && (!(r.tree is Float) ==> r.tree is Incomplete && r.errors@.len() > 0)", "T.len() > 0 && T[0] != '_' && T.len() <= usize::MAX - 1", stub="FloatNode"),
    into(VB, "Boolean", "r.tree is Boolean && r.tree->Boolean_0.value == (T == \"true\"@) && r.tree->Boolean_0.range == self.tok()->0.range_()", "T == \"true\"@ || T == \"false\"@", stub="BooleanNode",
         rewrites=[("match token.text() { $a => $$x, $b => $$y, _ => unreachable!(), }", "if vx_eq(token.text(), $a) { $x } else if vx_eq(token.text(), $b) { $y } else { vx_unreachable() }")]),
]
FNS = [
    rad("try_from_binary", 2), rad("try_from_octal", 8), rad("try_from_hexadecimal", 16),
    Fn(I, "fn try_from_decimal", ensures="oki(r) == std_int(strip(value@), 10), dec_int(value@) ==> oki(r) == in_i64(dec_value(value@))",
       entry="proof { if dec_int(value@) { lemma_dec(value@); } }"),
    Fn(FL, "fn try_from_float", requires="value@.len() > 0, value@[0] != '_', value@.len() <= usize::MAX as int - 1",
       ensures="toml_float(value@) ==> r is Ok, r is Ok ==> r->Ok_0 == f64_of(strip(value@)), r is Ok ==> no_leading_zero(unsign(part(value@))), r is Ok ==> forall|k: int| 0 <= k < value@.len() ==> !bad_us(value@, k)",
       closures={0: "|i: usize, c: char| -> (b: bool) requires i == 0 ==> c != '_', i < value@.len(), c == value@[i as int], value@.len() <= usize::MAX as int - 1, ensures b == bad_us(value@, i as int)"},
       entry="proof { if toml_float(value@) { lemma_float(value@); } }",
       ghost=[("before", "if c == '_'", "proof { assert(bad_us(value@, i as int) == (c == '_' && !(0 < i && i + 1 < value@.len() && digv(value@[i - 1], 10) is Some && digv(value@[i + 1], 10) is Some))) by { reveal(bad_us); } }"), ("before", "let int_number", "proof { if signed(int_slice@) { lemma_first(int_slice@); } }"), ("before", "if vx_len(int_number) > 1", "proof { lemma_len_ge(int_number@); assert(int_slice@ == part(value@)); assert(int_number@ == unsign(int_slice@)); assert forall|k: int| 0 <= k < value@.len() implies !bad_us(value@, k) by { let i = k as usize; assert(value@[i as int] == value@[k]); } if toml_float(value@) { lemma_len1(unsign(int_slice@)); assert(int_number@ == unsign(int_slice@)); } }")]),
    Fn(BO, "fn try_from_boolean", ensures="value@ == \"true\"@ ==> r == Ok::<bool, ()>(true), value@ == \"false\"@ ==> r == Ok::<bool, ()>(false), value@ != \"true\"@ && value@ != \"false\"@ ==> r is Err",
       rewrites=[("match value { $a => $$x, $b => $$y, _ => $$z, }", "if vx_eq(value, $a) { $x } else if vx_eq(value, $b) { $y } else { $z }")],
       entry=TF),
]
COMMON = [Text("pub use std::num::{ParseIntError, ParseFloatError};"), Raw(FL, "enum ParseError"), Text(STR), Text(SPEC), Text(DIG), Text(STUBS)]
UNIT = Unit("numbers", COMMON + FNS + INTO, rewrites=RW)
