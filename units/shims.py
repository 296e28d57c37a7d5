"""Shared trusted shims: std library pieces given a contract (each is listed in the evidence's trusted base)."""

# ---- char / str model -------------------------------------------------------
STR = r'''
pub open spec fn clen(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.skip(1)) } }

pub proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { lemma_blen_concat(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]); }
}
pub proof fn lemma_blen_one(c: char)
    ensures blen(seq![c]) == clen(c),
{ assert(seq![c].skip(1) =~= Seq::<char>::empty()); assert(blen(seq![c].skip(1)) == 0); }
pub proof fn lemma_blen_split(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures blen(s.take(i)) + blen(s.skip(i)) == blen(s), blen(s.take(i)) <= blen(s), blen(s.take(i)) >= i,
{ assert(s.take(i) + s.skip(i) =~= s); lemma_blen_concat(s.take(i), s.skip(i)); lemma_blen_ge(s.take(i)); }
pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len(),
    decreases s.len(),
{ if s.len() > 0 { lemma_blen_ge(s.skip(1)); } }
pub proof fn lemma_blen_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures blen(s.take(i)) + blen(s.subrange(i, j)) == blen(s.take(j)), blen(s.take(i)) <= blen(s.take(j)), i < j ==> blen(s.take(i)) < blen(s.take(j)),
{ assert(s.take(j).take(i) =~= s.take(i)); lemma_blen_split(s.take(j), i); assert(s.take(j).skip(i) =~= s.subrange(i, j)); lemma_blen_ge(s.subrange(i, j)); }

/// `a` is the byte offset of the i-th character boundary of s
pub open spec fn at_byte(s: Seq<char>, a: int, i: int) -> bool { 0 <= i <= s.len() && blen(s.take(i)) == a }
pub open spec fn is_bound(s: Seq<char>, a: int) -> bool { exists|i: int| at_byte(s, a, i) }
pub open spec fn cidx(s: Seq<char>, a: int) -> int { choose|i: int| at_byte(s, a, i) }
pub proof fn lemma_cidx(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures is_bound(s, blen(s.take(i)) as int), cidx(s, blen(s.take(i)) as int) == i,
{
    let a = blen(s.take(i)) as int;
    assert(at_byte(s, a, i));
    let j = cidx(s, a);
    assert(at_byte(s, a, j));
    if i < j { lemma_blen_mono(s, i, j); } else if j < i { lemma_blen_mono(s, j, i); }
}
/// &value[a..b] (byte offsets; panics off a character boundary, hence the precondition)
#[verifier::external_body]
pub fn vx_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires a <= b, is_bound(s@, a as int), is_bound(s@, b as int),
    ensures r@ == s@.subrange(cidx(s@, a as int), cidx(s@, b as int)),
{ &s[a..b] }
#[verifier::external_body]
pub fn vx_slice_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires is_bound(s@, a as int),
    ensures r@ == s@.skip(cidx(s@, a as int)),
{ &s[a..] }
#[verifier::external_body]
pub fn vx_slice_to<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires is_bound(s@, a as int),
    ensures r@ == s@.take(cidx(s@, a as int)),
{ &s[..a] }
#[verifier::external_body]
pub fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@), r <= 0x7fff_ffff_ffff_ffff { s.len() }
#[verifier::external_body]
pub fn vx_with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty() { String::with_capacity(n) }
#[verifier::external_body]
pub fn vx_to_string(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@ + seq![c] { s.push(c) }
#[verifier::external_body]
pub fn vx_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }

pub open spec fn is_control(c: char) -> bool { (c as u32) <= 0x1f || (0x7f <= (c as u32) && (c as u32) <= 0x9f) }
#[verifier::external_body]
pub fn vx_is_control(c: char) -> (r: bool) ensures r == is_control(c) { c.is_control() }
#[verifier::external_body]
pub fn vx_from_u32(n: u32) -> (r: Option<char>)
    ensures r == char_of(n as nat),
{ std::char::from_u32(n) }
pub open spec fn char_of(n: nat) -> Option<char> {
    if n <= 0x10ffff && !(0xd800 <= n && n <= 0xdfff) { Some((n as u32) as char) } else { None }
}
pub open spec fn hexd(c: char) -> Option<nat> {
    if '0' <= c && c <= '9' { Some((c as nat - '0' as nat) as nat) }
    else if 'a' <= c && c <= 'f' { Some((c as nat - 'a' as nat + 10) as nat) }
    else if 'A' <= c && c <= 'F' { Some((c as nat - 'A' as nat + 10) as nat) }
    else { None }
}
/// value of a non-empty string of hexadecimal digits, most significant first
pub open spec fn hexn(s: Seq<char>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None }
    else if s.len() == 1 { hexd(s[0]) }
    else { match (hexn(s.drop_last()), hexd(s.last())) { (Some(a), Some(b)) => Some(a * 16 + b), _ => None } }
}
pub open spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] hexd(s[i])) is Some }
'''

PKCHARS = r'''
/// Peekable<Chars>: `src` is the whole text, `pos` how many characters were consumed, the view is what is left.
#[verifier::external_body]
pub struct PkChars<'a> { it: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> PkChars<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn view(&self) -> Seq<char> { self.src().skip(self.pos()) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.src().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).src() == old(self).src(), final(self).wf(), old(self).wf(),
            old(self).pos() == old(self).src().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).src().len() ==> r == Some(old(self).src()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            // the same in terms of the view
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { self.it.next() }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<char>)
        ensures
            final(self).src() == old(self).src(), final(self).pos() == old(self).pos(), old(self).wf(),
            final(self)@ == old(self)@,
            old(self)@.len() == 0 ==> r is None,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]),
    { self.it.peek().copied() }
}
#[verifier::external_body]
pub fn vx_chars_peekable<'a>(s: &'a str) -> (r: PkChars<'a>) ensures r.src() == s@, r.pos() == 0, r@ == s@ { PkChars { it: s.chars().peekable() } }
'''
