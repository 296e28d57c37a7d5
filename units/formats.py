"""C11: the string formats that tombi decides itself (dates, times, JSON pointers), against RFC 3339 and RFC 6901."""
from vgen import *
from shims import *

V = "crates/tombi-validator/src/validate/format/"
SPEC = r'''
// ---------------------------------------------------------------- RFC 3339 and RFC 6901
pub open spec fn dig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dv(c: char) -> int { c as int - '0' as int }
pub open spec fn digs(s: Seq<char>, i: int, j: int) -> bool { j <= s.len() && forall|k: int| i <= k < j ==> dig(#[trigger] s[k]) }
pub open spec fn two(s: Seq<char>, i: int) -> int { 10 * dv(s[i]) + dv(s[i + 1]) }
pub open spec fn four(s: Seq<char>, i: int) -> int { 100 * two(s, i) + two(s, i + 2) }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn dim(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
/// full-date: YYYY-MM-DD, a day of the calendar
pub open spec fn full_date(s: Seq<char>) -> bool {
    &&& s.len() == 10 && s[4] == '-' && s[7] == '-' && digs(s, 0, 4) && digs(s, 5, 7) && digs(s, 8, 10)
    &&& 1 <= two(s, 5) <= 12 && 1 <= two(s, 8) <= dim(four(s, 0), two(s, 5))
}
/// the first place from i on that holds no digit
pub open spec fn dig_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && dig(s[i]) { dig_end(s, i + 1) } else { i } }
/// partial-time: hh:mm:ss[.frac], a leap second allowed; where it ends
pub open spec fn time_end(s: Seq<char>) -> Option<int> {
    if s.len() >= 8 && s[2] == ':' && s[5] == ':' && digs(s, 0, 2) && digs(s, 3, 5) && digs(s, 6, 8) && two(s, 0) <= 23 && two(s, 3) <= 59 && two(s, 6) <= 60 {
        if s.len() > 8 && s[8] == '.' { if dig_end(s, 9) == 9 { None } else { Some(dig_end(s, 9)) } } else { Some(8) }
    } else { None }
}
pub open spec fn tz(s: Seq<char>) -> bool {
    ||| s.len() == 1 && (s[0] == 'Z' || s[0] == 'z')
    ||| s.len() == 6 && (s[0] == '+' || s[0] == '-') && s[3] == ':' && digs(s, 1, 3) && digs(s, 4, 6) && two(s, 1) <= 23 && two(s, 4) <= 59
}
pub open spec fn full_time(s: Seq<char>) -> bool { match time_end(s) { Some(k) => tz(s.skip(k)), None => false } }
pub open spec fn local_time(s: Seq<char>) -> bool { time_end(s) == Some(s.len() as int) }
pub open spec fn sep(c: char) -> bool { c == 'T' || c == 't' || c == ' ' }
pub open spec fn date_time(s: Seq<char>) -> bool { s.len() > 10 && sep(s[10]) && full_date(s.take(10)) && full_time(s.skip(11)) }
pub open spec fn local_date_time(s: Seq<char>) -> bool { s.len() > 10 && sep(s[10]) && full_date(s.take(10)) && local_time(s.skip(11)) }
/// JSON pointer: empty, or parts that each start with /, where ~ only stands before 0 or 1
pub open spec fn esc_ok(s: Seq<char>, i: int) -> bool { s[i] == '~' ==> i + 1 < s.len() && (s[i + 1] == '0' || s[i + 1] == '1') }
pub open spec fn pointer(s: Seq<char>) -> bool { s.len() == 0 || (s[0] == '/' && forall|i: int| 0 <= i < s.len() ==> #[trigger] esc_ok(s, i)) }

// ---------------------------------------------------------------- std contracts
pub open spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 0x7f }
#[verifier::external_body]
pub fn vx_is_ascii(s: &str) -> (r: bool) ensures r == ascii(s@) { s.is_ascii() }
#[verifier::external_body]
pub fn vx_as_bytes(s: &str) -> (r: &[u8]) ensures r@.len() == blen(s@), ascii(s@) ==> forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]) as int == s@[i] as int { s.as_bytes() }
#[verifier::external_body]
pub fn vx_all_digits(s: &str) -> (r: bool) ensures r == digs(s@, 0, s@.len() as int) { s.bytes().all(|b| b.is_ascii_digit()) }
pub open spec fn numv(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * numv(s.drop_last()) + dv(s.last()) } }
/// str::parse::<u32>: an optional +, then one or more digits, in range
pub open spec fn std_u32(s: Seq<char>) -> Option<u32> {
    let b = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if b.len() == 0 || !digs(b, 0, b.len() as int) || numv(b) > 0xffff_ffff { None } else { Some(numv(b) as u32) }
}
#[verifier::external_body]
pub fn vx_parse_u32(s: &str) -> (r: Option<u32>) ensures r == std_u32(s@) { s.parse::<u32>().ok() }
#[verifier::external_body]
pub fn vx_strip_char<'a>(s: &'a str, c: char) -> (r: Option<&'a str>) ensures match r { Some(t) => s@.len() > 0 && s@[0] == c && t@ == s@.skip(1), None => s@.len() == 0 || s@[0] != c } { s.strip_prefix(c) }
#[verifier::external_body]
pub fn vx_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
#[verifier::external_body]
pub fn vx_is_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() == 1 && s@[0] == c) { s.chars().eq([c]) }
/// str::bytes().position(): an ASCII byte is an ASCII character, so it stands on a character boundary
pub open spec fn first_at(s: Seq<char>, p: int, i: int) -> bool { at_byte(s, p, i) && i < s.len() }
#[verifier::external_body]
pub fn vx_pos_sep(s: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => p < 0x7fff_ffff_ffff_ffff && exists|i: int| #[trigger] first_at(s@, p as int, i) && sep(s@[i]) && forall|j: int| 0 <= j < i ==> !sep(#[trigger] s@[j]), None => forall|j: int| 0 <= j < s@.len() ==> !sep(#[trigger] s@[j]) }
{ s.bytes().position(|b| matches!(b, b'T' | b't' | b' ')) }
#[verifier::external_body]
pub fn vx_pos_nondigit(s: &str) -> (r: Option<usize>)
    ensures match r { Some(p) => exists|i: int| #[trigger] first_at(s@, p as int, i) && !dig(s@[i]) && digs(s@, 0, i), None => digs(s@, 0, s@.len() as int) }
{ s.bytes().position(|b| !b.is_ascii_digit()) }

// ---------------------------------------------------------------- lemmas
/// ASCII texts: bytes are characters
pub proof fn lemma_ascii(s: Seq<char>)
    requires ascii(s),
    ensures blen(s) == s.len(), forall|i: int| 0 <= i <= s.len() ==> #[trigger] at_byte(s, i, i), forall|i: int| 0 <= i <= s.len() ==> #[trigger] is_bound(s, i), forall|i: int| 0 <= i <= s.len() ==> #[trigger] cidx(s, i) == i,
{
    assert forall|i: int| 0 <= i <= s.len() implies blen(#[trigger] s.take(i)) == i by { lemma_ascii_take(s, i); }
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] at_byte(s, i, i) by { assert(blen(s.take(i)) == i); }
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] cidx(s, i) == i by { assert(at_byte(s, i, i)); lemma_cidx(s, i); assert(blen(s.take(i)) == i); }
    assert forall|i: int| 0 <= i <= s.len() implies #[trigger] is_bound(s, i) by { assert(at_byte(s, i, i)); }
}
pub proof fn lemma_ascii_take(s: Seq<char>, i: int)
    requires ascii(s), 0 <= i <= s.len(),
    ensures blen(s.take(i)) == i,
    decreases i,
{
    if i > 0 { lemma_ascii_take(s, i - 1); lemma_blen_mono(s, i - 1, i); assert(s.subrange(i - 1, i) =~= seq![s[i - 1]]); lemma_blen_one(s[i - 1]); assert(s[i - 1] as u32 <= 0x7f); }
    else { assert(s.take(0) =~= Seq::<char>::empty()); }
}
pub proof fn lemma_num2(t: Seq<char>)
    requires t.len() == 2,
    ensures numv(t) == 10 * dv(t[0]) + dv(t[1]),
{ reveal_with_fuel(numv, 4); assert(t.drop_last().drop_last() =~= Seq::<char>::empty()); assert(t.drop_last().last() == t[0]); }
pub proof fn lemma_num4(t: Seq<char>)
    requires t.len() == 4,
    ensures numv(t) == four(t, 0),
{ let u = t.drop_last().drop_last(); lemma_num2(u); assert(numv(t.drop_last()) == 10 * numv(u) + dv(t[2])); assert(numv(t) == 10 * numv(t.drop_last()) + dv(t[3])); }
/// the number read from s[i..j] (two or four characters)
pub open spec fn num_at(s: Seq<char>, i: int, j: int) -> Option<u32> {
    if !digs(s, i, j) { None } else if j == i + 2 { Some(two(s, i) as u32) } else { Some(four(s, i) as u32) }
}
pub proof fn lemma_sub(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), j == i + 2 || j == i + 4,
    ensures digits_u32(s.subrange(i, j)) == num_at(s, i, j),
        digs(s, i, j) && j == i + 2 ==> 0 <= two(s, i) <= 99, digs(s, i, j) && j == i + 4 ==> 0 <= four(s, i) <= 9999,
{
    let t = s.subrange(i, j);
    assert(forall|k: int| 0 <= k < j - i ==> t[k] == s[i + k]);
    if digs(s, i, j) { assert(digs(t, 0, t.len() as int)); assert(forall|k: int| i <= k < j ==> 0 <= dv(#[trigger] s[k]) <= 9); if j == i + 2 { lemma_num2(t); } else { lemma_num4(t); } }
    else { let k = choose|k: int| i <= k < j && !dig(#[trigger] s[k]); assert(!dig(t[k - i])); }
}
/// a number written in digits alone
pub open spec fn digits_u32(s: Seq<char>) -> Option<u32> { if s.len() > 0 && digs(s, 0, s.len() as int) && numv(s) <= 0xffff_ffff { Some(numv(s) as u32) } else { None } }
pub proof fn lemma_dig_end(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), digs(s, i, e), e == s.len() || !dig(s[e]),
    ensures dig_end(s, i) == e,
    decreases e - i,
{ if i < e { assert(dig(s[i])); lemma_dig_end(s, i + 1, e); } }
pub proof fn lemma_dig_run(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= dig_end(s, i) <= s.len(), digs(s, i, dig_end(s, i)),
    decreases s.len() - i,
{ if i < s.len() && dig(s[i]) { lemma_dig_run(s, i + 1); } }
/// what reads as a time is ASCII as far as it goes
pub proof fn lemma_time_ascii(s: Seq<char>)
    ensures match time_end(s) { Some(k) => 8 <= k <= s.len() && (ascii(s.skip(k)) ==> ascii(s)), None => true },
{
    lemma_dig_run(s, if s.len() >= 9 { 9 } else { s.len() as int });
    if let Some(k) = time_end(s) {
        if ascii(s.skip(k)) {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 0x7f by {
                if i >= k { assert(s.skip(k)[i - k] as u32 <= 0x7f); }
                else if i > 8 { assert(dig(s[i])); } else if i == 8 { } else if i == 2 || i == 5 { } else { assert(dig(s[i])); }
            }
        }
    }
}
pub proof fn lemma_date_ascii(s: Seq<char>)
    ensures full_date(s) ==> ascii(s) && forall|i: int| 0 <= i < s.len() ==> !sep(#[trigger] s[i]),
{ if full_date(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 0x7f && !sep(s[i]) by { if i != 4 && i != 7 { assert(dig(s[i])); } } } }
pub proof fn lemma_tz_ascii(s: Seq<char>)
    ensures tz(s) ==> ascii(s),
{ if tz(s) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) as u32 <= 0x7f by { if s.len() == 6 && i != 0 && i != 3 { assert(dig(s[i])); } } } }
pub proof fn lemma_len(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures blen(s.take(i)) + 1 <= blen(s),
{ lemma_blen_split(s, i); lemma_blen_ge(s.skip(i)); }
/// the date and the time are what stands before and after the first separator
pub proof fn lemma_split(s: Seq<char>, p: int, i: int)
    requires first_at(s, p, i), sep(s[i]), forall|j: int| 0 <= j < i ==> !sep(#[trigger] s[j]),
    ensures is_bound(s, p), cidx(s, p) == i, is_bound(s, p + 1), cidx(s, p + 1) == i + 1,
        (full_date(s.take(i)) && full_time(s.skip(i + 1))) == date_time(s), (full_date(s.take(i)) && local_time(s.skip(i + 1))) == local_date_time(s),
{
    lemma_cidx(s, i); lemma_blen_mono(s, i, i + 1); assert(s.subrange(i, i + 1) =~= seq![s[i]]); lemma_blen_one(s[i]); lemma_cidx(s, i + 1);
    if s.len() > 10 && sep(s[10]) && full_date(s.take(10)) {
        lemma_date_ascii(s.take(10));
        if i < 10 { assert(!sep(s.take(10)[i])); }
        assert(i == 10);
    }
}
'''
A = "proof { if ascii(value@) { lemma_ascii(value@); } }"
RW = [
    ("value.len()", "vx_len(value)"), ("stripped.len()", "vx_len(stripped)"), ("s.len()", "vx_len(s)"),
    ("value.is_ascii()", "vx_is_ascii(value)"), ("rest.is_ascii()", "vx_is_ascii(rest)"),
    ("value.as_bytes()", "vx_as_bytes(value)"), ("tz.as_bytes()", "vx_as_bytes(tz)"),
    ("value.bytes().all(|b| b.is_ascii_digit())", "vx_all_digits(value)"), ("value.parse::<u32>().ok()", "vx_parse_u32(value)"),
    ("parse_digits($$e).is_some_and(|$v| $$c)", "(match parse_digits($$e) { Some($v) => $$c, None => false })"),
    ("value.bytes().position(|b| matches!(b, b'T' | b't' | b' '))", "vx_pos_sep(value)"),
    ("stripped.bytes().position(|b| !b.is_ascii_digit()).unwrap_or($$d)", "(match vx_pos_nondigit(stripped) { Some(vx_p) => vx_p, None => $$d })"),
    ("rest.strip_prefix('.')", "vx_strip_char(rest, '.')"), ("rest.is_empty()", "vx_is_empty(rest)"), ("value.is_empty()", "vx_is_empty(value)"),
    ("$s.starts_with($c)", "vx_starts_with($s, $c)"),
    ("!(1..=12).contains(&month)", "!(1 <= month && month <= 12)"), ("(1..=max_day).contains(&day)", "(1 <= day && day <= max_day)"),
    ("match rest { \"Z\" | \"z\" => true, s if $$c => { $$b } _ => false, }", "if vx_is_char(rest, 'Z') || vx_is_char(rest, 'z') { true } else { let s = rest; if $$c { $$b } else { false } }"),
    ("value[1..].chars()", "vx_chars_peekable(vx_slice_from(value, 1))"),
    ("&$x[$a..$b]", "vx_slice($x, $a, $b)"), ("&$x[$a..]", "vx_slice_from($x, $a)"), ("&$x[..$a]", "vx_slice_to($x, $a)"),
    ("&$x[$a + 1..]", "vx_slice_from($x, $a + 1)"),
]
def mod(name, fns): return Mod(name, [Text("use super::*;")] + fns)
UNIT = Unit("formats", [Text(STR), Text(PKCHARS), Text(SPEC),
    mod("date", [Text("use super::time::parse_digits;"), Fn(V + "date.rs", "fn validate_format", ensures="r == full_date(value@),",
        entry=A + " proof { lemma_date_ascii(value@); if ascii(value@) && value@.len() == 10 { lemma_sub(value@, 0, 4); lemma_sub(value@, 5, 7); lemma_sub(value@, 8, 10); } }")]),
    mod("time", [
        Fn(V + "time.rs", "fn validate_format", ensures="r == full_time(value@),", entry="proof { lemma_time_ascii(value@); if let Some(k) = time_end(value@) { lemma_tz_ascii(value@.skip(k)); } }"),
        Fn(V + "time.rs", "fn parse_digits", ensures="r == digits_u32(value@),", entry="proof { if value@.len() > 0 && value@[0] == '+' { assert(!dig(value@[0])); } }"),
        Fn(V + "time.rs", "fn parse_time_components", ensures="match r { Some(t) => ascii(value@) && time_end(value@) is Some && t@ == value@.skip(time_end(value@)->Some_0), None => !ascii(value@) || time_end(value@) is None },",
           entry=A + " proof { if ascii(value@) && value@.len() >= 8 { lemma_sub(value@, 0, 2); lemma_sub(value@, 3, 5); lemma_sub(value@, 6, 8); } }",
           ghost=[("after", "let rest = $$x;", "proof { assert(rest@ == value@.skip(8)); }"),
                  ("after", "let frac_end = $$x;", "proof { let s = value@; let t = stripped@; assert(t =~= s.skip(9)); assert(ascii(t)); lemma_ascii(t); assert(forall|k: int| 0 <= k < t.len() ==> t[k] == s[k + 9]); let e = frac_end as int; assert forall|i: int| #[trigger] first_at(t, e, i) implies i == e by { assert(at_byte(t, i, i)); } assert(e <= t.len() && digs(t, 0, e) && (e == t.len() || !dig(t[e]))); assert(forall|k: int| 9 <= k < 9 + e ==> #[trigger] s[k] == t[k - 9]); lemma_dig_end(s, 9, 9 + e); assert(s.skip(9).skip(e) =~= s.skip(9 + e)); }")]),
        Fn(V + "time.rs", "fn validate_timezone", ensures="r == tz(rest@),",
           entry="proof { lemma_tz_ascii(rest@); if ascii(rest@) { lemma_ascii(rest@); } }",
           ghost=[("after", "let tz = $$x;", "proof { let t = rest@; assert(tz@ =~= t.skip(1)); assert(ascii(tz@)); lemma_ascii(tz@); lemma_sub(tz@, 0, 2); lemma_sub(tz@, 3, 5); assert(forall|k: int| 0 <= k < 5 ==> tz@[k] == t[k + 1]); assert(digs(tz@, 0, 2) == digs(t, 1, 3)) by { assert(digs(tz@, 0, 2) == (dig(t[1]) && dig(t[2]))); } assert(digs(tz@, 3, 5) == digs(t, 4, 6)) by { assert(digs(tz@, 3, 5) == (dig(t[4]) && dig(t[5]))); } }")]),
    ]),
    mod("local_time", [Fn(V + "local_time.rs", "fn validate_format", ensures="r == local_time(value@),", entry="proof { lemma_time_ascii(value@); if let Some(k) = time_end(value@) { assert(value@.skip(k).len() == value@.len() - k); } }")]),
    mod("date_time", [
        Fn(V + "date_time.rs", "fn validate_format", ensures="r == date_time(value@),"),
        Fn(V + "date_time.rs", "fn parse_date_time", ensures="r == date_time(value@),",
           ghost=[("before", "let date_part", "proof { let i = choose|i: int| #[trigger] first_at(value@, sep_pos as int, i) && sep(value@[i]) && forall|j: int| 0 <= j < i ==> !sep(#[trigger] value@[j]); lemma_split(value@, sep_pos as int, i); lemma_len(value@, i); }")])]),
    mod("local_date_time", [
        Fn(V + "local_date_time.rs", "fn validate_format", ensures="r == local_date_time(value@),",
           ghost=[("before", "let date_part", "proof { let i = choose|i: int| #[trigger] first_at(value@, sep_pos as int, i) && sep(value@[i]) && forall|j: int| 0 <= j < i ==> !sep(#[trigger] value@[j]); lemma_split(value@, sep_pos as int, i); lemma_len(value@, i); }")])]),
    mod("json_pointer", [Fn(V + "json_pointer.rs", "fn validate_format", ensures="r == pointer(value@),",
        ghost=[("before", "let mut chars", "proof { let s = value@; lemma_blen_mono(s, 0, 1); assert(s.take(0) =~= Seq::<char>::empty()); assert(s.subrange(0, 1) =~= seq!['/']); lemma_blen_one('/'); lemma_cidx(s, 1); assert(esc_ok(s, 0)); }"),
               ("before", "match chars.next() { $$a }", "proof { assert(c == value@[chars.pos()]); assert(esc_ok(value@, chars.pos()) || chars.pos() + 1 >= value@.len() || (value@[chars.pos() + 1] != '0' && value@[chars.pos() + 1] != '1')); }")],
        loops={0: Loop("while let", invariant="chars.wf(), value@.len() > 0, value@[0] == '/', chars.src() == value@.skip(1), forall|i: int| 0 <= i < chars.pos() + 1 ==> #[trigger] esc_ok(value@, i),",
                       ensures="chars.pos() == value@.len() - 1,", decreases="chars.src().len() - chars.pos()")})]),
], rewrites=RW)
