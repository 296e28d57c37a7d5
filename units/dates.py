"""C07: date-times — text to value, value to text."""
import re
from vgen import *
from shims import *

D = "crates/tombi-date-time/src/"
P_ = D + "private/"
CH = "crates/tombi-document-tree/src/support/chrono.rs"


# ---------------------------------------------------------------- write!/format! are spelt out, piece by piece
def _args(s):
    out, depth, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[i:j + 1]; i = j + 1
            continue
        if c == "'" and i + 2 < len(s) and s[i + 2] == "'":
            cur += s[i:i + 3]; i += 3
            continue
        if c in "([{": depth += 1
        if c in ")]}": depth -= 1
        if c == "," and depth == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def _close(s, i):
    """index of the ) that closes the ( at i"""
    depth, k = 0, i
    while True:
        c = s[k]
        if c == '"':
            k += 1
            while s[k] != '"':
                k += 2 if s[k] == "\\" else 1
        elif c == "'" and k + 2 < len(s) and s[k + 2] == "'":
            k += 2
        elif c in "([{": depth += 1
        elif c in ")]}":
            depth -= 1
            if depth == 0:
                return k
        k += 1


def _pieces(f, fmt, args, lit="vx_lit"):
    """the calls that write one format string; None when a placeholder is beyond what the contracts describe"""
    out, pos, k = [], 0, 0
    body = fmt[1:-1]
    buf = ""
    while pos < len(body):
        c = body[pos]
        if body.startswith(("{{", "}}"), pos):
            buf += c; pos += 2
            continue
        if c == "\\":
            buf += body[pos:pos + 2]; pos += 2
            continue
        if c != "{":
            buf += c; pos += 1
            continue
        e = body.index("}", pos)
        ph = body[pos + 1:e]
        pos = e + 1
        m = re.fullmatch(r"(\w*)(?::(?:0(\d+))?)?", ph)
        if not m:
            return None
        name = m.group(1)
        if name == "":
            if k >= len(args):
                return None
            name = args[k]; k += 1
        elif name.isdigit():
            name = args[int(name)]
        if buf:
            out.append(f'{lit}({f}, "{buf}");'); buf = ""
        out.append(f"VxShow::show(&({name}), {f}, {m.group(2) or 0});")
    if buf:
        out.append(f'{lit}({f}, "{buf}");')
    return " ".join(out)


def spell_out(text):
    for mac in ("write!", "format!"):
        i = 0
        while True:
            i = text.find(mac + "(", i)
            if i < 0:
                break
            e = _close(text, i + len(mac))
            a = _args(text[i + len(mac) + 1:e])
            if mac == "write!":
                p = _pieces(a[0], a[1], a[2:]) if len(a) > 1 and a[1].startswith('"') else None
                new = None if p is None else "{ " + p + " Ok::<(), FmtError>(()) }"
            else:
                p = _pieces("&mut vx_s", a[0], a[1:]) if a and a[0].startswith('"') else None
                new = None if p is None else "{ let mut vx_s = Fmt::vx_new(); " + p + " vx_s.vx_string() }"
            if new is None:
                i += 1
                continue
            text = text[:i] + new + text[e + 1:]
            i += len(new)
    return text


SPEC = r'''
// ---------------------------------------------------------------- std contracts
#[verifier::external_body]
pub struct Chrs<'a> { it: std::str::Chars<'a> }
impl<'a> Chrs<'a> {
    pub uninterp spec fn src(&self) -> Seq<char>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn view(&self) -> Seq<char> { self.src().skip(self.pos()) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.src().len() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            final(self).src() == old(self).src(), final(self).wf(), old(self).wf(),
            old(self).pos() == old(self).src().len() ==> r is None && final(self).pos() == old(self).pos(),
            old(self).pos() < old(self).src().len() ==> r == Some(old(self).src()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
    { self.it.next() }
}
#[verifier::external_body]
pub fn vx_chars<'a>(s: &'a str) -> (r: Chrs<'a>) ensures r.src() == s@, r.pos() == 0, r.wf() { Chrs { it: s.chars() } }
/// it.clone().nth(k)
#[verifier::external_body]
pub fn vx_nth<'a>(it: &Chrs<'a>, k: usize) -> (r: Option<char>)
    ensures it.wf(), r == (if it.pos() + k < it.src().len() { Some(it.src()[it.pos() + k]) } else { None::<char> }),
{ it.it.clone().nth(k) }
/// Chars::as_str
#[verifier::external_body]
pub fn vx_rest<'a>(it: &Chrs<'a>) -> (r: &'a str) ensures it.wf(), r@ == it.src().skip(it.pos()) { it.it.as_str() }
pub open spec fn is_dg(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn dval(c: char) -> int { c as int - '0' as int }
#[verifier::external_body]
pub fn vx_is_digit(c: char) -> (r: bool) ensures r == is_dg(c) { c.is_ascii_digit() }
/// the bytes of a text: while it is ASCII, byte k is character k
#[verifier::external_body]
pub fn vx_bytes(s: &str) -> (r: &[u8])
    ensures r@.len() == blen(s@), r@.len() <= 0x7fff_ffff_ffff_ffff, vx_bytes_ok(r@, s@),
{ s.as_bytes() }
pub open spec fn vx_bytes_ok(r: Seq<u8>, s: Seq<char>) -> bool {
    forall|k: int| 0 <= k < s.len() && (forall|j: int| 0 <= j < k ==> clen(#[trigger] s[j]) == 1) ==> (#[trigger] r[k] < 0x80) == (clen(s[k]) == 1) && (clen(s[k]) == 1 ==> r[k] as int == s[k] as int)
}
pub proof fn lemma_all1(s: Seq<char>)
    requires forall|j: int| 0 <= j < s.len() ==> clen(#[trigger] s[j]) == 1,
    ensures blen(s) == s.len(),
    decreases s.len(),
{ if s.len() > 0 { assert(clen(s[0]) == 1); assert forall|i: int| 0 <= i < s.skip(1).len() implies clen(#[trigger] s.skip(1)[i]) == 1 by { assert(s.skip(1)[i] == s[i + 1]); } lemma_all1(s.skip(1)); } }
pub proof fn lemma_byte(b: Seq<u8>, s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), i < b.len(), b.len() == blen(s), vx_bytes_ok(b, s), alldg(s, 0, i),
    ensures i < s.len(), dg(s, i) == (0x30 <= b[i] <= 0x39), dg(s, i) ==> dval(s[i]) == b[i] - 0x30,
{
    assert forall|j: int| 0 <= j < i implies clen(#[trigger] s[j]) == 1 by { assert(dg(s, j)); }
    if i == s.len() { lemma_all1(s); }
    assert(b[i] < 0x80 || b[i] >= 0x80);
}
pub open spec fn pow10(e: nat) -> nat decreases e { if e == 0 { 1 } else { 10 * pow10((e - 1) as nat) } }
#[verifier::external_body]
pub fn vx_pow10(e: u32) -> (r: u32) requires e <= 9, ensures r == pow10(e as nat) { 10_u32.pow(e) }
pub fn vx_in(a: i16, b: i16, x: i16) -> (r: bool) ensures r == (a <= x <= b) { a <= x && x <= b }

// ---------------------------------------------------------------- fmt
pub struct FmtError;
#[verifier::external_body]
pub struct Fmt { s: String }
impl Fmt {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn vx_new() -> (r: Fmt) ensures r@ == Seq::<char>::empty() { Fmt { s: String::new() } }
    #[verifier::external_body]
    pub fn vx_string(self) -> (r: String) ensures r@ == self@ { self.s }
}
#[verifier::external_body]
pub fn vx_lit(f: &mut Fmt, s: &str) ensures final(f)@ == old(f)@ + s@ { f.s.push_str(s) }
pub open spec fn dc(k: nat) -> char {
    if k == 0 { '0' } else if k == 1 { '1' } else if k == 2 { '2' } else if k == 3 { '3' } else if k == 4 { '4' }
    else if k == 5 { '5' } else if k == 6 { '6' } else if k == 7 { '7' } else if k == 8 { '8' } else { '9' }
}
pub open spec fn digits(n: nat, w: nat) -> Seq<char> decreases w { if w == 0 { Seq::empty() } else { digits(n / 10, (w - 1) as nat).push(dc(n % 10)) } }
pub uninterp spec fn dec(n: int) -> Seq<char>;
/// {:0w}
pub open spec fn pad(n: int, w: nat) -> Seq<char> { if 0 <= n < pow10(w) { digits(n as nat, w) } else { dec(n) } }
pub trait VxShow {
    spec fn text(&self, w: nat) -> Seq<char>;
    spec fn show_ok(&self) -> bool;
    fn show(&self, f: &mut Fmt, w: usize) requires self.show_ok(), ensures final(f)@ == old(f)@ + self.text(w as nat);
}
@INTS@
impl VxShow for char {
    open spec fn text(&self, w: nat) -> Seq<char> { seq![*self] }
    open spec fn show_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn show(&self, f: &mut Fmt, w: usize) { f.s.push(*self) }
}
impl VxShow for &str {
    open spec fn text(&self, w: nat) -> Seq<char> { self@ }
    open spec fn show_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn show(&self, f: &mut Fmt, w: usize) { f.s.push_str(*self) }
}
/// str::trim_end_matches('0')
#[verifier::external_body]
pub fn vx_trim_end<'a>(s: &'a str, c: char) -> (r: &'a str) ensures r@ == trimmed(s@, c) { s.trim_end_matches(c) }
pub open spec fn trimmed(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == c { trimmed(s.drop_last(), c) } else { s } }

// ---------------------------------------------------------------- the date-time grammar (RFC 3339 as TOML restricts it)
pub open spec fn dg(s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && is_dg(s[i]) }
pub open spec fn alldg(s: Seq<char>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> #[trigger] dg(s, j) }
pub open spec fn ch(s: Seq<char>, i: int, c: char) -> bool { 0 <= i < s.len() && s[i] == c }
pub open spec fn two(s: Seq<char>, i: int) -> int { dval(s[i]) * 10 + dval(s[i + 1]) }
pub open spec fn leap(y: int) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
pub open spec fn days(y: int, m: int) -> int { if m == 2 { if leap(y) { 29 } else { 28 } } else if m == 4 || m == 6 || m == 9 || m == 11 { 30 } else { 31 } }
pub open spec fn date_ok(d: Date) -> bool { d.year <= 9999 && 1 <= d.month <= 12 && 1 <= d.day <= days(d.year as int, d.month as int) }
pub open spec fn time_ok(t: Time) -> bool { t.hour < 24 && t.minute < 60 && t.second <= 60 && t.nanosecond < 1_000_000_000 }
pub open spec fn offset_ok(o: TimeZoneOffset) -> bool { match o { TimeZoneOffset::Z => true, TimeZoneOffset::Custom { minutes } => -1440 < minutes < 1440 } }
pub open spec fn date_form(s: Seq<char>) -> bool {
    dg(s, 0) && dg(s, 1) && dg(s, 2) && dg(s, 3) && ch(s, 4, '-') && dg(s, 5) && dg(s, 6) && ch(s, 7, '-') && dg(s, 8) && dg(s, 9)
}
pub open spec fn date_of(s: Seq<char>) -> Date {
    Date { year: (dval(s[0]) * 1000 + dval(s[1]) * 100 + dval(s[2]) * 10 + dval(s[3])) as u16, month: two(s, 5) as u8, day: two(s, 8) as u8 }
}
pub open spec fn hm_form(s: Seq<char>, i: int) -> bool { dg(s, i) && dg(s, i + 1) && ch(s, i + 2, ':') && dg(s, i + 3) && dg(s, i + 4) }
/// first position from i on that is no digit
pub open spec fn dend(s: Seq<char>, i: int) -> int decreases s.len() - i { if dg(s, i) { dend(s, i + 1) } else { i } }
/// value of k digits from i on
pub open spec fn valp(s: Seq<char>, i: int, k: nat) -> int decreases k { if k == 0 { 0 } else { valp(s, i, (k - 1) as nat) * 10 + dval(s[i + k - 1]) } }
/// nanoseconds of a fraction of k digits from i on; digits after the ninth are dropped
pub open spec fn frac(s: Seq<char>, i: int, k: nat) -> int { if k <= 9 { valp(s, i, k) * pow10((9 - k) as nat) } else { valp(s, i, 9) } }
pub open spec fn time_of(s: Seq<char>, i: int) -> Option<(Time, int)> {
    if !hm_form(s, i) { None }
    else {
        let h = two(s, i); let m = two(s, i + 3);
        if !ch(s, i + 5, ':') { if h < 24 && m < 60 { Some((Time { hour: h as u8, minute: m as u8, second: 0, nanosecond: 0 }, i + 5)) } else { None } }
        else if !(dg(s, i + 6) && dg(s, i + 7)) { None }
        else {
            let sec = two(s, i + 6);
            if !(h < 24 && m < 60 && sec <= 60) { None }
            else if !ch(s, i + 8, '.') { Some((Time { hour: h as u8, minute: m as u8, second: sec as u8, nanosecond: 0 }, i + 8)) }
            else if !dg(s, i + 9) { None }
            else { Some((Time { hour: h as u8, minute: m as u8, second: sec as u8, nanosecond: frac(s, i + 9, (dend(s, i + 9) - i - 9) as nat) as u32 }, dend(s, i + 9))) }
        }
    }
}
/// what stands between the time and the end: nothing, Z, or a numeric offset
pub open spec fn off_of(s: Seq<char>, i: int) -> Option<Option<TimeZoneOffset>> {
    if i == s.len() { Some(None) }
    else if (ch(s, i, 'Z') || ch(s, i, 'z')) && s.len() == i + 1 { Some(Some(TimeZoneOffset::Z)) }
    else if (ch(s, i, '+') || ch(s, i, '-')) && hm_form(s, i + 1) && s.len() == i + 6 && two(s, i + 1) < 24 && two(s, i + 4) < 60 {
        let m = two(s, i + 1) * 60 + two(s, i + 4);
        Some(Some(TimeZoneOffset::Custom { minutes: (if s[i] == '-' { -m } else { m }) as i16 }))
    } else { None }
}
pub open spec fn parse_dt(s: Seq<char>) -> Option<DateTime> {
    if ch(s, 2, ':') {
        match time_of(s, 0) { Some((t, e)) => if e == s.len() { Some(DateTime { date: None, time: Some(t), offset: None }) } else { None }, None => None }
    } else if !(date_form(s) && date_ok(date_of(s))) { None }
    else if s.len() == 10 { Some(DateTime { date: Some(date_of(s)), time: None, offset: None }) }
    else if ch(s, 10, 'T') || ch(s, 10, 't') || ch(s, 10, ' ') {
        match time_of(s, 11) {
            Some((t, e)) => match off_of(s, e) { Some(o) => Some(DateTime { date: Some(date_of(s)), time: Some(t), offset: o }), None => None },
            None => None,
        }
    } else { None }
}
'''
ints = ""
for t in ("u8", "u16", "u32", "i16"):
    ints += f"""
impl VxShow for {t} {{
    open spec fn text(&self, w: nat) -> Seq<char> {{ pad(*self as int, w) }}
    open spec fn show_ok(&self) -> bool {{ true }}
    #[verifier::external_body]
    fn show(&self, f: &mut Fmt, w: usize) {{ f.s.push_str(&std::format!("{{:01$}}", *self, w)) }}
}}
"""
SPEC = SPEC.replace("@INTS@", ints)

LEMMAS = r'''
pub proof fn lemma_dend(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= dend(s, i) <= s.len(), !dg(s, dend(s, i)), alldg(s, i, dend(s, i)),
    decreases s.len() - i,
{ if dg(s, i) { lemma_dend(s, i + 1); } }
pub proof fn lemma_dend_is(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), alldg(s, i, e), !dg(s, e),
    ensures dend(s, i) == e,
    decreases e - i,
{ if i < e { lemma_dend_is(s, i + 1, e); } }
pub proof fn lemma_pow10()
    ensures pow10(0) == 1, pow10(1) == 10, pow10(2) == 100, pow10(3) == 1000, pow10(4) == 10000, pow10(5) == 100000, pow10(6) == 1000000, pow10(7) == 10000000, pow10(8) == 100000000, pow10(9) == 1000000000,
{ reveal_with_fuel(pow10, 12); }
pub proof fn lemma_frac_step(s: Seq<char>, i: int, k: nat)
    requires k < 9, 0 <= i, dg(s, i + k),
    ensures frac(s, i, k + 1) == frac(s, i, k) + pow10((8 - k) as nat) * dval(s[i + k]),
{
    let a = valp(s, i, k); let d = dval(s[i + k]); let p = pow10((8 - k) as nat) as int;
    assert(pow10((9 - k) as nat) == 10 * pow10((8 - k) as nat));
    assert(valp(s, i, k + 1) == a * 10 + d);
    assert((a * 10 + d) * p == a * (10 * p) + p * d) by (nonlinear_arith);
    assert(pow10((9 - (k + 1)) as nat) == p);
}
pub proof fn lemma_valp_bound(s: Seq<char>, i: int, k: nat)
    requires 0 <= i, alldg(s, i, i + k),
    ensures 0 <= valp(s, i, k) < pow10(k),
    decreases k,
{ if k > 0 { lemma_valp_bound(s, i, (k - 1) as nat); assert(dg(s, i + k - 1)); } }
pub proof fn lemma_frac_bound(s: Seq<char>, i: int, k: nat)
    requires 0 <= i, alldg(s, i, i + k),
    ensures k >= 9 ==> frac(s, i, k + 1) == frac(s, i, k), 0 <= frac(s, i, k) < 1_000_000_000, k < 9 ==> frac(s, i, k) + 9 * pow10((8 - k) as nat) < 1_000_000_000,
{
    lemma_pow10();
    let m = if k <= 9 { k } else { 9 };
    lemma_valp_bound(s, i, m);
    if k <= 9 {
        let p = pow10((9 - k) as nat) as int; let q = pow10(k) as int; let v = valp(s, i, k);
        lemma_pow_split(k, (9 - k) as nat);
        assert(v * p <= (q - 1) * p && 0 <= v * p) by (nonlinear_arith) requires 0 <= v <= q - 1, p >= 0;
        assert((q - 1) * p == q * p - p) by (nonlinear_arith);
        assert(p >= 1) by { lemma_pow_pos((9 - k) as nat); }
        if k < 9 { assert(p == 10 * pow10((8 - k) as nat)); lemma_pow_pos((8 - k) as nat); } else { assert(v * p == v) by (nonlinear_arith) requires p == 1; }
    }
}
pub proof fn lemma_scale(p: int, d: int)
    requires p >= 0, 0 <= d <= 9,
    ensures 0 <= p * d <= 9 * p,
{ assert(0 <= p * d <= 9 * p) by (nonlinear_arith) requires p >= 0, 0 <= d <= 9; }
pub proof fn lemma_sign(s: int, x: int)
    ensures s == 1 ==> s * x == x, s == -1 ==> s * x == -x,
{ }
pub proof fn lemma_pow_pos(a: nat) ensures pow10(a) >= 1 decreases a { if a > 0 { lemma_pow_pos((a - 1) as nat); } }
pub proof fn lemma_pow_split(a: nat, b: nat)
    ensures pow10(a) * pow10(b) == pow10(a + b),
    decreases a,
{
    if a > 0 {
        lemma_pow_split((a - 1) as nat, b);
        let x = pow10((a - 1) as nat) as int; let y = pow10(b) as int; let z = pow10(a) as int;
        assert(z * y == 10 * (x * y)) by (nonlinear_arith) requires z == 10 * x;
        assert((a + b - 1) as nat == (a - 1) as nat + b);
        assert(pow10(a + b) == 10 * pow10((a + b - 1) as nat));
        assert(pow10(a) * pow10(b) == z * y);
    } else { assert(pow10(a) == 1); assert(a + b == b); assert(1 * pow10(b) == pow10(b)); }
}

// ---------------------------------------------------------------- text of a value
pub open spec fn date_text(d: Date) -> Seq<char> { pad(d.year as int, 4) + "-"@ + pad(d.month as int, 2) + "-"@ + pad(d.day as int, 2) }
pub open spec fn time_text(t: Time) -> Seq<char> {
    let hms = pad(t.hour as int, 2) + ":"@ + pad(t.minute as int, 2) + ":"@ + pad(t.second as int, 2);
    if t.nanosecond == 0 { hms } else { hms + "."@ + trimmed(pad(t.nanosecond as int, 9), '0') }
}
pub open spec fn offset_text(o: TimeZoneOffset) -> Seq<char> {
    match o {
        TimeZoneOffset::Z => "Z"@,
        TimeZoneOffset::Custom { minutes } => { let a = if minutes < 0 { -minutes } else { minutes as int }; seq![if minutes < 0 { '-' } else { '+' }] + pad(a / 60, 2) + ":"@ + pad(a % 60, 2) }
    }
}
pub open spec fn dt_text(v: DateTime) -> Seq<char> {
    (match v.date { Some(d) => date_text(d), None => Seq::empty() })
    + (match v.time { Some(t) => (if v.date is Some { "T"@ } else { Seq::empty() }) + time_text(t), None => Seq::empty() })
    + (match v.offset { Some(o) => offset_text(o), None => Seq::empty() })
}
pub open spec fn dt_ok(v: DateTime) -> bool {
    &&& v.date is Some || v.time is Some
    &&& v.offset is Some ==> v.date is Some && v.time is Some
    &&& v.date is Some ==> date_ok(v.date->0)
    &&& v.time is Some ==> time_ok(v.time->0)
    &&& v.offset is Some ==> offset_ok(v.offset->0)
}
impl VxShow for Date { open spec fn text(&self, w: nat) -> Seq<char> { date_text(*self) } open spec fn show_ok(&self) -> bool { true } fn show(&self, f: &mut Fmt, w: usize) { let _ = self.fmt(f); } }
impl VxShow for Time { open spec fn text(&self, w: nat) -> Seq<char> { time_text(*self) } open spec fn show_ok(&self) -> bool { true } fn show(&self, f: &mut Fmt, w: usize) { let _ = self.fmt(f); } }
impl VxShow for TimeZoneOffset { open spec fn text(&self, w: nat) -> Seq<char> { offset_text(*self) } open spec fn show_ok(&self) -> bool { self.fmt_ok() } fn show(&self, f: &mut Fmt, w: usize) { let _ = self.fmt(f); } }
impl TimeZoneOffset { pub open spec fn fmt_ok(&self) -> bool { match *self { TimeZoneOffset::Z => true, TimeZoneOffset::Custom { minutes } => minutes > i16::MIN } } }
'''
ST = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
RW = [
    ("crate::private::", ""), ("crate::parse::Error", "Error"), ("crate::", ""), ("Self::Err", "Error"), ("pub(crate)", "pub"),
    ("std::fmt::Formatter<'_>", "Fmt"), ("std::fmt::Result", "Result<(), FmtError>"), ("std::str::Chars<'_>", "Chrs<'_>"),
]
PUB = [(f"{n}: $t", f"pub {n}: $t") for n in ("date", "time", "offset")]
FMT = [("if let Some(ref $n) =", "if let Some($n) ="), ("TimeZoneOffset::Custom { mut minutes } => {", "TimeZoneOffset::Custom { minutes } => { let mut minutes = minutes;"),
       ("$a *= -1", "$a = -$a"), ("$s.trim_end_matches($c)", "vx_trim_end($s.as_str(), $c)")]
PRW = [
    ("date.len()", "vx_len(date)"), ("date.chars()", "vx_chars(date)"), ("$c.clone().nth($$n)", "vx_nth(&$c, $$n)"), ("$c.clone().next()", "vx_nth(&$c, 0)"),
    ("chars.as_str()", "vx_rest(&chars)"), ("whole.len()", "vx_len(whole)"), ("whole[end..].chars()", "vx_chars(vx_slice_from(whole, end))"),
    ("u16::from($$x)", "(($$x) as u16)"), ("u32::from($$x)", "(($$x) as u32)"), ("10_u32.pow($$e)", "vx_pow10($$e)"),
    ("$a.$b.is_multiple_of($n)", "($a.$b % $n == 0)"), ("$a.is_multiple_of($n)", "($a % $n == 0)"),
    ("(($$a)..=($$b)).contains(&$x)", "vx_in($$a, $$b, $x)"), ("$c.is_ascii_digit()", "vx_is_digit($c)"),
    ("for (i, byte) in whole.bytes().enumerate() {", "let vx_b = vx_bytes(whole); for i in 0..vx_b.len() { let byte = vx_b[i];"),
]


def show(file, ty, ens, **kw):
    return Fn(file, f"Display for {ty}::fmt", header=f"impl {ty}", ensures=f"r is Ok, final(f)@ == old(f)@ + {ens}", pre=spell_out, rewrites=FMT, **kw)


LIT = "proof { " + " ".join(f'reveal_strlit("{c}");' for c in "-:.TZ") + " }"

ROUND = r"""
// ---------------------------------------------------------------- what is written is read back
pub proof fn lemma_dc(k: nat)
    requires k < 10,
    ensures is_dg(dc(k)), dval(dc(k)) == k,
{ }
pub proof fn lemma_digits(n: nat, w: nat)
    requires n < pow10(w),
    ensures digits(n, w).len() == w, alldg(digits(n, w), 0, w as int), valp(digits(n, w), 0, w) == n,
    decreases w,
{
    if w > 0 {
        let p = digits(n / 10, (w - 1) as nat); let s = digits(n, w);
        assert(pow10(w) == 10 * pow10((w - 1) as nat));
        lemma_digits(n / 10, (w - 1) as nat);
        lemma_dc(n % 10);
        assert(s == p.push(dc(n % 10)));
        assert forall|j: int| 0 <= j < w implies #[trigger] dg(s, j) by { if j < w - 1 { assert(dg(p, j)); assert(s[j] == p[j]); } }
        lemma_valp_eq(s, 0, p, 0, (w - 1) as nat);
    }
}
pub proof fn lemma_valp_eq(s: Seq<char>, i: int, t: Seq<char>, k: int, n: nat)
    requires 0 <= i, 0 <= k, i + n <= s.len(), k + n <= t.len(), forall|j: int| 0 <= j < n ==> s[i + j] == #[trigger] t[k + j],
    ensures valp(s, i, n) == valp(t, k, n),
    decreases n,
{ if n > 0 { lemma_valp_eq(s, i, t, k, (n - 1) as nat); assert(s[i + (n - 1)] == t[k + (n - 1)]); } }
/// t stands in s at position i
pub open spec fn sits(s: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub proof fn lemma_sits(s: Seq<char>, i: int, t: Seq<char>)
    requires sits(s, i, t),
    ensures forall|j: int| 0 <= j < t.len() ==> s[i + j] == #[trigger] t[j],
{ assert forall|j: int| 0 <= j < t.len() implies s[i + j] == #[trigger] t[j] by { assert(s.subrange(i, i + t.len())[j] == s[i + j]); } }
pub proof fn lemma_two(n: int)
    requires 0 <= n < 100,
    ensures ({ let s = pad(n, 2); s.len() == 2 && dg(s, 0) && dg(s, 1) && two(s, 0) == n }),
{ lemma_pow10(); lemma_digits(n as nat, 2); let s = pad(n, 2); reveal_with_fuel(valp, 3); assert(dg(s, 0) && dg(s, 1)); }
pub proof fn lemma_four(n: int)
    requires 0 <= n < 10000,
    ensures ({ let s = pad(n, 4); s.len() == 4 && dg(s, 0) && dg(s, 1) && dg(s, 2) && dg(s, 3) && dval(s[0]) * 1000 + dval(s[1]) * 100 + dval(s[2]) * 10 + dval(s[3]) == n }),
{ lemma_pow10(); lemma_digits(n as nat, 4); let s = pad(n, 4); reveal_with_fuel(valp, 5); assert(dg(s, 0) && dg(s, 1) && dg(s, 2) && dg(s, 3)); }
pub proof fn lemma_date_text(s: Seq<char>, d: Date)
    requires date_ok(d), sits(s, 0, date_text(d)),
    ensures date_text(d).len() == 10, date_form(s), date_of(s) == d,
{
    reveal_strlit("-");
    lemma_four(d.year as int); lemma_two(d.month as int); lemma_two(d.day as int);
    let t = date_text(d); lemma_sits(s, 0, t);
    let y = pad(d.year as int, 4); let m = pad(d.month as int, 2); let a = pad(d.day as int, 2);
    assert(t.len() == 10);
    assert(t[0] == y[0] && t[1] == y[1] && t[2] == y[2] && t[3] == y[3] && t[4] == '-' && t[5] == m[0] && t[6] == m[1] && t[7] == '-' && t[8] == a[0] && t[9] == a[1]);
    assert(s[0] == t[0] && s[1] == t[1] && s[2] == t[2] && s[3] == t[3] && s[4] == t[4] && s[5] == t[5] && s[6] == t[6] && s[7] == t[7] && s[8] == t[8] && s[9] == t[9]);
}
pub proof fn lemma_trimmed(s: Seq<char>)
    requires s.len() <= 9,
    ensures ({ let t = trimmed(s, '0'); t.len() <= s.len() && t == s.take(t.len() as int) && valp(t, 0, t.len()) * pow10((9 - t.len()) as nat) == valp(s, 0, s.len()) * pow10((9 - s.len()) as nat) }),
    decreases s.len(),
{
    if s.len() > 0 && s.last() == '0' {
        let p = s.drop_last();
        lemma_trimmed(p);
        let t = trimmed(s, '0');
        assert(p.take(t.len() as int) =~= s.take(t.len() as int));
        lemma_valp_eq(s, 0, p, 0, p.len());
        let a = valp(p, 0, p.len()); let q = pow10((9 - s.len()) as nat) as int; let q10 = pow10((9 - p.len()) as nat) as int;
        assert(q10 == 10 * q);
        assert(valp(s, 0, s.len()) == a * 10 + 0);
        assert((a * 10) * q == a * (10 * q)) by (nonlinear_arith);
    } else { assert(s.take(s.len() as int) =~= s); }
}
/// what may follow a time
pub open spec fn after_time(s: Seq<char>, e: int) -> bool { e == s.len() || (0 <= e < s.len() && (s[e] == 'Z' || s[e] == '+' || s[e] == '-')) }
pub proof fn lemma_hm(s: Seq<char>, i: int, h: int, m: int)
    requires 0 <= h < 100, 0 <= m < 100, sits(s, i, pad(h, 2) + ":"@ + pad(m, 2)),
    ensures hm_form(s, i), two(s, i) == h, two(s, i + 3) == m, (pad(h, 2) + ":"@ + pad(m, 2)).len() == 5,
{
    reveal_strlit(":");
    lemma_two(h); lemma_two(m);
    let t = pad(h, 2) + ":"@ + pad(m, 2);
    lemma_sits(s, i, t);
    assert(t[0] == pad(h, 2)[0] && t[1] == pad(h, 2)[1] && t[2] == ':' && t[3] == pad(m, 2)[0] && t[4] == pad(m, 2)[1]);
    assert(s[i + 0] == t[0] && s[i + 1] == t[1] && s[i + 2] == t[2] && s[i + 3] == t[3] && s[i + 4] == t[4]);
}
pub proof fn lemma_sits_part(s: Seq<char>, i: int, t: Seq<char>, a: int, b: int)
    requires sits(s, i, t), 0 <= a <= b <= t.len(),
    ensures sits(s, i + a, t.subrange(a, b)),
{ assert(s.subrange(i + a, i + b) =~= s.subrange(i, i + t.len()).subrange(a, b)); }
pub proof fn lemma_time_text(s: Seq<char>, i: int, t: Time)
    requires time_ok(t), sits(s, i, time_text(t)), after_time(s, i + time_text(t).len()),
    ensures time_of(s, i) == Some((t, i + time_text(t).len())), time_text(t).len() >= 8, ch(s, i + 2, ':'), dg(s, i), dg(s, i + 3),
{
    reveal_strlit(":"); reveal_strlit(".");
    let x = time_text(t);
    let h = pad(t.hour as int, 2); let m = pad(t.minute as int, 2); let c = pad(t.second as int, 2);
    lemma_two(t.hour as int); lemma_two(t.minute as int); lemma_two(t.second as int);
    assert(x.len() >= 8);
    assert(x.subrange(0, 5) =~= h + ":"@ + m);
    assert(x.subrange(3, 8) =~= m + ":"@ + c);
    lemma_sits_part(s, i, x, 0, 5); lemma_sits_part(s, i, x, 3, 8);
    lemma_hm(s, i, t.hour as int, t.minute as int); lemma_hm(s, i + 3, t.minute as int, t.second as int);
    assert(dg(s, i + 6) && dg(s, i + 7) && ch(s, i + 5, ':'));
    if t.nanosecond != 0 {
        let n9 = pad(t.nanosecond as int, 9); let f = trimmed(n9, '0');
        lemma_pow10();
        lemma_digits(t.nanosecond as nat, 9);
        lemma_trimmed(n9);
        let l = f.len();
        assert(valp(f, 0, l) * pow10((9 - l) as nat) == t.nanosecond) by { assert(pow10(0) == 1); let v = valp(n9, 0, 9); assert(v * 1 == v); }
        if l == 0 { assert(valp(f, 0, 0) == 0); assert(0 * pow10(9) == 0); }
        assert(x.subrange(9, 9 + l as int) =~= f);
        assert(x[8] == '.');
        lemma_sits(s, i, x);
        assert(s[i + 8] == x[8]);
        assert forall|j: int| i + 9 <= j < i + 9 + l implies #[trigger] dg(s, j) by { assert(s[i + (j - i)] == x[j - i]); assert(x.subrange(9, 9 + l as int)[j - i - 9] == x[j - i]); assert(dg(n9, j - i - 9)); }
        lemma_dend_is(s, i + 9, i + 9 + l as int);
        assert forall|j: int| 0 <= j < l implies s[i + 9 + j] == #[trigger] f[0 + j] by { assert(s[i + (9 + j)] == x[9 + j]); assert(x.subrange(9, 9 + l as int)[j] == x[9 + j]); }
        lemma_valp_eq(s, i + 9, f, 0, l);
        assert(dg(s, i + 9));
    } else {
        assert(x.len() == 8);
    }
}
pub proof fn lemma_offset_text(s: Seq<char>, i: int, o: TimeZoneOffset)
    requires offset_ok(o), sits(s, i, offset_text(o)), s.len() == i + offset_text(o).len(),
    ensures off_of(s, i) == Some(Some(o)), offset_text(o).len() > 0, after_time(s, i),
{
    reveal_strlit("Z"); reveal_strlit(":");
    let x = offset_text(o);
    lemma_sits(s, i, x);
    match o {
        TimeZoneOffset::Z => { assert(x.len() == 1); assert(s[i + 0] == x[0]); }
        TimeZoneOffset::Custom { minutes } => {
            let a = if minutes < 0 { -minutes } else { minutes as int };
            assert(0 <= a / 60 < 24 && 0 <= a % 60 < 60);
            lemma_two(a / 60); lemma_two(a % 60);
            assert(x.len() == 6);
            assert(x.subrange(1, 6) =~= pad(a / 60, 2) + ":"@ + pad(a % 60, 2));
            lemma_sits_part(s, i, x, 1, 6);
            lemma_hm(s, i + 1, a / 60, a % 60);
            assert(s[i + 0] == x[0]);
            assert(a == (a / 60) * 60 + a % 60);
        }
    }
}
/// The round trip: reading what was written gives the value back.
pub proof fn lemma_roundtrip(v: DateTime)
    requires dt_ok(v),
    ensures parse_dt(dt_text(v)) == Some(v),
{
    reveal_strlit("T");
    let s = dt_text(v);
    let e = Seq::<char>::empty();
    match (v.date, v.time) {
        (Some(d), Some(t)) => {
            let o = match v.offset { Some(o) => offset_text(o), None => e };
            let dx = date_text(d); let tx = time_text(t);
            assert(s =~= dx + ("T"@ + tx) + o);
            assert(s.subrange(0, dx.len() as int) =~= dx);
            lemma_date_text(s, d);
            assert(s.subrange(11, 11 + tx.len() as int) =~= tx);
            assert(s.subrange(11 + tx.len() as int, s.len() as int) =~= o);
            assert(s[10] == "T"@[0]);
            if v.offset is Some { lemma_offset_text(s, 11 + tx.len() as int, v.offset->0); }
            lemma_time_text(s, 11, t);
        }
        (Some(d), None) => { let dx = date_text(d); assert(s =~= dx); assert(s.subrange(0, dx.len() as int) =~= dx); lemma_date_text(s, d); }
        (None, Some(t)) => { let tx = time_text(t); assert(s =~= tx); assert(s.subrange(0, tx.len() as int as int) =~= tx); lemma_time_text(s, 0, t); }
        _ => {}
    }
}
/// what is read is a valid value
pub proof fn lemma_parsed_ok(s: Seq<char>)
    requires parse_dt(s) is Some,
    ensures dt_ok(parse_dt(s)->0),
{
    if ch(s, 2, ':') { lemma_time_ok(s, 0); } else if s.len() > 10 { lemma_time_ok(s, 11); }
}
pub proof fn lemma_time_ok(s: Seq<char>, i: int)
    requires time_of(s, i) is Some, 0 <= i,
    ensures time_ok((time_of(s, i)->0).0),
{ if ch(s, i + 5, ':') && ch(s, i + 8, '.') { lemma_dend(s, i + 9); lemma_frac_bound(s, i + 9, (dend(s, i + 9) - i - 9) as nat); } }
"""

W = [(x, D + f"{y}.rs") for x, y in (("LocalDate", "local_date"), ("LocalTime", "local_time"), ("LocalDateTime", "local_date_time"), ("OffsetDateTime", "offset_date_time"))]
# how a value of each kind is seen as a DateTime
AS = {"LocalDate": ("DateTime { date: Some(v.0), time: None, offset: None }", "date is Some && R.time is None && R.offset is None"),
      "LocalTime": ("DateTime { date: None, time: Some(v.0), offset: None }", "date is None && R.time is Some && R.offset is None"),
      "LocalDateTime": ("DateTime { date: Some(v.date), time: Some(v.time), offset: None }", "date is Some && R.time is Some && R.offset is None"),
      "OffsetDateTime": ("DateTime { date: Some(v.date), time: Some(v.time), offset: Some(v.offset) }", "date is Some && R.time is Some && R.offset is Some")}
WSPEC = ""
for n, (as_, kind) in AS.items():
    WSPEC += f"""
pub open spec fn of_{n}(v: {n}) -> DateTime {{ {as_} }}
pub open spec fn is_{n}(R: DateTime) -> bool {{ R.{kind} }}
pub open spec fn to_{n}(s: Seq<char>) -> Option<DateTime> {{ match parse_dt(s) {{ Some(v) => if is_{n}(v) {{ Some(v) }} else {{ None }}, None => None }} }}
"""
WRAP = []
for n, f in W:
    WRAP += [
        Fn(f, f"FromStr for {n}::from_str", header=f"impl {n}", ensures=f"match to_{n}(s@) {{ Some(v) => r is Ok && of_{n}(r->Ok_0) == v && dt_ok(v), None => r is Err }}",
           entry="proof { if parse_dt(s@) is Some { lemma_parsed_ok(s@); } }"),
        Fn(f, f"Display for {n}::fmt", header=f"impl {n}", pre=spell_out, rewrites=FMT,
           requires="self.offset.fmt_ok()" if n == "OffsetDateTime" else "true",
           ensures=f"r is Ok, final(f)@ == old(f)@ + dt_text(of_{n}(*self)), dt_ok(of_{n}(*self)) ==> to_{n}(dt_text(of_{n}(*self))) == Some(of_{n}(*self))",
           entry=f'proof {{ if dt_ok(of_{n}(*self)) {{ lemma_roundtrip(of_{n}(*self)); }} }}',
           tail=f"proof {{ assert(final(f)@ =~= old(f)@ + dt_text(of_{n}(*self))); }}" if False else "")]
FNS = [
    Fn(P_ + "date_time.rs", "fn digit", ensures="final(chars).src() == old(chars).src(), final(chars).wf(), old(chars).wf(), dg(old(chars).src(), old(chars).pos()) ==> r is Ok && r->Ok_0 == dval(old(chars).src()[old(chars).pos()]) && final(chars).pos() == old(chars).pos() + 1, !dg(old(chars).src(), old(chars).pos()) ==> r is Err"),
    Fn(P_ + "date_time.rs", "FromStr for DateTime::from_str", header="impl DateTime",
       ensures="match parse_dt(date@) { Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }",
       entry="proof { lemma_blen_ge(date@); }",
       attrs="#[verifier::rlimit(100)]",
       ghost=[("before", "nanosecond += $$x;", "proof { lemma_scale(p as int, byte - b'0'); }"), ("before", "let total_minutes", "proof { lemma_sign(sign as int, hours * 60 + minutes); }")],
       loops={0: Loop("for", before="let ghost vx_p = chars.pos(); proof { lemma_blen_ge(whole@); }",
           invariant="blen(whole@) >= whole@.len(), chars.src() == date@, chars.pos() == vx_p, 0 <= vx_p <= date@.len(), whole@ == date@.skip(vx_p), vx_b@.len() == blen(whole@), vx_bytes_ok(vx_b@, whole@)",
           ieb="end == blen(whole@), i <= whole@.len(), alldg(date@, vx_p, vx_p + i), nanosecond == frac(date@, vx_p, i as nat)",
           ensures="end <= whole@.len(), alldg(date@, vx_p, vx_p + end), !dg(date@, vx_p + end), nanosecond == frac(date@, vx_p, end as nat)",
           start="proof { assert(alldg(whole@, 0, i as int)) by { assert forall|j: int| 0 <= j < i implies #[trigger] dg(whole@, j) by { assert(dg(date@, vx_p + j)); } } lemma_byte(vx_b@, whole@, i as int); lemma_frac_bound(date@, vx_p, i as nat); assert(i < 9 ==> dg(date@, vx_p + i) ==> frac(date@, vx_p, i as nat + 1) == frac(date@, vx_p, i as nat) + pow10((8 - i) as nat) * dval(date@[vx_p + i])) by { if i < 9 && dg(date@, vx_p + i) { lemma_frac_step(date@, vx_p, i as nat); } } }",
           after="proof { lemma_dend_is(date@, vx_p, vx_p + end); assert forall|j: int| 0 <= j < end implies clen(#[trigger] whole@.take(end as int)[j]) == 1 by { assert(dg(date@, vx_p + j)); } lemma_all1(whole@.take(end as int)); lemma_cidx(whole@, end as int); lemma_frac_bound(date@, vx_p, end as nat); assert(date@.skip(vx_p).skip(end as int) =~= date@.skip(vx_p + end)); }")}),
    show(P_ + "date.rs", "Date", "date_text(*self)"),
    show(P_ + "time.rs", "Time", "time_text(*self)"),
    show(D + "offset.rs", "TimeZoneOffset", "offset_text(*self)", requires="self.fmt_ok()"),
    show(P_ + "date_time.rs", "DateTime", "dt_text(*self)", requires="self.offset is Some ==> self.offset->0.fmt_ok()"),
]
TYPES = [Raw(P_ + "date.rs", "struct Date", attrs=ST), Raw(P_ + "time.rs", "struct Time", attrs=ST), Raw(D + "offset.rs", "enum TimeZoneOffset", attrs=ST), Raw(P_ + "date_time.rs", "struct DateTime", attrs=ST),
         Raw(D + "error.rs", "mod parse / enum Error")]

# ---------------------------------------------------------------- the document tree

TD = "crates/tombi-document-tree/src/"
KINDS = ["OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime"]


def fold_consts(text):
    """inner `const X: T = ...;` items are replaced by their values; "literal".len() is computed"""
    while True:
        m = re.search(r"const (\w+): [^=;]+ = ([^;]+);", text)
        if not m:
            break
        text = text[:m.start()] + text[m.end():]
        text = re.sub(rf"\b{m.group(1)}\b", lambda _: m.group(2), text)
    return re.sub(r'"([^"\\]*)"\s*\.len\(\)', lambda m: str(len(m.group(1).encode())), text)


TSTUB = r"""
#[verifier::external_body]
pub struct TombiValueCommentDirective;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Range;
#[verifier::external_body]
pub struct SyntaxToken;
impl SyntaxToken {
    pub uninterp spec fn text_(&self) -> Seq<char>;
    pub uninterp spec fn range_(&self) -> Range;
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.text_() { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range) ensures r == self.range_() { unimplemented!() }
}
pub trait AstNode { spec fn tok(&self) -> Option<SyntaxToken>; }
#[verifier::external_body]
pub fn collect_comment_directives_and_errors<N: AstNode>(node: &N) -> (Option<Vec<TombiValueCommentDirective>>, Vec<TreeError>) { unimplemented!() }
pub mod pay { @PAY@ }
pub struct StrParseError; pub struct FloatParseError; pub struct ParseIntError; pub struct CommentParseError;
/// value.char_indices()
#[verifier::external_body]
pub fn vx_char_indices(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), forall|k: int| 0 <= k < s@.len() ==> (#[trigger] r@[k]).1 == s@[k] && r@[k].0 == blen(s@.take(k)),
{ s.char_indices().collect() }
pub open spec fn ascii(s: Seq<char>) -> bool { forall|j: int| 0 <= j < s.len() ==> clen(#[trigger] s[j]) == 1 }
pub proof fn lemma_ascii_take(s: Seq<char>, k: int)
    requires ascii(s), 0 <= k <= s.len(),
    ensures blen(s.take(k)) == k,
{ assert forall|j: int| 0 <= j < k implies clen(#[trigger] s.take(k)[j]) == 1 by { assert(s.take(k)[j] == s[j]); } lemma_all1(s.take(k)); }
#[verifier::external_body]
pub fn vx_nth_str(s: &str, n: usize) -> (r: Option<char>) ensures r == (if n < s@.len() { Some(s@[n as int]) } else { None::<char> }) { s.chars().nth(n) }
#[verifier::external_body]
pub fn vx_len_s(s: &String) -> (r: usize) ensures r == blen(s@), r <= 0x7fff_ffff_ffff_ffff { s.len() }

// ---- TOML: seconds may be left out from v1.1 on
/// the text the parser is given for a date-time token
pub open spec fn sp(c: char, j: int) -> char { if j == 10 && (c == 'T' || c == 't') { ' ' } else { c } }
pub open spec fn spaced(s: Seq<char>, k: int) -> Seq<char> { Seq::new(k as nat, |j: int| sp(s[j], j)) }
pub open spec fn filled(s: Seq<char>, k: int) -> Seq<char> {
    if k <= 16 || s[16] == ':' || s[16] == '.' { spaced(s, k) } else { spaced(s, 16) + ":00"@ + s.subrange(16, k) }
}
pub open spec fn no_seconds(s: Seq<char>) -> bool { s.len() == 16 || (s.len() > 16 && s[16] != ':' && s[16] != '.') }
pub open spec fn made(s: Seq<char>) -> Seq<char> { if s.len() == 16 { spaced(s, 16) + ":00"@ } else { filled(s, s.len() as int) } }
/// the value of a date-time token in a TOML version
pub open spec fn toml_dt(s: Seq<char>, v: TomlVersion) -> Option<DateTime> {
    match parse_dt(s) { Some(x) => if x.date is Some && x.time is Some && (ch(s, 16, ':') || v != TomlVersion::V1_0_0) { Some(x) } else { None }, None => None }
}
pub open spec fn toml_time(s: Seq<char>, v: TomlVersion) -> Option<DateTime> {
    match parse_dt(s) { Some(x) => if x.date is None && x.time is Some && (ch(s, 5, ':') || v != TomlVersion::V1_0_0) { Some(x) } else { None }, None => None }
}
pub proof fn lemma_skip_is(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures s.skip(i).len() == s.len() - i, forall|a: int| i <= a < s.len() ==> #[trigger] s[a] == s.skip(i)[a - i],
{ }
pub proof fn lemma_skip_eq(s: Seq<char>, i: int, t: Seq<char>, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= t.len(), s.skip(i) == t.skip(k),
    ensures s.len() - i == t.len() - k, forall|a: int| i <= a < s.len() ==> #[trigger] s[a] == t[a - i + k],
{
    lemma_skip_is(s, i); lemma_skip_is(t, k);
    assert forall|a: int| i <= a < s.len() implies #[trigger] s[a] == t[a - i + k] by { assert(s.skip(i)[a - i] == s[a]); let b = a - i + k; assert(t[b] == t.skip(k)[b - k]); }
}
pub proof fn lemma_dend_shift(s: Seq<char>, i: int, t: Seq<char>, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= t.len(), s.skip(i) == t.skip(k),
    ensures dend(s, i) - i == dend(t, k) - k,
    decreases s.len() - i,
{
    lemma_skip_eq(s, i, t, k);
    if i < s.len() {
        assert(s[i] == t[k]);
        assert(s.skip(i + 1) =~= s.skip(i).skip(1)); assert(t.skip(k + 1) =~= t.skip(k).skip(1));
        lemma_dend_shift(s, i + 1, t, k + 1);
        assert(dg(s, i) == dg(t, k));
    } else { assert(!dg(s, i) && !dg(t, k)); }
}
pub proof fn lemma_off_shift(s: Seq<char>, i: int, t: Seq<char>, k: int)
    requires 0 <= i <= s.len(), 0 <= k <= t.len(), s.skip(i) == t.skip(k),
    ensures off_of(s, i) == off_of(t, k),
{
    lemma_skip_eq(s, i, t, k);
    assert(i < s.len() ==> s[i] == t[k]);
    assert(s.len() == i + 6 ==> s[i + 1] == t[k + 1] && s[i + 2] == t[k + 2] && s[i + 3] == t[k + 3] && s[i + 4] == t[k + 4] && s[i + 5] == t[k + 5]);
}
pub proof fn lemma_time_eq(s: Seq<char>, t: Seq<char>)
    requires s.len() == t.len() >= 11, forall|j: int| 0 <= j < s.len() && j != 10 ==> #[trigger] s[j] == t[j],
    ensures time_of(s, 11) == time_of(t, 11), time_of(s, 11) is Some ==> 11 <= (time_of(s, 11)->0).1 <= s.len(),
{
    if s.len() >= 20 {
        assert(s.skip(20) =~= t.skip(20)); lemma_dend_shift(s, 20, t, 20); lemma_dend(s, 20);
        let k = (dend(s, 20) - 20) as nat;
        assert forall|j: int| 0 <= j < k implies s[20 + j] == #[trigger] t[20 + j] by { }
        lemma_valp_eq(s, 20, t, 20, if k <= 9 { k } else { 9 });
    }
    assert(forall|j: int| 11 <= j < s.len() ==> (#[trigger] dg(s, j)) == dg(t, j));
    assert(dg(s, 11) == dg(t, 11) && dg(s, 12) == dg(t, 12) && dg(s, 14) == dg(t, 14) && dg(s, 15) == dg(t, 15) && dg(s, 17) == dg(t, 17) && dg(s, 18) == dg(t, 18) && dg(s, 20) == dg(t, 20));
}
/// giving the parser the made text instead of the token text changes nothing, but for the missing seconds
pub proof fn lemma_made(s: Seq<char>)
    ensures ({ let a = parse_dt(made(s)); let b = parse_dt(s);
        &&& (a is Some && (a->0).date is Some && (a->0).time is Some) == (b is Some && (b->0).date is Some && (b->0).time is Some)
        &&& (b is Some && (b->0).date is Some && (b->0).time is Some) ==> a == b && (ch(s, 16, ':') || no_seconds(s)) }),
{
    reveal_strlit(":00");
    let m = made(s);
    if s.len() <= 10 { assert(m =~= s); }
    else {
        assert(forall|j: int| 0 <= j < 10 ==> #[trigger] m[j] == s[j]);
        assert(ch(m, 2, ':') == ch(s, 2, ':'));
        assert(forall|j: int| 0 <= j < 10 ==> (#[trigger] dg(m, j)) == dg(s, j));
        assert(date_form(m) == date_form(s)) by { assert(dg(m, 0) == dg(s, 0) && dg(m, 1) == dg(s, 1) && dg(m, 2) == dg(s, 2) && dg(m, 3) == dg(s, 3) && dg(m, 5) == dg(s, 5) && dg(m, 6) == dg(s, 6) && dg(m, 8) == dg(s, 8) && dg(m, 9) == dg(s, 9) && m[4] == s[4] && m[7] == s[7]); }
        assert(date_of(m) == date_of(s)) by { assert(m[0] == s[0] && m[1] == s[1] && m[2] == s[2] && m[3] == s[3] && m[5] == s[5] && m[6] == s[6] && m[8] == s[8] && m[9] == s[9]); }
        assert(m[10] == sp(s[10], 10));
        if !no_seconds(s) {
            assert(m =~= spaced(s, s.len() as int));
            assert forall|j: int| 0 <= j < s.len() && j != 10 implies #[trigger] s[j] == m[j] by { }
            lemma_time_eq(s, m);
            if time_of(s, 11) is Some { let e = (time_of(s, 11)->0).1; assert(s.skip(e) =~= m.skip(e)); lemma_off_shift(s, e, m, e); }
            if s.len() > 16 && s[16] == '.' { }
        } else {
            let tail = s.subrange(16, s.len() as int);
            assert(m =~= spaced(s, 16) + ":00"@ + tail);
            assert(m[16] == ':' && m[17] == '0' && m[18] == '0');
            assert(m[11] == s[11] && m[12] == s[12] && m[13] == s[13] && m[14] == s[14] && m[15] == s[15]);
            assert(hm_form(m, 11) == hm_form(s, 11));
            assert(m.skip(19) =~= tail); assert(s.skip(16) =~= tail);
            lemma_off_shift(m, 19, s, 16);
            assert(!ch(m, 19, '.')) by { if m.len() > 19 { assert(m[19] == s[16]); } }
            assert(dg(m, 17) && dg(m, 18));
            assert(two(m, 17) == 0);
        }
    }
}
"""
TSTUB = TSTUB.replace("@PAY@", " ".join(f"#[verifier::external_body] pub struct {n};" for n in ("Boolean", "Integer", "Float", "Str", "Array", "Table")))
for n in KINDS:
    TSTUB += f"""
#[verifier::external_body]
pub struct Node{n};
impl AstNode for Node{n} {{ uninterp spec fn tok(&self) -> Option<SyntaxToken>; }}
impl Node{n} {{
    #[verifier::external_body]
    pub fn token(&self) -> (r: Option<SyntaxToken>) ensures r == self.tok() {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn range(&self) -> (r: Range) {{ unimplemented!() }}
}}
"""
TRW = [("tombi_text::Range", "Range"), ("crate::support::float::ParseError", "FloatParseError"), ("std::num::ParseIntError", "ParseIntError"), ("tombi_toml_text::ParseError", "StrParseError"),
       ("crate::support::chrono::ParseError", "ParseError"), ("tombi_date_time::parse::Error", "Error"), ("crate::support::comment::ParseError", "CommentParseError"),
       ("crate::Error", "TreeError"), ("enum Error", "enum TreeError"), ("tombi_toml_version::TomlVersion", "TomlVersion")]
TRW += [r for n in KINDS for r in ((f"tombi_ast::{n}", f"Node{n}"), (f"tombi_date_time::{n}", n), (f"crate::{n} {{", f"Tree{n} {{"), (f"struct {n} {{", f"struct Tree{n} {{"), (f"{n}({n})", f"{n}(Tree{n})"))]
TRW += [("crate::", "")] + [(f"{n}({n})", f"{n}(pay::{n})") for n in ("Boolean", "Integer", "Float", "Array", "Table")] + [("String(String)", "String(pay::Str)")]
TPUB = [("pub(crate) comment_directives", "comment_directives")] + [(f"{n}: $t", f"pub {n}: $t") for n in ("value", "range", "comment_directives")]
snake = {"OffsetDateTime": "offset_date_time", "LocalDateTime": "local_date_time", "LocalDate": "local_date", "LocalTime": "local_time"}
TFN = [Fn(CH, "fn make_datetime_str", requires="ascii(value@)", ensures="no_seconds(value@) && toml_version == TomlVersion::V1_0_0 ==> r is Err, !(no_seconds(value@) && toml_version == TomlVersion::V1_0_0) ==> r is Ok && r->Ok_0@ == made(value@)",
    pre=fold_consts,
    rewrites=[("for (i, c) in value.char_indices() {", "let vx_v = vx_char_indices(value); for vx_k in 0..vx_v.len() { let (i, c) = vx_v[vx_k];"), ("datetime_str.push($c)", "vx_push(&mut datetime_str, $c)"), ("datetime_str.push_str($c)", "vx_push_str(&mut datetime_str, $c)"),
              ("datetime_str.len()", "vx_len_s(&datetime_str)"), ("String::with_capacity(value.len() + 3)", "vx_with_capacity(vx_len(value) + 3)")],
    loops={0: Loop("for", invariant="ascii(value@), vx_v@.len() == value@.len(), forall|k: int| 0 <= k < value@.len() ==> (#[trigger] vx_v@[k]).1 == value@[k] && vx_v@[k].0 == blen(value@.take(k)), datetime_str@ =~= filled(value@, vx_k as int), vx_k > 16 && no_seconds(value@) ==> toml_version != TomlVersion::V1_0_0",
        start='proof { lemma_ascii_take(value@, vx_k as int); reveal_strlit(":00"); if vx_k > 16 { assert(value@.subrange(16, vx_k as int + 1) =~= value@.subrange(16, vx_k as int).push(value@[vx_k as int])); } else if vx_k == 16 { assert(value@.subrange(16, 17) =~= seq![value@[16]]); } }',
        after='proof { let f = datetime_str@; reveal_strlit(":00"); if value@.len() <= 16 { assert(ascii(f)) by { assert forall|j: int| 0 <= j < f.len() implies clen(#[trigger] f[j]) == 1 by { assert(f[j] == sp(value@[j], j)); assert(clen(value@[j]) == 1); } } lemma_all1(f); } else { lemma_blen_ge(f); assert(f.len() >= value@.len()); } }')})]
for n in KINDS:
    spec = {"OffsetDateTime": "toml_dt(T, toml_version)", "LocalDateTime": "toml_dt(T, toml_version)", "LocalDate": "parse_dt(T)", "LocalTime": "toml_time(T, toml_version)"}[n]
    T = "node.tok()->0.text_()"
    want = lambda tok, res: (f"({tok} is Some && {spec.replace('T', tok + '->0.text_()', 1)} is Some && is_{n}({spec.replace('T', tok + '->0.text_()', 1)}->0) ==> {res(spec.replace('T', tok + '->0.text_()', 1) + '->0')})")
    rej = lambda tok, res: (f"(({tok} is None || {spec.replace('T', tok + '->0.text_()', 1)} is None || !is_{n}({spec.replace('T', tok + '->0.text_()', 1)}->0)) ==> {res})")
    low = [("_toml_version: TomlVersion", "toml_version: TomlVersion")] if n == "LocalDate" else []
    low.append(("$t.chars().nth($$n)", "vx_nth_str($t, $$n)"))
    cl = {0: "|error: Error| -> (r: TreeError)"} if n == "LocalTime" else {}
    req = "node.tok() is Some ==> ascii(node.tok()->0.text_())"
    TFN.append(Fn(CH, f"fn try_new_{snake[n]}", requires=req, pre=fold_consts, closures=cl, rewrites=low + [("&datetime_str", "datetime_str.as_str()")] ,
        ensures=want("node.tok()", lambda v: f"r is Ok && of_{n}(r->Ok_0) == {v}") + ", " + rej("node.tok()", "r is Err"),
        entry="proof { if node.tok() is Some { lemma_made(node.tok()->0.text_()); } }"))
    TFN.append(Fn(TD + f"value/{snake[n]}.rs", f"IntoDocumentTreeAndErrors for {n}::into_document_tree_and_errors", header=f"impl Node{n}", requires=req.replace("node.", "self."),
        ensures=want("self.tok()", lambda v: f"r.tree is {n} && of_{n}(r.tree->{n}_0.value) == {v} && r.tree->{n}_0.range == self.tok()->0.range_()") + ", " + rej("self.tok()", "r.tree is Incomplete && r.errors@.len() > 0")))
TT = [Raw("crates/tombi-toml-version/src/lib.rs", "macro define_toml_version / enum TomlVersion", rewrites=[("=> $v,", ",")], attrs=ST), Raw(CH, "enum ParseError"), Raw(TD + "error.rs", "enum Error")] + [Raw(TD + f"value/{snake[n]}.rs", f"struct {n}", rewrites=TPUB) for n in KINDS] + [
      Raw(TD + "value.rs", "enum Value"), Raw(TD + "lib.rs", "struct DocumentTreeAndErrors")]

WT = [Raw(f, f"struct {n}", attrs=ST, rewrites=PUB + [("(crate::private::$t);", "(pub $t);")]) for n, f in W]

# ---------------------------------------------------------------- conversion from chrono's types
CHRONO = ""
for n, dt, tm, off in (("NaiveDate", 1, 0, 0), ("NaiveTime", 0, 1, 0), ("NaiveDateTime", 1, 1, 0), ("FixedDateTime", 1, 1, 1)):
    CHRONO += f"#[verifier::external_body] pub struct {n};\nimpl {n} {{\n"
    g = ([("year", "i32", 0, 9999), ("month", "u32", 1, 12), ("day", "u32", 1, 31)] if dt else []) + ([("hour", "u32", 0, 23), ("minute", "u32", 0, 59), ("second", "u32", 0, 59), ("nanosecond", "u32", 0, 1999999999)] if tm else [])
    for f, ty, lo, hi in g:
        CHRONO += f"    pub uninterp spec fn {f}_(&self) -> int;\n    #[verifier::external_body] pub fn {f}(&self) -> (r: {ty}) ensures r == self.{f}_(){', ' + str(lo) + ' <= r <= ' + str(hi) if f != 'year' else ''} {{ unimplemented!() }}\n"
    if off:
        CHRONO += "    pub uninterp spec fn offset_(&self) -> int;\n    #[verifier::external_body] pub fn offset(&self) -> (r: FixedOffset) ensures r.seconds() == self.offset_() { unimplemented!() }\n"
    CHRONO += "}\n"
CHRONO += r"""
#[verifier::external_body] pub struct FixedOffset;
impl FixedOffset {
    pub uninterp spec fn seconds(&self) -> int;
    /// seconds east of Greenwich
    #[verifier::external_body] pub fn local_minus_utc(&self) -> (r: i32) ensures r == self.seconds(), -86_400 < r < 86_400 { unimplemented!() }
}
/// minutes of an offset, without the part below a minute
pub open spec fn minutes_of(s: int) -> int { if s < 0 { -((-s) / 60) } else { s / 60 } }
"""
CRW = [("use chrono::$x;", ""), ("chrono::DateTime<chrono::FixedOffset>", "FixedDateTime"), ("chrono::Naive", "Naive"), ("chrono::NaiveDateTime", "NaiveDateTime"), ("chrono::NaiveDate", "NaiveDate"), ("chrono::NaiveTime", "NaiveTime"), ("debug_assert!($$x);", "vx_debug_assert($$x);"), ("Self(", "Self("),
       ("value.offset().local_minus_utc() / 60", "vx_div(value.offset().local_minus_utc(), 60)")]
dfields = lambda d: f"{d}.year == value.year_(), {d}.month == value.month_(), {d}.day == value.day_()"
tfields = lambda t: f"{t}.hour == value.hour_(), {t}.minute == value.minute_(), {t}.second == value.second_(), {t}.nanosecond == value.nanosecond_()"
YR = "0 <= value.year_() <= 65535"
CFN = [Text(CHRONO + r"""
pub fn vx_debug_assert(b: bool) requires b {}
/// i32 division truncates
#[verifier::external_body]
pub fn vx_div(a: i32, b: i32) -> (r: i32) requires b == 60, ensures r == minutes_of(a as int) { a / b }
"""),
    Fn(D + "local_date.rs", "LocalDate::from_ymd", ensures="r.0.year == year, r.0.month == month, r.0.day == day"),
    Fn(D + "local_date_time.rs", "LocalDateTime::from_ymd_hms_nano", requires="nanosecond < 1_000_000_000", rewrites=CRW,
       ensures="r.date.year == year, r.date.month == month, r.date.day == day, r.time.hour == hour, r.time.minute == minute, r.time.second == second, r.time.nanosecond == nanosecond"),
    Fn(D + "local_date.rs", "From<chrono::NaiveDate> for LocalDate::from", header="impl LocalDate", rewrites=CRW, requires=YR, ensures=dfields("r.0")),
    Fn(D + "local_time.rs", "From<chrono::NaiveTime> for LocalTime::from", header="impl LocalTime", rewrites=CRW, ensures=tfields("r.0")),
    Fn(D + "local_date_time.rs", "From<chrono::NaiveDateTime> for LocalDateTime::from", header="impl LocalDateTime", rewrites=CRW, requires=YR + ", value.nanosecond_() < 1_000_000_000", ensures=dfields("r.date") + ", " + tfields("r.time")),
    Fn(D + "offset_date_time.rs", "From<chrono::DateTime<chrono::FixedOffset>> for OffsetDateTime::from", header="impl OffsetDateTime", rewrites=CRW, requires=YR + ", value.nanosecond_() < 1_000_000_000",
       ensures=dfields("r.date") + ", " + tfields("r.time") + ", r.offset == (TimeZoneOffset::Custom { minutes: minutes_of(value.offset_()) as i16 })"),
]
for _p in TT[1:] + TFN:
    _p.rewrites = TRW + list(_p.rewrites)
UNIT = Unit("dates", [Text(STR)] + TYPES + WT + [Text(SPEC), Text(LEMMAS), Text(ROUND), Text(WSPEC)] + FNS + WRAP + [Text(TSTUB)] + TT + TFN + CFN, rewrites=RW + PRW)
