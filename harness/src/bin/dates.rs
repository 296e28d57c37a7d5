//! C07: date-times — what is accepted, what it means, and that writing a value gives a text that means it.
use std::str::FromStr;
use tombi_date_time::*;
use tombi_document_tree::{IntoDocumentTreeAndErrors, Value};
use tombi_toml_version::TomlVersion;
use wit::*;

type D = (u16, u8, u8);
type T = (u8, u8, u8, u32);
#[derive(Debug, PartialEq, Clone, Copy)]
struct Dt {
    d: Option<D>,
    t: Option<T>,
    o: Option<TimeZoneOffset>,
    seconds: bool,
}

struct P<'a>(&'a [u8]);
impl<'a> P<'a> {
    fn num(&mut self, n: usize) -> Option<u32> {
        let h = self.0.get(..n)?;
        if !h.iter().all(u8::is_ascii_digit) {
            return None;
        }
        self.0 = &self.0[n..];
        std::str::from_utf8(h).unwrap().parse().ok()
    }
    fn eat(&mut self, set: &[u8]) -> Option<u8> {
        let c = *self.0.first()?;
        if set.contains(&c) {
            self.0 = &self.0[1..];
            Some(c)
        } else {
            None
        }
    }
    fn date(&mut self) -> Option<D> {
        let y = self.num(4)?;
        self.eat(b"-")?;
        let m = self.num(2)?;
        self.eat(b"-")?;
        let d = self.num(2)?;
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
        if m == 0 || m > 12 || d == 0 || d > last[m as usize - 1] {
            return None;
        }
        Some((y as u16, m as u8, d as u8))
    }
    fn time(&mut self) -> Option<(T, bool)> {
        let h = self.num(2)?;
        self.eat(b":")?;
        let m = self.num(2)?;
        let mut s = 0;
        let mut ns = 0;
        let secs = self.eat(b":").is_some();
        if secs {
            s = self.num(2)?;
            if self.eat(b".").is_some() {
                let n = self.0.iter().take_while(|b| b.is_ascii_digit()).count();
                if n == 0 {
                    return None;
                }
                let mut t = std::str::from_utf8(&self.0[..n]).unwrap().to_string();
                t.push_str("000000000");
                ns = t[..9].parse().unwrap();
                self.0 = &self.0[n..];
            }
        }
        if h > 23 || m > 59 || s > 60 {
            return None;
        }
        Some(((h as u8, m as u8, s as u8, ns), secs))
    }
    fn offset(&mut self) -> Option<TimeZoneOffset> {
        if self.eat(b"Zz").is_some() {
            return Some(TimeZoneOffset::Z);
        }
        let sign = if self.eat(b"+-")? == b'-' { -1 } else { 1 };
        let h = self.num(2)?;
        self.eat(b":")?;
        let m = self.num(2)?;
        if h > 23 || m > 59 {
            return None;
        }
        Some(TimeZoneOffset::Custom { minutes: sign * (h * 60 + m) as i16 })
    }
}
fn want(s: &str) -> Option<Dt> {
    let mut p = P(s.as_bytes());
    let r = if s.as_bytes().get(2) == Some(&b':') {
        let (t, seconds) = p.time()?;
        Dt { d: None, t: Some(t), o: None, seconds }
    } else {
        let d = p.date()?;
        let mut r = Dt { d: Some(d), t: None, o: None, seconds: true };
        if p.eat(b"Tt ").is_some() {
            let (t, seconds) = p.time()?;
            r.t = Some(t);
            r.seconds = seconds;
            if !p.0.is_empty() {
                r.o = Some(p.offset()?);
            }
        }
        r
    };
    if p.0.is_empty() { Some(r) } else { None }
}

macro_rules! parts {
    (date $v:expr) => { Some(($v.year(), $v.month(), $v.day())) };
    (time $v:expr) => { Some(($v.hour(), $v.minute(), $v.second(), $v.nanosecond())) };
}
fn same(w: &Option<Dt>, kind: (bool, bool, bool), got: Option<(Option<D>, Option<T>, Option<TimeZoneOffset>)>) -> bool {
    let w = w.filter(|w| (w.d.is_some(), w.t.is_some(), w.o.is_some()) == kind);
    w.map(|w| (w.d, w.t, w.o)) == got
}

fn read(s: &str, w: &Option<Dt>) -> Result<(), String> {
    let od = OffsetDateTime::from_str(s).ok();
    let ld = LocalDateTime::from_str(s).ok();
    let d = LocalDate::from_str(s).ok();
    let t = LocalTime::from_str(s).ok();
    if !same(w, (true, true, true), od.map(|v| (parts!(date v), parts!(time v), Some(v.offset())))) {
        return Err(format!("OffsetDateTime::from_str gives {od:?}, the grammar {w:?}"));
    }
    if !same(w, (true, true, false), ld.map(|v| (parts!(date v), parts!(time v), None))) {
        return Err(format!("LocalDateTime::from_str gives {ld:?}, the grammar {w:?}"));
    }
    if !same(w, (true, false, false), d.map(|v| (parts!(date v), None, None))) {
        return Err(format!("LocalDate::from_str gives {d:?}, the grammar {w:?}"));
    }
    if !same(w, (false, true, false), t.map(|v| (None, parts!(time v), None))) {
        return Err(format!("LocalTime::from_str gives {t:?}, the grammar {w:?}"));
    }
    // writing and reading again
    macro_rules! again {
        ($v:expr, $ty:ty) => {
            if let Some(v) = $v {
                let x = v.to_string();
                if <$ty>::from_str(&x).ok() != Some(v) || want(&x).is_none() {
                    return Err(format!("{v:?} is written as {x:?}, which does not mean it"));
                }
            }
        };
    }
    again!(od, OffsetDateTime);
    again!(ld, LocalDateTime);
    again!(d, LocalDate);
    again!(t, LocalTime);
    Ok(())
}

fn doc(s: &str, w: &Option<Dt>) -> Result<(), String> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit() || b"-:.TtZz+ ".contains(&b)) || s.bytes().enumerate().any(|(i, b)| b == b' ' && !(i == 10 && s.len() > 13 && s.as_bytes()[13] == b':')) {
        return Ok(());
    }
    for v in [TomlVersion::V1_0_0, TomlVersion::V1_1_0] {
        for (pre, post) in [("k = ", "\n"), ("k = [", "]"), ("k={a=", "}")] {
            let src = format!("{pre}{s}{post}");
            let (root, e) = tombi_parser::parse(&src).into_root_and_errors();
            let (tree, f): (tombi_document_tree::DocumentTree, Vec<_>) = root.into_document_tree_and_errors(v).into();
            let got = match tree.get("k").cloned() {
                Some(Value::Array(a)) => a.values().first().cloned(),
                Some(Value::Table(t)) => t.get("a").cloned(),
                x => x,
            };
            let errs = e.len() + f.len();
            let g = match &got {
                Some(Value::OffsetDateTime(x)) => Some((parts!(date x.value()), parts!(time x.value()), Some(x.value().offset()))),
                Some(Value::LocalDateTime(x)) => Some((parts!(date x.value()), parts!(time x.value()), None)),
                Some(Value::LocalDate(x)) => Some((parts!(date x.value()), None, None)),
                Some(Value::LocalTime(x)) => Some((None, parts!(time x.value()), None)),
                _ => None,
            };
            let ww = w.filter(|w| w.seconds || v != TomlVersion::V1_0_0).map(|w| (w.d, w.t, w.o));
            if (ww.is_some() && (g != ww || errs > 0)) || (ww.is_none() && errs == 0 && g.is_some()) {
                return Err(format!("{src:?} in {v:?} gives {got:?} with {errs} errors, the grammar {ww:?}"));
            }
        }
    }
    Ok(())
}

fn chrono_case(y: i32, m: u32, d: u32, h: u32, mi: u32, s: u32, ns: u32, off: i32) -> Result<(), String> {
    let Some(nd) = chrono::NaiveDate::from_ymd_opt(y, m, d) else { return Ok(()) };
    let Some(nt) = chrono::NaiveTime::from_hms_nano_opt(h, mi, s, ns) else { return Ok(()) };
    let want_d = (y as u16, m as u8, d as u8);
    let want_t = (h as u8, mi as u8, s as u8, ns);
    let a = LocalDate::from(nd);
    let b = LocalTime::from(nt);
    let c = LocalDateTime::from(nd.and_time(nt));
    if parts!(date a) != Some(want_d) || parts!(time b) != Some(want_t) || parts!(date c) != Some(want_d) || parts!(time c) != Some(want_t) {
        return Err(format!("converted to {a:?}, {b:?}, {c:?}"));
    }
    let fo = chrono::FixedOffset::east_opt(off * 60).unwrap();
    if let Some(dt) = nd.and_time(nt).and_local_timezone(fo).single() {
        let o = OffsetDateTime::from(dt);
        if parts!(date o) != Some(want_d) || parts!(time o) != Some(want_t) || o.offset() != (TimeZoneOffset::Custom { minutes: off as i16 }) {
            return Err(format!("{dt} is converted to {o}"));
        }
    }
    Ok(())
}

fn check(s: &str) -> Result<(), String> {
    if let Some(r) = s.strip_prefix("chrono ") {
        let n: Vec<i64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
        if n.len() != 8 || !(0..=9999).contains(&n[0]) || n[1..7].iter().any(|x| *x < 0 || *x > 2_000_000_000) || !(-1439..=1439).contains(&n[7]) {
            return Ok(());
        }
        return chrono_case(n[0] as i32, n[1] as u32, n[2] as u32, n[3] as u32, n[4] as u32, n[5] as u32, n[6] as u32, n[7] as i32);
    }
    let w = want(s);
    read(s, &w)?;
    doc(s, &w)
}

fn main() {
    let mut ctx = Ctx::from_args();
    let mut f = strs(&["2000-02-29", "1900-02-29", "T", "t", " ", "Z", "z", ":", ".", "-", "+", "0", "9", "10:20:30", "23:59:60", "24:00", "00:60", "+00:00", "-23:59", "2024-", "12", "31", "123456789", "é", ","]);
    f.extend(ctx.dict.clone().into_iter().filter(|d| d.len() < 12));
    ctx.generate = Some(Box::new(|r| {
        if r.below(6) == 0 {
            let ns = [0u64, 1, 500_000_000, 999_999_999, 120, 100_000_000][r.below(6)];
            let off = r.below(2879) as i64 - 1439;
            return format!("chrono {} {} {} {} {} {} {ns} {off}", r.below(10000), 1 + r.below(12), 1 + r.below(31), r.below(24), r.below(60), r.below(60));
        }
        fn n2(r: &mut Rng, top: usize) -> String {
            match r.below(8) {
                0 => format!("{top:02}"),
                1 => format!("{:02}", top + 1),
                2 => "00".into(),
                3 => format!("{}", r.below(100)),
                _ => format!("{:02}", r.below(top + 1)),
            }
        }
        let mut s = String::new();
        let what = r.below(4);
        if what > 0 {
            let y = match r.below(3) {
                0 => [0, 4, 1900, 2000, 2023, 2024, 9999][r.below(7)],
                1 => 100 * r.below(100),
                _ => r.below(10000),
            };
            s.push_str(&format!("{y:04}"));
            s.push('-');
            let m = if r.below(3) == 0 { "02".into() } else { n2(r, 12) };
            s.push_str(&m);
            s.push('-');
            let last = [28, 29, 30, 31][r.below(4)];
            s.push_str(&n2(r, last));
        }
        if what > 1 {
            s.push_str(["T", "t", " ", "T", "_", ""][r.below(6)]);
        }
        if what != 1 {
            s.push_str(&n2(r, 23));
            s.push(':');
            s.push_str(&n2(r, 59));
            if r.below(4) > 0 {
                s.push(':');
                s.push_str(&n2(r, 60));
            }
            if r.below(3) == 0 {
                s.push_str([".", ".", ","][r.below(3)]);
                for k in 0..r.below(13) {
                    s.push((b'0' + (if r.below(2) == 0 { 0 } else { (k * 7 + r.below(10)) % 10 }) as u8) as char);
                }
            }
        }
        if what == 3 || r.below(12) == 0 {
            match r.below(4) {
                0 => s.push_str(["Z", "z"][r.below(2)]),
                1 => s.push_str(["+00:00", "-00:00", "+24:00", "-23:60", "+1:00", "Z0"][r.below(6)]),
                _ => {
                    s.push_str(["+", "-"][r.below(2)]);
                    s.push_str(&n2(r, 23));
                    s.push(':');
                    s.push_str(&n2(r, 59));
                }
            }
        }
        if r.below(10) == 0 {
            let at = (0..=s.len()).filter(|k| s.is_char_boundary(*k)).nth(r.below(s.len() + 1)).unwrap_or(0);
            s.insert_str(at, ["0", " ", ":", "é", "-", "T", "."][r.below(7)]);
        }
        if r.below(10) == 0 {
            s.pop();
        }
        s
    }));
    each_string(&mut ctx, &f, 4, 6, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
