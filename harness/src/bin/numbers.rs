//! C06: number and boolean literals denote the value the TOML grammar gives them, or are rejected.
use tombi_document_tree::{IntegerKind, IntoDocumentTreeAndErrors, Value};
use tombi_toml_version::TomlVersion;
use wit::*;

#[derive(Debug, PartialEq, Clone)]
enum Want {
    Int(IntegerKind, i64),
    Range,
    Float(u64),
    Bool(bool),
    Reject,
}

fn group(s: &str, radix: u32) -> bool {
    !s.is_empty() && s.split('_').all(|p| !p.is_empty() && p.chars().all(|c| c.is_digit(radix) && c.is_ascii()))
}
fn unsign(s: &str) -> (&str, bool) {
    if let Some(r) = s.strip_prefix('-') { (r, true) } else { (s.strip_prefix('+').unwrap_or(s), false) }
}
fn int(body: &str, radix: u32, neg: bool, kind: IntegerKind) -> Want {
    let mut v: i128 = 0;
    for c in body.chars().filter(|c| *c != '_') {
        v = v.saturating_mul(radix as i128).saturating_add(c.to_digit(radix).unwrap() as i128);
    }
    if neg {
        v = -v;
    }
    i64::try_from(v).map_or(Want::Range, |v| Want::Int(kind, v))
}
/// the number grammar of toml.abnf, written independently of the lexer's patterns
fn want(s: &str) -> Want {
    match s {
        "true" => return Want::Bool(true),
        "false" => return Want::Bool(false),
        _ => {}
    }
    for (p, r, k) in [("0x", 16, IntegerKind::Hexadecimal), ("0o", 8, IntegerKind::Octal), ("0b", 2, IntegerKind::Binary)] {
        if let Some(b) = s.strip_prefix(p) {
            return if group(b, r) { int(b, r, false, k) } else { Want::Reject };
        }
    }
    let (t, neg) = unsign(s);
    match t {
        "inf" => return Want::Float(if neg { f64::NEG_INFINITY } else { f64::INFINITY }.to_bits()),
        "nan" => return Want::Float(if neg { (-f64::NAN).to_bits() } else { f64::NAN.to_bits() }),
        _ => {}
    }
    let dec = |s: &str| group(s, 10) && (s.len() == 1 || !s.starts_with('0'));
    if dec(t) {
        return int(t, 10, neg, IntegerKind::Decimal);
    }
    let (m, e) = match t.find(['e', 'E']) {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (t, None),
    };
    let (i, f) = match m.find('.') {
        Some(d) => (&m[..d], Some(&m[d + 1..])),
        None => (m, None),
    };
    if dec(i) && (f.is_some() || e.is_some()) && f.is_none_or(|f| group(f, 10)) && e.is_none_or(|e| group(unsign(e).0, 10)) {
        let plain: String = s.chars().filter(|c| *c != '_').collect();
        return Want::Float(plain.parse::<f64>().unwrap().to_bits());
    }
    Want::Reject
}

fn look(src: &str, v: TomlVersion, path: &[&str]) -> (Option<Value>, usize) {
    let (root, perr) = tombi_parser::parse(src).into_root_and_errors();
    let (tree, terr) = root.into_document_tree_and_errors(v).into();
    let mut cur = tree.get("k").cloned();
    for p in path {
        cur = match cur {
            Some(Value::Array(a)) if *p == "0" => a.values().first().cloned(),
            Some(Value::Table(t)) => t.get(*p).cloned(),
            _ => None,
        };
    }
    (cur, perr.len() + terr.len())
}

fn check(s: &str) -> Result<(), String> {
    // anything that is not made of word characters is another kind of value
    if s.is_empty() || !s.chars().all(|c| c.is_ascii_alphanumeric() || "+-_.".contains(c)) {
        return Ok(());
    }
    let w = want(s);
    // dates and times are C07's
    let b = s.as_bytes();
    if (b.len() >= 5 && b[4] == b'-' && b[..4].iter().all(u8::is_ascii_digit)) && w == Want::Reject {
        return Ok(());
    }
    for (src, path) in [(format!("k = {s}\n"), &[][..]), (format!("k = {s}"), &[]), (format!("k = [{s},{s}]"), &["0"]), (format!("k={{a={s}}}#c"), &["a"])] {
        for v in [TomlVersion::V1_0_0, TomlVersion::V1_1_0_Preview] {
            let (got, errs) = look(&src, v, path);
            let bad = |m: &str| Err(format!("{m}: {src:?} gives {got:?} with {errs} errors, the grammar says {w:?}"));
            match (&w, &got) {
                (Want::Reject, _) => {
                    if errs == 0 {
                        return bad("accepted");
                    }
                }
                (Want::Range, Some(Value::Integer(_))) => return bad("out of range"),
                (Want::Range, _) => {
                    if errs == 0 {
                        return bad("out of range");
                    }
                }
                _ if errs > 0 => return bad("rejected"),
                (Want::Int(k, n), Some(Value::Integer(i))) if i.value() == *n && i.kind() == *k => {}
                (Want::Float(x), Some(Value::Float(f))) if f.value().to_bits() == *x || (f.value().is_nan() && f64::from_bits(*x).is_nan()) => {}
                (Want::Bool(x), Some(Value::Boolean(b))) if b.value() == *x => {}
                _ => return bad("wrong value"),
            }
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args();
    let mut f = strs(&["0", "1", "7", "9", "_", "+", "-", ".", "e", "E", "0x", "0o", "0b", "a", "F", "inf", "nan", "x", "00", "12", "true", "false", "2", "8"]);
    for d in ctx.dict.clone() {
        if d.chars().all(|c| c.is_ascii_alphanumeric() || "+-_.".contains(c)) && !f.contains(&d) {
            f.push(d);
        }
    }
    ctx.generate = Some(Box::new(|r| {
        fn grp(r: &mut Rng, radix: u32, long: usize) -> String {
            let mut s = String::new();
            for k in 0..1 + r.below(long) {
                if k > 0 && r.below(3) == 0 {
                    s.push('_');
                }
                let c = char::from_digit(r.below(radix as usize) as u32, radix).unwrap();
                s.push(if r.below(2) == 0 { c.to_ascii_uppercase() } else { c });
            }
            if r.below(12) == 0 {
                let at = r.below(s.len() + 1);
                s.insert(at, '_');
            }
            s
        }
        let n = match r.below(4) {
            0 => {
                let (p, x) = [("0x", 16), ("0o", 8), ("0b", 2)][r.below(3)];
                let l = [3, 20, 70][r.below(3)];
                format!("{p}{}", grp(r, x, l))
            }
            1 => grp(r, 10, 21),
            2 => {
                // around the ends of i64
                let v = (i64::MAX as i128) + 1 - r.below(3) as i128;
                let b: String = match r.below(4) {
                    0 => return format!("0x{v:x}"),
                    1 => return format!("0o{v:o}"),
                    2 => return format!("0b{v:b}"),
                    _ => v.to_string(),
                };
                let at = 1 + r.below(b.len() - 1);
                format!("{}_{}", &b[..at], &b[at..])
            }
            _ => {
                let mut s = grp(r, 10, 3);
                let k = r.below(3);
                if k != 0 {
                    s.push('.');
                    s.push_str(&grp(r, 10, 3));
                }
                if k != 1 {
                    s.push_str(["e", "E"][r.below(2)]);
                    s.push_str(["", "+", "-"][r.below(3)]);
                    s.push_str(&grp(r, 10, 3));
                }
                s
            }
        };
        format!("{}{n}", ["", "+", "-", "", "+-", "_", "0"][r.below(7)])
    }));
    each_string(&mut ctx, &f, 5, 12, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
