//! C04 / C05: string decoding and encoding against the TOML string grammar.
use tombi_toml_text::*;
use tombi_toml_version::TomlVersion;
use wit::*;

fn bad_control(c: char) -> bool {
    (c as u32 <= 0x1f && c != '\t') || c as u32 == 0x7f
}
fn dec(s: &[char], v11: bool, ml: bool) -> Option<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c == '\\' {
            let n = *s.get(i + 1)?;
            let hex = |k: usize| -> Option<char> {
                let d = s.get(i + 2..i + 2 + k)?;
                let mut v = 0u64;
                for c in d {
                    v = v * 16 + c.to_digit(16)? as u64;
                }
                char::from_u32(u32::try_from(v).ok()?)
            };
            match n {
                'b' => o.push('\u{8}'),
                't' => o.push('\t'),
                'n' => o.push('\n'),
                'f' => o.push('\u{c}'),
                'r' => o.push('\r'),
                '"' => o.push('"'),
                '\\' => o.push('\\'),
                'e' if v11 => o.push('\u{1b}'),
                'x' if v11 => {
                    o.push(hex(2)?);
                    i += 2;
                }
                'u' => {
                    o.push(hex(4)?);
                    i += 4;
                }
                'U' => {
                    o.push(hex(8)?);
                    i += 8;
                }
                _ if ml => {
                    let mut j = i + 1;
                    let mut nl = false;
                    loop {
                        match s.get(j) {
                            Some(' ' | '\t') => j += 1,
                            Some('\n') => {
                                nl = true;
                                j += 1
                            }
                            Some('\r') if s.get(j + 1) == Some(&'\n') => {
                                nl = true;
                                j += 2
                            }
                            _ => break,
                        }
                    }
                    if !nl {
                        return None;
                    }
                    i = j;
                    continue;
                }
                _ => return None,
            }
            i += 2;
        } else if ml && c == '\n' {
            o.push(c);
            i += 1;
        } else if ml && c == '\r' {
            if s.get(i + 1) != Some(&'\n') {
                return None;
            }
            o.push_str("\r\n");
            i += 2;
        } else if bad_control(c) {
            return None;
        } else {
            o.push(c);
            i += 1;
        }
    }
    Some(o)
}
fn declit(s: &[char], ml: bool) -> Option<String> {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if ml && c == '\r' {
            if s.get(i + 1) != Some(&'\n') {
                return None;
            }
            o.push_str("\r\n");
            i += 2;
            continue;
        }
        if bad_control(c) && !(ml && c == '\n') {
            return None;
        }
        o.push(c);
        i += 1;
    }
    Some(o)
}
fn trim1(s: &[char]) -> &[char] {
    match s {
        ['\n', r @ ..] => r,
        ['\r', '\n', r @ ..] => r,
        _ => s,
    }
}
fn cmp(what: &str, got: Result<String, ParseError>, want: Option<String>) -> Result<(), String> {
    if got.as_ref().ok() == want.as_ref() {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, TOML says {want:?}"))
    }
}
fn check_decode(s: &str) -> Result<(), String> {
    let c: Vec<char> = s.chars().collect();
    for (v, v11) in [(TomlVersion::V1_0_0, false), (TomlVersion::V1_1_0, true)] {
        for ml in [false, true] {
            cmp(&format!("parse_basic_string({v}, multi_line={ml})"), parse_basic_string(s, v, ml), dec(&c, v11, ml))?;
        }
        cmp(&format!("basic string {v}"), try_from_basic_string(&format!("\"{s}\""), v), dec(&c, v11, false))?;
        cmp(&format!("multi-line basic string {v}"), try_from_multi_line_basic_string(&format!("\"\"\"{s}\"\"\""), v), dec(trim1(&c), v11, true))?;
    }
    for ml in [false, true] {
        cmp("parse_literal_string", parse_literal_string(s, ml), declit(&c, ml))?;
    }
    cmp("literal string", try_from_literal_string(&format!("'{s}'")), declit(&c, false))?;
    cmp("multi-line literal string", try_from_multi_line_literal_string(&format!("'''{s}'''")), declit(trim1(&c), true))?;
    let bare = c.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.'));
    let got = try_from_bare_key(s).ok();
    if got != bare.then(|| s.to_string()) {
        return Err(format!("bare key: got {got:?}"));
    }
    Ok(())
}
/// what the encoders' output means when it stands where a TOML value stands
fn meaning(t: &str, v11: bool) -> Option<String> {
    let c: Vec<char> = t.chars().collect();
    let n = c.len();
    let q = |k: usize, q: char| n >= 2 * k && c[..k].iter().all(|x| *x == q) && c[n - k..].iter().all(|x| *x == q);
    if q(3, '"') && n >= 6 {
        let b = &c[3..n - 3];
        if b.windows(3).any(|w| w == ['"', '"', '"']) || b.last() == Some(&'\\') || b.last() == Some(&'"') {
            return None;
        }
        return dec(trim1(b), v11, true);
    }
    if q(3, '\'') && n >= 6 {
        let b = &c[3..n - 3];
        if b.contains(&'\'') {
            return None;
        }
        return declit(trim1(b), true);
    }
    if q(1, '"') {
        let b = &c[1..n - 1];
        let mut i = 0;
        while i < b.len() {
            if b[i] == '\\' {
                i += 1;
                if i >= b.len() {
                    return None;
                }
            } else if b[i] == '"' {
                return None;
            }
            i += 1;
        }
        return dec(b, v11, false);
    }
    if q(1, '\'') {
        let b = &c[1..n - 1];
        if b.contains(&'\'') {
            return None;
        }
        return declit(b, false);
    }
    None
}
fn check_encode(s: &str) -> Result<(), String> {
    for (v, v11) in [(TomlVersion::V1_0_0, false), (TomlVersion::V1_1_0, true)] {
        for (name, e) in [("to_basic_string", to_basic_string(s)), ("to_literal_string", to_literal_string(s)), ("to_multi_line_basic_string", to_multi_line_basic_string(s)), ("to_multi_line_literal_string", to_multi_line_literal_string(s))] {
            let m = meaning(&e, v11);
            if m.as_deref() != Some(s) {
                return Err(format!("{name}: wrote {e:?}, which means {m:?} in {v}"));
            }
            let back = if e.starts_with("\"\"\"") && e.len() >= 6 {
                try_from_multi_line_basic_string(&e, v)
            } else if e.starts_with("'''") && e.len() >= 6 {
                try_from_multi_line_literal_string(&e)
            } else if e.starts_with('"') {
                try_from_basic_string(&e, v)
            } else {
                try_from_literal_string(&e)
            };
            if back.as_deref().ok() != Some(s) {
                return Err(format!("{name}: wrote {e:?}, read back as {back:?} in {v}"));
            }
        }
        let k = to_key_string(s);
        let placeholder = s.starts_with("${") && s.ends_with('}');
        let bare = !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-'));
        if !(k == s && (placeholder || bare)) && meaning(&k, v11).as_deref() != Some(s) {
            return Err(format!("to_key_string: wrote {k:?} in {v}"));
        }
        if bare && k == s && try_from_bare_key(&k).ok().as_deref() != Some(s) {
            return Err(format!("to_key_string: bare key {k:?} is not read back"));
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args();
    let dec = ctx.prop == "C04";
    let f = if dec { check_decode } else { check_encode };
    let mut frags = strs(&[
        "\\", "\"", "'", "b", "e", "t", "n", "f", "r", "u", "U", "x", " ", "\t", "\n", "\r", "\r\n", "0", "0041", "00000041", "+041", "-041", "D800", "DFFF", "0010FFFF", "00110000",
        "FFFFFFFF", "e9", "G", "a", ".", "-", "+", "$", "{", "}", "\u{0}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{2028}", "\u{3000}", "\u{b}", "\u{c}", "\u{1b}", "\u{7}", "\u{8}", "é", "😀", "\\\n", "\\u", "\\x",
        "\"\"\"", "'''", "${", "\u{feff}",
    ]);
    for d in ctx.dict.clone() {
        if !frags.contains(&d) {
            frags.push(d);
        }
    }
    if ctx.replay.is_none() {
        for c in all_chars() {
            for s in [format!("{c}"), format!("\\{c}"), format!("a{c}b"), format!("\\u{c}041")] {
                if !dec && s.starts_with('\\') {
                    continue;
                }
                ctx.case(&s, || f(&s));
            }
            if !ctx.time_left() {
                break;
            }
        }
        ctx.note("exhaustive_chars", "every Unicode scalar value alone, after a backslash, inside text and inside an escape".into());
    }
    if dec {
        // numeric escapes of every magnitude and digit count
        ctx.generate = Some(Box::new(|r| {
            let n = [2, 4, 8][r.below(3)];
            let v = (r.next() as u32) >> r.below(32);
            let mut d = if r.below(2) == 0 { format!("{v:08x}") } else { format!("{v:08X}") };
            d = d[8 - n..].to_string();
            match r.below(8) {
                0 => {
                    // one digit replaced by anything
                    let k = r.below(n);
                    let x = ["G", "-", "+", " ", "_", "\u{e9}", "\"", "\\", "F", "0", "\u{ff11}"][r.below(11)];
                    d.replace_range(k..k + 1, x);
                }
                1 => {
                    d.truncate(r.below(n));
                }
                2 => {
                    // low digits name a character, the rest is random
                    let k = r.below(n);
                    let low = [0x41u32, 0x1F600, 0xD7FF, 0xE000, 0x10FFFF, 0x22, 0x5C, 0xA][r.below(8)];
                    let l = format!("{low:08x}");
                    d.replace_range(k.., &l[8 - (n - k)..]);
                }
                _ => {}
            }
            format!("\\{}{d}", [["x", "u", "U"][(n as f64).log2() as usize - 1], "u", "U"][if r.below(6) == 0 { 1 + r.below(2) } else { 0 }])
        }));
    }
    each_string(&mut ctx, &frags, 3, 14, |ctx, s| ctx.case(s, || f(s)));
    ctx.finish()
}
