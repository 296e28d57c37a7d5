//! C01: tokens tile the text, carry the right positions, and are what the TOML grammar makes of their text.
use tombi_lexer::lex;
use tombi_syntax::SyntaxKind::{self, *};
use wit::*;

fn sep(c: Option<&char>) -> bool {
    match c {
        None => true,
        Some(c) => "{}[],= \t\r\n#\0".contains(*c),
    }
}
fn sepdot(c: Option<&char>) -> bool {
    c == Some(&'.') || sep(c)
}
fn key_char(c: char) -> bool {
    let u = c as u32;
    c.is_ascii_alphanumeric()
        || "_-${}".contains(c)
        || matches!(u, 0xB2 | 0xB3 | 0xB9 | 0xBC..=0xBE | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x37D | 0x37F..=0x1FFF
            | 0x200C..=0x200D | 0x203F..=0x2040 | 0x2070..=0x218F | 0x2460..=0x24FF | 0x2C00..=0x2FEF | 0x3001..=0xD7FF
            | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
/// number of digits d at i, exactly n
fn dg(s: &[char], i: usize, n: usize) -> bool {
    s.len() >= i + n && s[i..i + n].iter().all(|c| c.is_ascii_digit())
}
fn ch(s: &[char], i: usize, c: &str) -> bool {
    s.get(i).is_some_and(|x| c.contains(*x))
}
fn date(s: &[char]) -> Option<usize> {
    (dg(s, 0, 4) && ch(s, 4, "-") && dg(s, 5, 2) && ch(s, 7, "-") && dg(s, 8, 2)).then_some(10)
}
fn time(s: &[char], i: usize) -> Option<usize> {
    if !(dg(s, i, 2) && ch(s, i + 2, ":") && dg(s, i + 3, 2)) {
        return None;
    }
    let mut j = i + 5;
    if ch(s, j, ":") && dg(s, j + 1, 2) {
        j += 3;
    }
    if ch(s, j, ".") && dg(s, j + 1, 1) {
        j += 1;
        while dg(s, j, 1) {
            j += 1;
        }
    }
    Some(j)
}
fn offset(s: &[char], i: usize) -> Option<usize> {
    if ch(s, i, "Zz") {
        return Some(i + 1);
    }
    (ch(s, i, "+-") && dg(s, i + 1, 2) && ch(s, i + 3, ":") && dg(s, i + 4, 2)).then_some(i + 6)
}
/// digits separated by single underscores
fn digs(s: &[char], radix: u32) -> bool {
    let mut last = false;
    for &c in s {
        if c == '_' {
            if !last {
                return false;
            }
            last = false;
        } else if c.to_digit(radix).is_some() {
            last = true;
        } else {
            return false;
        }
    }
    last
}
/// the kind of an unsigned number text, strictly by the grammar
fn number(s: &[char]) -> Option<SyntaxKind> {
    let dec = |s: &[char]| digs(s, 10) && (s[0] != '0' || s.len() == 1);
    if dec(s) {
        return Some(INTEGER_DEC);
    }
    if s.len() > 2 && s[0] == '0' {
        match s[1] {
            'x' if digs(&s[2..], 16) => return Some(INTEGER_HEX),
            'o' if digs(&s[2..], 8) => return Some(INTEGER_OCT),
            'b' if digs(&s[2..], 2) => return Some(INTEGER_BIN),
            _ => {}
        }
    }
    let e = s.iter().position(|c| matches!(c, 'e' | 'E'));
    let (m, ex) = match e {
        Some(e) => (&s[..e], Some(&s[e + 1..])),
        None => (s, None),
    };
    let (i, f) = match m.iter().position(|c| *c == '.') {
        Some(p) => (&m[..p], Some(&m[p + 1..])),
        None => (m, None),
    };
    let exok = ex.is_none_or(|x| digs(if ch(x, 0, "+-") { &x[1..] } else { x }, 10));
    if dec(i) && f.is_none_or(|f| digs(f, 10)) && exok && (f.is_some() || ex.is_some()) {
        return Some(FLOAT);
    }
    None
}
/// loose shape of FLOAT texts: underscores and leading zeros are judged later
fn loose_float(s: &[char]) -> bool {
    let t: String = s.iter().collect();
    let t = t.trim_start_matches(['+', '-']);
    t == "inf" || t == "nan" || number(&t.replace('_', "").trim_start_matches('0').chars().collect::<Vec<_>>()).is_some() || t.chars().all(|c| c.is_ascii_digit() || "_.eE+-".contains(c))
}
/// the one token the TOML grammar allows at s, and its length in characters
fn expected(s: &[char]) -> Option<(SyntaxKind, usize)> {
    let c = s[0];
    let run = |p: &dyn Fn(char) -> bool| s.iter().take_while(|c| p(**c)).count();
    Some(match c {
        ' ' | '\t' => (WHITESPACE, run(&|c| c == ' ' || c == '\t')),
        '\n' => (LINE_BREAK, 1),
        '\r' => return (s.get(1) == Some(&'\n')).then_some((LINE_BREAK, 2)),
        '#' => (COMMENT, run(&|c| c != '\n' && c != '\r')),
        '{' => (BRACE_START, 1),
        '}' => (BRACE_END, 1),
        '[' => (BRACKET_START, 1),
        ']' => (BRACKET_END, 1),
        ',' => (COMMA, 1),
        '.' => (DOT, 1),
        '=' => (EQUAL, 1),
        '"' | '\'' => {
            let three = |i: usize| s.len() >= i + 3 && s[i..i + 3].iter().all(|x| *x == c);
            let ml = three(0);
            let mut i = if ml { 3 } else { 1 };
            let start = i;
            loop {
                if i >= s.len() {
                    return None;
                }
                if !ml && matches!(s[i], '\n' | '\r') {
                    return None;
                }
                if c == '"' && s[i] == '\\' {
                    if !ml && s.get(i + 1).is_some_and(|c| matches!(c, '\n' | '\r')) {
                        return None;
                    }
                    i += 2;
                    continue;
                }
                if ml && three(i) {
                    let n = s[i..].iter().take_while(|x| **x == c).count();
                    if n > 5 {
                        return None;
                    }
                    i += n;
                    break;
                }
                if !ml && s[i] == c {
                    i += 1;
                    break;
                }
                i += 1;
            }
            let _ = start;
            (
                match (c, ml) {
                    ('"', false) => BASIC_STRING,
                    ('"', true) => MULTI_LINE_BASIC_STRING,
                    (_, false) => LITERAL_STRING,
                    _ => MULTI_LINE_LITERAL_STRING,
                },
                i,
            )
        }
        _ => {
            let w = s.iter().take_while(|c| !sep(Some(c))).count();
            let wd = s.iter().take_while(|c| !sepdot(Some(c))).count();
            if wd == 0 {
                return None;
            }
            if c.is_ascii_digit() {
                if let Some(d) = date(s) {
                    if ch(s, d, "Tt ") {
                        if let Some(t) = time(s, d + 1) {
                            if let Some(o) = offset(s, t) {
                                if sep(s.get(o)) {
                                    return Some((OFFSET_DATE_TIME, o));
                                }
                            } else if sep(s.get(t)) {
                                return Some((LOCAL_DATE_TIME, t));
                            }
                        }
                        if s[d] != ' ' {
                            return None;
                        }
                        // `2000-01-01 ` then something that is not a time
                        return if dg(s, d + 1, 2) { None } else { Some((LOCAL_DATE, d)) };
                    }
                    return sepdot(s.get(d)).then_some((LOCAL_DATE, d));
                }
                if let Some(t) = time(s, 0) {
                    return sep(s.get(t)).then_some((LOCAL_TIME, t));
                }
                if let Some(k) = number(&s[..w]) {
                    return Some((k, w));
                }
                if loose_float(&s[..w]) {
                    return None;
                }
            }
            let word: String = s[..wd].iter().collect();
            if matches!(word.as_str(), "inf" | "nan" | "+inf" | "+nan" | "-inf" | "-nan") {
                return Some((FLOAT, wd));
            }
            if matches!(word.as_str(), "true" | "false") {
                return Some((BOOLEAN, wd));
            }
            if c == '+' || c == '-' {
                if w > 1 && s[1].is_ascii_digit() {
                    match number(&s[1..w]) {
                        Some(k @ (INTEGER_DEC | FLOAT)) => return Some((k, w)),
                        Some(_) => return None,
                        None if c == '+' || loose_float(&s[1..w]) => return None,
                        None => {}
                    }
                }
                if c == '+' {
                    return None;
                }
            }
            // braces may be part of a key, for ${...} placeholders
            if s[..wd].iter().all(|c| c.is_ascii_alphanumeric() || "_-".contains(*c)) && !ch(s, wd, "{}") {
                return Some((BARE_KEY, wd));
            }
            return None;
        }
    })
}

fn check(text: &str) -> Result<(), String> {
    let l = lex(text);
    let s: Vec<char> = text.chars().collect();
    let mut at = 0usize; // characters
    let mut byte = 0usize;
    let (mut line, mut col) = (0u32, 0u32);
    let mut inval = vec![];
    let mut crlf = false;
    let n = l.tokens.len();
    if n == 0 || l.tokens[n - 1].kind() != EOF {
        return Err("the last token is not EOF".into());
    }
    for (i, t) in l.tokens.iter().enumerate() {
        let (sp, rg, k) = (t.span(), t.range(), t.kind());
        let (a, b) = (u32::from(sp.start) as usize, u32::from(sp.end) as usize);
        if a != byte {
            return Err(format!("token {i} ({k:?}) starts at byte {a}, the previous one ended at {byte}"));
        }
        if (rg.start.line, rg.start.column) != (line, col) {
            return Err(format!("token {i} ({k:?}) starts at {line}:{col} but its range says {:?}", rg.start));
        }
        if b > text.len() || b < a || !text.is_char_boundary(b) {
            return Err(format!("token {i} ({k:?}) ends at byte {b} of {}", text.len()));
        }
        let tx: Vec<char> = text[a..b].chars().collect();
        for c in &tx {
            if *c == '\n' {
                line += 1;
                col = 0;
            } else {
                col += 1;
            }
        }
        if (rg.end.line, rg.end.column) != (line, col) {
            return Err(format!("token {i} ({k:?}) ends at {line}:{col} but its range says {:?}", rg.end));
        }
        byte = b;
        if i + 1 == n {
            if a != text.len() || b != text.len() {
                return Err(format!("EOF spans {a}..{b} of {}", text.len()));
            }
            break;
        }
        if a == b || k == EOF {
            return Err(format!("token {i} ({k:?}) is empty"));
        }
        let st: String = tx.iter().collect();
        match expected(&s[at..]) {
            Some((ek, el)) => {
                if k != ek || el != tx.len() {
                    return Err(format!("at byte {a} the grammar has {ek:?} of {el} characters, got {k:?} {st:?}"));
                }
            }
            None => {
                let next = s.get(at + tx.len());
                let word_end = sepdot(next);
                let un: &[char] = if ch(&tx, 0, "+-") { &tx[1..] } else { &tx };
                let ok = match k {
                    INVALID_TOKEN => true,
                    // (the first character of a non-ASCII key is not judged by the lexer)
                    BARE_KEY => word_end && tx[1..].iter().all(|c| key_char(*c)) && (key_char(tx[0]) || tx[0] >= '\u{a0}'),
                    FLOAT => word_end && loose_float(&tx),
                    INTEGER_DEC | INTEGER_HEX | INTEGER_OCT | INTEGER_BIN => word_end && number(un) == Some(k),
                    LOCAL_DATE => date(&tx) == Some(tx.len()) && ch(&s, at + tx.len(), " "),
                    // the newline right after the opening quote is reported when the value is decoded
                    BASIC_STRING | LITERAL_STRING => {
                        let bad: Vec<usize> = (1..tx.len() - 1).filter(|i| matches!(tx[*i], '\n' | '\r')).collect();
                        !bad.is_empty() && bad.iter().all(|&i| i == 1 || bad.contains(&(i - 1)) || (k == BASIC_STRING && i >= 3 && ch(&tx, i - 1, "\"\\") && tx[i - 2] == '\\'))
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!("at byte {a}: {k:?} {st:?} is not a token of the grammar"));
                }
            }
        }
        if k == INVALID_TOKEN {
            inval.push((sp, rg));
        }
        if k == LINE_BREAK && tx.len() == 2 {
            crlf = true;
        }
        at += tx.len();
    }
    let errs: Vec<_> = l.errors.iter().map(|e| (e.span(), e.range())).collect();
    if errs != inval {
        return Err(format!("errors at {errs:?}, invalid tokens at {inval:?}"));
    }
    if (l.line_ending == tombi_text::LineEnding::Crlf) != crlf {
        return Err(format!("line ending {:?}", l.line_ending));
    }
    for i in 0..n - 1 {
        let j = l.is_joint(i);
        let want = i + 2 < n && l.tokens[i].kind() != WHITESPACE && l.tokens[i + 1].kind() != WHITESPACE;
        if j != want {
            return Err(format!("joint bit of token {i} is {j}, want {want}"));
        }
    }
    Ok(())
}

/// a value built after its grammar, with runs of any length, and sometimes one character changed
fn shaped(r: &mut Rng) -> String {
    fn run(r: &mut Rng, set: &str, under: bool) -> String {
        let set: Vec<char> = set.chars().collect();
        let n = 1 + if r.below(4) == 0 { r.below(40) } else { r.below(4) };
        let mut s = String::new();
        for i in 0..n {
            if under && i > 0 && r.below(5) == 0 {
                s.push('_');
            }
            s.push(set[r.below(set.len())]);
        }
        s
    }
    let two = |r: &mut Rng| format!("{:02}", r.below(70));
    let mut s = match r.below(5) {
        0 => {
            let mut s = if r.below(3) > 0 { format!("{:04}-{}-{}", r.below(10000), two(r), two(r)) } else { String::new() };
            if s.is_empty() || r.below(4) > 0 {
                if !s.is_empty() {
                    s.push_str(["T", "t", " "][r.below(3)]);
                }
                s += &format!("{}:{}", two(r), two(r));
                if r.below(3) > 0 {
                    s += &format!(":{}", two(r));
                }
                if r.below(2) == 0 {
                    s += &format!(".{}", run(r, "0123456789", false));
                }
                match r.below(4) {
                    0 => s.push_str(["Z", "z"][r.below(2)]),
                    1 => s += &format!("{}{}:{}", ["+", "-"][r.below(2)], two(r), two(r)),
                    _ => {}
                }
            }
            s
        }
        1 => {
            let (p, set) = [("0x", "0123456789abcdefABCDEF"), ("0o", "01234567"), ("0b", "01"), ("", "123456789"), ("-", "123456789")][r.below(5)];
            format!("{p}{}", run(r, set, true))
        }
        2 => {
            let mut s = ["", "+", "-"][r.below(3)].to_string() + &run(r, "123456789", true);
            if r.below(3) > 0 {
                s += &format!(".{}", run(r, "0123456789", true));
            }
            if r.below(2) == 0 {
                s += &format!("{}{}{}", ["e", "E"][r.below(2)], ["", "+", "-"][r.below(3)], run(r, "0123456789", true));
            }
            s
        }
        3 => {
            let q = ["\"", "'", "\"\"\"", "'''"][r.below(4)];
            let parts = ["a", "\\", "\\\\", "\\\"", "\"", "\"\"", "'", "''", "\n", "\r\n", " ", "é", "\u{1F600}", "\\\n", "#"];
            let mut s = q.to_string();
            for _ in 0..if r.below(5) == 0 { r.below(90) } else { r.below(7) } {
                s.push_str(parts[r.below(parts.len())]);
            }
            s + q + ["", "", "\"", "'", "''", "\"\""][r.below(6)]
        }
        _ => {
            let k = run(r, "abcXYZ0123456789_-", false);
            if r.below(2) == 0 { format!("{k}.{}", run(r, "abc-_09", false)) } else { format!("{k} # {}\n", run(r, "aé\t\u{1F600}#", false)) }
        }
    };
    if r.below(4) == 0 && !s.is_empty() {
        let mut c: Vec<char> = s.chars().collect();
        let i = r.below(c.len());
        match r.below(3) {
            0 => {
                c.remove(i);
            }
            1 => c[i] = ['0', '_', '-', ':', ' ', '.', 'T', 'e', '9', '\\', '\n'][r.below(11)],
            _ => c.insert(i, ['0', '_', '-', ':', ' ', '.', 'Z', '+', '9', '"', '\''][r.below(11)]),
        }
        s = c.into_iter().collect();
    }
    s
}

fn main() {
    let mut ctx = Ctx::from_args();
    let mut f = strs(&[
        "\"", "\"\"\"", "'", "'''", "\\", "\\\"", "\n", "\r\n", "\r", " ", "\t", "#", "=", ".", ",", "[", "]", "{", "}", "a", "_", "-", "+", "0", "1", "0x", "0b1", "0o7", "e",
        "1.5", "inf", "nan", "true", "false", "2000-01-01", "T10:20:30", " 10:20", "Z", "+09:00", ".123", ":", "$", "|", "é", "\u{3042}", "\u{1F600}", "\u{301}", "\0", "\u{7f}", "\u{a0}", "key", "9_0", "E-3",
        "\u{2028}", "\u{85}", "?",
    ]);
    for d in ctx.dict.clone() {
        if d.len() <= 4 && !f.contains(&d) {
            f.push(d);
        }
    }
    ctx.generate = Some(Box::new(|r| {
        let w: &[&str] = match r.below(3) {
            0 => &["1", "0", "_", ".", "e", "E", "+", "-", "x", "o", "b", "7", "9", "f", "F", ":", "|", "23", "00"],
            1 => &["1987", "-", "07", "05", "T", "t", " ", ":", "17", "45", ".", "5", ",", "123456789", "Z", "z", "+", "09", "00", "2000-02-30", "12:34", "x"],
            _ => &["\"", "\"\"", "\"\"\"", "\\", "\\\\", "\\\"", "'", "''", "'''", "a", "\n", "\r\n", " ", "é"],
        };
        let mut s = String::new();
        if r.below(2) == 0 {
            s.push_str(["k=", "[", "a.", "x = [ "][r.below(4)]);
        }
        if r.below(3) == 0 {
            s += &shaped(r);
        } else {
            for _ in 0..1 + r.below(9) {
                s.push_str(w[r.below(w.len())]);
            }
        }
        if r.below(2) == 0 {
            s.push_str(["\n", " ", ",", ".a", " # c", "]", "}", "\r\n"][r.below(8)]);
        }
        s
    }));
    // jointness uses 64-bit words: long token sequences
    if ctx.replay.is_none() {
        for k in [63usize, 64, 65, 127, 128, 129, 200] {
            for t in ["[", "a.", "a ", "\n", "é\r\n", "1 ,"] {
                let s = t.repeat(k);
                ctx.case(&s, || check(&s));
            }
        }
    }
    each_string(&mut ctx, &f, 3, 24, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
