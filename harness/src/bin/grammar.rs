//! C14: a document is read without a syntax error exactly when its tokens follow the grammar of TOML.
use tombi_parser::SyntaxKind::{self, *};
use wit::*;

/// the recogniser: kinds with blanks left out, and whether each touches the next
struct Rec {
    k: Vec<(SyntaxKind, bool)>,
}
const DEEPEST: usize = 128;
impl Rec {
    fn new(text: &str) -> Option<Rec> {
        let l = tombi_lexer::lex(text);
        if !l.errors.is_empty() {
            return None;
        }
        let mut k = vec![];
        for (i, t) in l.tokens.iter().enumerate() {
            if t.kind() != WHITESPACE {
                k.push((t.kind(), l.tokens.get(i + 1).is_some_and(|n| n.kind() != WHITESPACE)));
            }
        }
        Some(Rec { k })
    }
    fn at(&self, i: usize) -> SyntaxKind {
        self.k.get(i).map_or(EOF, |x| x.0)
    }
    fn skip(&self, mut i: usize) -> usize {
        while matches!(self.at(i), COMMENT | LINE_BREAK) {
            i += 1;
        }
        i
    }
    fn trail(&self, i: usize) -> usize {
        if self.at(i) == COMMENT { i + 1 } else { i }
    }
    fn ends(&self, i: usize) -> bool {
        matches!(self.at(i), LINE_BREAK | EOF)
    }
    fn keys(&self, mut i: usize) -> Option<usize> {
        loop {
            if !matches!(self.at(i), BARE_KEY | BASIC_STRING | LITERAL_STRING | INTEGER_DEC | INTEGER_HEX | INTEGER_OCT | INTEGER_BIN | FLOAT | BOOLEAN | LOCAL_DATE) {
                return None;
            }
            i += 1;
            if self.at(i) != DOT {
                return Some(i);
            }
            i += 1;
        }
    }
    fn kv(&self, i: usize, d: usize) -> Option<usize> {
        let i = self.keys(i)?;
        if self.at(i) != EQUAL {
            return None;
        }
        self.value(i + 1, d)
    }
    fn value(&self, i: usize, d: usize) -> Option<usize> {
        let i = match self.at(i) {
            BASIC_STRING | MULTI_LINE_BASIC_STRING | LITERAL_STRING | MULTI_LINE_LITERAL_STRING | INTEGER_DEC | INTEGER_BIN | INTEGER_OCT | INTEGER_HEX | FLOAT | BOOLEAN
            | OFFSET_DATE_TIME | LOCAL_DATE_TIME | LOCAL_DATE | LOCAL_TIME => i + 1,
            BRACKET_START if d < DEEPEST => self.items(i + 1, d + 1, BRACKET_END)?,
            BRACE_START if d < DEEPEST => self.items(i + 1, d + 1, BRACE_END)?,
            _ => return None,
        };
        Some(self.trail(i))
    }
    fn items(&self, mut i: usize, d: usize, end: SyntaxKind) -> Option<usize> {
        loop {
            i = self.skip(i);
            if self.at(i) == end {
                return Some(i + 1);
            }
            i = self.skip(if end == BRACKET_END { self.value(i, d)? } else { self.kv(i, d)? });
            if self.at(i) == COMMA {
                i += 1; // a comma left out is let through
            }
        }
    }
    fn lead(&self, mut i: usize) -> usize {
        loop {
            if self.at(i) == LINE_BREAK {
                i += 1;
            } else if self.at(i) == COMMENT && self.at(i + 1) == LINE_BREAK && self.at(i + 2) != LINE_BREAK {
                i += 2;
            } else {
                return i;
            }
        }
    }
    fn doc(&self) -> bool {
        let mut i = 0;
        loop {
            i = self.skip(i);
            let next = match self.at(i) {
                EOF => return true,
                BRACKET_START => {
                    let double = self.at(i + 1) == BRACKET_START && self.k[i].1;
                    let w = if double { 2 } else { 1 };
                    let Some(e) = self.keys(i + w) else { return false };
                    if self.at(e) != BRACKET_END || double && !(self.at(e + 1) == BRACKET_END && self.k[e].1) {
                        return false;
                    }
                    Some(self.trail(e + w))
                }
                _ => self.kv(i, 0).map(|e| {
                    let j = self.lead(e);
                    if self.at(j) == COMMA { self.trail(j + 1) } else { e }
                }),
            };
            match next {
                Some(e) if self.ends(e) => i = e,
                _ => return false,
            }
        }
    }
}

fn check(text: &str) -> Result<(), String> {
    let Some(rec) = Rec::new(text) else { return Ok(()) };
    let want = rec.doc();
    let p = tombi_parser::parse(text);
    match (want, p.errors.is_empty()) {
        (true, false) => Err(format!("the tokens follow the grammar, yet {:?} is told", p.errors[0].kind())),
        (false, true) => Err("the tokens do not follow the grammar, yet no error is told".to_string()),
        _ => Ok(()),
    }
}

fn main() {
    let mut ctx = Ctx::from_args();
    let f = strs(&[
        "a", "=", "1", "[", "]", "{", "}", ",", ".", "\n", " ", "#c", "\"s\"", "\r\n", "1.5", "true", "2000-01-01", "12:00", "a = 1\n", "# x\n", "a.b", "[a]\n", "[[a]]\n", "a = [", "a = {", "b=2", "0xA", "'''m'''",
    ]);
    ctx.generate = Some(Box::new(|r| {
        let mut s = {
            let mut g = tomlgen::G { k: 0, ml: true, com: true, r: &mut *r };
            g.doc()
        };
        // most often one thing is taken out, put in or doubled
        let bits = ["", "", "\n", "# c\n", "\n# c\n\n", ",", "=", ".", "[", "]", "{", "}", "1", "a", " ", "# t\n\n# u\n", "a=1", "\n\n", "[x]\n"];
        for _ in 0..r.below(3) {
            let ends: Vec<usize> = (0..=s.len()).filter(|&i| s.is_char_boundary(i)).collect();
            let i = ends[r.below(ends.len())];
            if r.below(3) == 0 && i < s.len() {
                s.remove(i);
            } else {
                s.insert_str(i, bits[r.below(bits.len())]);
            }
        }
        s
    }));
    if ctx.replay.is_none() {
        for n in [1usize, 2, 63, 64, 126, 127, 128, 129, 130, 200] {
            for (o, c) in [("[", "]"), ("{a=", "}"), ("[{a=", "}]"), ("[\n# c\n", "\n]"), ("{ a = [", "]}"), ("[1,", "]")] {
                for (pre, post) in [("x = ", ""), ("x = ", "\ny = 2\n")] {
                    for core in ["", "1"] {
                        let s = format!("{pre}{}{core}{}{post}", o.repeat(n), c.repeat(n));
                        ctx.case(&s, || check(&s));
                    }
                }
            }
        }
        // every separator at every pair of token boundaries of small documents, and each token left out
        let docs: [&[&str]; 12] = [
            &["[", "[", "a", ".", "b", "]", "]", "\n", "c", "=", "1"],
            &["[", "a", ".", "1.5", "]", "#t"],
            &["a", ".", "b", "=", "1", "\n", "c", "=", "2"],
            &["1.5", ".", "'k'", "=", "[", "1", ",", "[", "2", "]", ",", "]"],
            &["a", "=", "{", "b", ".", "c", "=", "1", ",", "d", "=", "{", "}", "}"],
            &["#c", "\n", "a", "=", "[", "#d", "\n", "1", ",", "#e", "\n", "#f", "\n", "]", "#g"],
            &["#c", "\n", "\n", "#d", "\n", "[", "[", "x", "]", "]", "#t", "\n", "k", "=", "\"v\""],
            &["a", "=", "[", "{", "b", "=", "1", "}", ",", "{", "}", "]", "\n", "c", "=", "2"],
            &["a", "=", "[", "\n", "#c", "\n", "{", "\n", "#d", "\n", "b", "=", "\"x\"", ",", "}", "\n", "]"],
            &["a", "=", "{", "#c", "\n", "\n", "#d", "\n", "b", "=", "1", "#e", "\n", ",", "\n", "#f", "\n", "}"],
            &["a", "=", "[", "1", "#c", "\n", "\n", ",", "2", "\n", "#d", "\n", "\n", "]"],
            &["[", "a", "]", "\n", "b", "=", "1", "\n", "#c", "\n", "\n", "[", "d", "]", "\n", "e", "=", "2"],
        ];
        let spell = |parts: Vec<&str>| {
            let mut s = String::new();
            for p in parts {
                if s.ends_with(|c: char| c.is_alphanumeric() || c == '\'' || c == '"') && p.starts_with(|c: char| c.is_alphanumeric() || c == '\'' || c == '"') {
                    s.push(' ');
                }
                s.push_str(p);
            }
            s
        };
        for d in docs {
            for sep in ["\n", "\n\n", "#x\n", "\n#x\n", "#x\n\n", "\n#x\n\n#y\n", ",", ".", "=", "[", "]", "{", "}", "1.5", "a", " ", "\r\n"] {
                for i in 0..=d.len() {
                    for j in i..=d.len() {
                        for drop in [usize::MAX, i, j] {
                            let mut v = vec![];
                            for k in 0..=d.len() {
                                if k == i || k == j {
                                    v.push(sep);
                                }
                                if k < d.len() && k != drop {
                                    v.push(d[k]);
                                }
                            }
                            let s = spell(v);
                            ctx.case(&s, || check(&s));
                        }
                    }
                }
            }
            if !ctx.time_left() {
                break;
            }
        }
    }
    each_string(&mut ctx, &f, 4, 30, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
