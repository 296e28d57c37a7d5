//! Random TOML text.
use crate::Rng;

/// Random TOML documents: every kind of value, nesting, comments in every place, odd spacing.
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub k: usize,
    pub ml: bool,
    pub com: bool,
}
impl G<'_> {
    pub fn n(&mut self, k: usize) -> usize {
        self.r.below(k)
    }
    pub fn p(&mut self, v: &[&str]) -> String {
        v[self.r.below(v.len())].to_string()
    }
    pub fn key1(&mut self) -> String {
        self.k += 1;
        let k = self.k;
        match self.n(8) {
            0 => format!("\"k {k}\""),
            1 => format!("'k\\{k}'"),
            2 => format!("\"k'{k}\""),
            3 => format!("'k\"{k}'"),
            4 => format!("\"k\\u0041{k}\""),
            5 => format!("'あ{k}'"),
            _ => format!("k{k}"),
        }
    }
    pub fn key(&mut self) -> String {
        let mut s = self.key1();
        while self.n(4) == 0 {
            s += &self.p(&[".", " . ", "."]);
            s += &self.key1();
        }
        s
    }
    pub fn sp(&mut self) -> String {
        self.p(&["", " ", "  ", "\t"])
    }
    pub fn comment(&mut self) -> String {
        if !self.com {
            return String::new();
        }
        self.p(&["#", "# c", "#c", "##  d", "#!x", "#\t\ty", "#   z  ", "# tombi: format.rules", "#: q", "#あ", " # e", "#! s", "###", "#\u{a0}n", "# t\t", "#:tombi x = 1"])
    }
    pub fn nl(&mut self) -> String {
        let mut s = String::new();
        if self.n(4) == 0 {
            s += &self.sp();
            s += &self.comment();
        }
        s.push('\n');
        while self.n(4) == 0 {
            s += &self.sp();
            if self.n(2) == 0 {
                s += &self.comment();
            }
            s.push('\n');
        }
        s + &self.sp()
    }
    pub fn gap(&mut self) -> String {
        if self.n(6) == 0 && self.ml { self.nl() } else { self.sp() }
    }
    pub fn agap(&mut self) -> String {
        if self.n(5) == 0 { self.nl() } else { self.sp() }
    }
    pub fn val(&mut self, d: usize) -> String {
        match self.n(if d < 4 { 14 } else { 11 }) {
            0 => self.p(&["1", "0x1F", "0b1", "0o7", "-5", "+6", "1_000"]),
            1 => self.p(&["1.5", "1e3", "inf", "-nan", "0.0", "-0.0"]),
            2 => self.p(&["true", "false"]),
            3 => self.p(&["1979-05-27T07:32:00Z", "1979-05-27 07:32:00Z", "1979-05-27t07:32:00-08:00", "1979-05-27 07:32", "1979-05-27T07:32:00.5"]),
            4 => self.p(&["1979-05-27", "07:32:00", "07:32", "07:32:00.999999999999"]),
            5..=7 => self.p(&["\"a\"", "\"\"", "\"it's\"", "\"a\\nb\"", "\"\\\\\"", "\"あ\"", "\"e\u{301}\"", "\"\\\"\"", "\"a\tb\""]),
            8 | 9 => self.p(&["'a'", "''", "'\"'", "'\\'", "'a\\nb'", "'あ'", "'a\tb'"]),
            10 => self.p(&["\"\"\"a\nb\"\"\"", "'''a\n\n b'''", "\"\"\"\"\"\"", "'''\n'''", "\"\"\"\n  x \\\n   y\"\"\"", "'''it''s'''", "\"\"\"\r\na\r\nb\"\"\""]),
            11 | 12 => {
                let mut s = "[".to_string();
                let n = self.n(4);
                for i in 0..n {
                    s += &self.agap();
                    s += &self.val(d + 1);
                    s += &self.agap();
                    if i + 1 < n || self.n(3) == 0 {
                        s.push(',');
                    }
                }
                s + &self.agap() + "]"
            }
            _ => {
                let mut s = "{".to_string();
                let n = self.n(4);
                for i in 0..n {
                    s += &self.gap();
                    s += &self.key();
                    s += &self.sp();
                    s.push('=');
                    s += &self.sp();
                    s += &self.val(d + 1);
                    s += &self.gap();
                    if i + 1 < n || (self.ml && self.n(3) == 0) {
                        s.push(',');
                    }
                }
                s + &self.gap() + "}"
            }
        }
    }
    pub fn doc(&mut self) -> String {
        let n = self.n(6);
        let mut s = String::new();
        if self.n(3) == 0 {
            s += &self.nl();
        }
        for _ in 0..n {
            s += &self.sp();
            s += &match self.n(6) {
                0 => format!("[{}]", self.key()),
                1 => format!("[[{}]]", self.key()),
                2 => self.comment(),
                _ => self.key() + &self.sp() + "=" + &self.sp() + &self.val(0),
            };
            s += &self.nl();
        }
        s
    }
}
