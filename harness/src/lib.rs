//! Bounded stand-in / witness finder: runs an executable copy of the contract against the real crates.
pub mod tomlgen;
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub budget: Duration,
    pub start: Instant,
    pub dict: Vec<String>,
    pub ints: Vec<i128>,
    pub thorough: bool,
    pub replay: Option<String>,
    pub cases: u64,
    pub violations: Vec<(String, String)>,
    pub known: Vec<String>,
    pub max_viol: usize,
    pub trace: Option<String>,
    /// extra fragments made on the fly during the random phase
    pub generate: Option<Box<dyn Fn(&mut Rng) -> String>>,
    notes: Vec<(String, String)>,
}

fn unescape(lit: &str) -> Option<String> {
    // a Rust literal from the dictionary file (str / char)
    let l = lit.trim();
    if l.starts_with('r') || l.starts_with("br") {
        let a = l.find('"')?;
        let b = l.rfind('"')?;
        return Some(l[a + 1..b].to_string());
    }
    let l = l.trim_start_matches('b').trim_start_matches('c');
    if l.len() < 2 {
        return None;
    }
    let inner = &l[1..l.len() - 1];
    let mut out = String::new();
    let mut it = inner.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            '0' => out.push('\0'),
            'x' => {
                let h: String = (0..2).filter_map(|_| it.next()).collect();
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            'u' => {
                it.next();
                let mut h = String::new();
                for d in it.by_ref() {
                    if d == '}' {
                        break;
                    }
                    if d != '_' {
                        h.push(d);
                    }
                }
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            '\n' => {
                while it.peek().is_some_and(|c| c.is_whitespace()) {
                    it.next();
                }
            }
            c => out.push(c),
        }
    }
    Some(out)
}

impl Ctx {
    pub fn from_args() -> Ctx {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
        let mut dict = vec![];
        let mut ints = vec![];
        if let Some(f) = get("--dict") {
            for l in std::fs::read_to_string(f).unwrap_or_default().split('\0') {
                if let Some(r) = l.strip_prefix("num ") {
                    let d: String = r.chars().filter(|c| *c != '_').collect();
                    let v = if let Some(h) = d.strip_prefix("0x") {
                        i128::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                    } else {
                        let e = d.find(|c: char| !c.is_ascii_digit()).unwrap_or(d.len());
                        d[..e].parse().ok()
                    };
                    if let Some(v) = v {
                        if !ints.contains(&v) {
                            ints.push(v);
                        }
                    }
                } else if let Some(r) = l.strip_prefix("str ").or(l.strip_prefix("char ")) {
                    if let Some(s) = unescape(r) {
                        if s.len() <= 24 && !dict.contains(&s) && !s.is_empty() {
                            dict.push(s);
                        }
                    }
                }
            }
        }
        std::panic::set_hook(Box::new(|_| {}));
        Ctx {
            prop: get("--prop").unwrap_or_default(),
            seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            budget: Duration::from_millis(get("--budget-ms").and_then(|s| s.parse().ok()).unwrap_or(10_000)),
            start: Instant::now(),
            dict,
            ints,
            thorough: get("--tier").as_deref() == Some("thorough"),
            replay: get("--replay").map(|f| std::fs::read_to_string(f).expect("replay file")),
            cases: 0,
            violations: vec![],
            known: get("--known").map(|f| std::fs::read_to_string(f).unwrap_or_default().lines().map(str::to_string).collect()).unwrap_or_default(),
            max_viol: 8,
            trace: get("--trace"),
            generate: None,
            notes: vec![],
        }
    }
    pub fn rng(&self) -> Rng {
        Rng(self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5DEECE66D)
    }
    pub fn time_left(&self) -> bool {
        self.start.elapsed() < self.budget && self.violations.len() < self.max_viol
    }
    pub fn note(&mut self, k: &str, v: String) {
        self.notes.push((k.to_string(), v));
    }
    pub fn fail(&mut self, input: &str, what: String) {
        if self.violations.len() < self.max_viol && !self.violations.iter().any(|v| v.0 == input) {
            self.violations.push((input.to_string(), what));
        }
    }
    /// Runs `f`; `Err(why)` or a panic is a violation of the property on `input`.
    pub fn case(&mut self, input: &str, f: impl FnOnce() -> Result<(), String>) {
        self.cases += 1;
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, input);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.fail(input, e),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.fail(input, format!("panic: {m}"))
            }
        }
    }
    pub fn finish(self) -> ! {
        let mut o = std::io::stdout().lock();
        for (i, w) in &self.violations {
            let _ = writeln!(o, "WITNESS {}", json(&[("input", i), ("what", w)]));
        }
        let ms = self.start.elapsed().as_millis().to_string();
        let c = self.cases.to_string();
        let mut kv: Vec<(&str, &str)> = vec![("cases", &c), ("ms", &ms)];
        for (k, v) in &self.notes {
            kv.push((k, v));
        }
        let _ = writeln!(o, "STATS {}", json(&kv));
        let _ = o.flush();
        std::process::exit(0)
    }
}

pub fn json(kv: &[(&str, &str)]) -> String {
    let mut s = String::from("{");
    for (n, (k, v)) in kv.iter().enumerate() {
        if n > 0 {
            s.push(',');
        }
        s.push_str(&jstr(k));
        s.push(':');
        s.push_str(&jstr(v));
    }
    s.push('}');
    s
}
pub fn jstr(v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        match c {
            '"' => s.push_str("\\\""),
            '\\' => s.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => s.push_str(&format!("\\u{:04x}", c as u32)),
            c => s.push(c),
        }
    }
    s.push('"');
    s
}

/// All concatenations of up to `k` fragments, then random longer ones while the budget lasts.
pub fn each_string(ctx: &mut Ctx, frags: &[String], k: usize, maxlen: usize, mut f: impl FnMut(&mut Ctx, &str)) {
    if let Some(r) = ctx.replay.clone() {
        f(ctx, &r);
        return;
    }
    f(ctx, "");
    let generate = ctx.generate.take();
    if let Some(g) = &generate {
        let mut rng = ctx.rng();
        for _ in 0..40_000 {
            let s = g(&mut rng);
            f(ctx, &s);
            if !ctx.time_left() {
                break;
            }
        }
    }
    let n = frags.len();
    let mut depth_done = 0;
    let half = ctx.start + ctx.budget * 6 / 10;
    'o: for d in 1..=k {
        let mut ix = vec![0usize; d];
        loop {
            let s: String = ix.iter().map(|&i| frags[i].as_str()).collect();
            f(ctx, &s);
            if ctx.cases % 64 == 0 && (Instant::now() > half || !ctx.time_left()) {
                break 'o;
            }
            let mut p = d;
            loop {
                if p == 0 {
                    break;
                }
                p -= 1;
                ix[p] += 1;
                if ix[p] < n {
                    break;
                }
                ix[p] = 0;
                if p == 0 {
                    p = usize::MAX;
                    break;
                }
            }
            if p == usize::MAX {
                break;
            }
        }
        depth_done = d;
    }
    ctx.note("exhaustive_fragments", format!("all concatenations of up to {depth_done} of {n} fragments"));
    let mut rng = ctx.rng();
    let mut random = 0u64;
    while ctx.time_left() {
        for _ in 0..64 {
            let l = 1 + rng.below(maxlen);
            let mut s = String::new();
            // a small sub-alphabet makes repetitions likely
            let sub: Vec<usize> = (0..1 + rng.below(6)).map(|_| rng.below(n)).collect();
            let mix = rng.below(3);
            for _ in 0..l {
                if let Some(g) = &generate {
                    if rng.below(4) == 0 {
                        s.push_str(&g(&mut rng));
                        continue;
                    }
                }
                let i = if mix == 0 || rng.below(4) == 0 { rng.below(n) } else { sub[rng.below(sub.len())] };
                s.push_str(&frags[i]);
            }
            f(ctx, &s);
            random += 1;
        }
    }
    ctx.note("random_strings", random.to_string());
}

/// Every Unicode scalar value.
pub fn all_chars() -> impl Iterator<Item = char> {
    (0..=0x10ffffu32).filter_map(char::from_u32)
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
