//! C10: the document tree against an independent reading of TOML's table rules.
use std::collections::BTreeMap;
use tombi_config::TomlVersion;
use tombi_document_tree::{DocumentTree, IntoDocumentTreeAndErrors, Table, Value};
use wit::*;

#[derive(Debug, Clone)]
enum N {
    Leaf(String),
    Static(Vec<N>),
    Tab(T),
    Aot(Vec<T>),
}
#[derive(Debug, Clone, Default)]
struct T {
    map: BTreeMap<String, N>,
    /// 0: only a super-table of headers, 1: opened by a header, 2: made by dotted keys, 3: inline
    how: u8,
    /// for 2: the section that made it
    section: usize,
}
#[derive(Debug, PartialEq)]
enum Bad {
    Invalid,
    /// the specification does not decide
    Unclear,
}
use Bad::*;

struct P<'a> {
    s: &'a [u8],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        let y = self.s.get(self.i) == Some(&c);
        self.i += y as usize;
        y
    }
    fn keys(&mut self) -> Option<Vec<String>> {
        let mut v = vec![];
        loop {
            self.ws();
            let q = matches!(self.s.get(self.i), Some(b'"' | b'\'')).then(|| self.s[self.i]);
            self.i += q.is_some() as usize;
            let from = self.i;
            while self.s.get(self.i).is_some_and(|c| c.is_ascii_lowercase()) {
                self.i += 1;
            }
            if from == self.i {
                return None;
            }
            v.push(String::from_utf8(self.s[from..self.i].to_vec()).unwrap());
            if let Some(q) = q {
                if self.s.get(self.i) != Some(&q) {
                    return None;
                }
                self.i += 1;
            }
            if !self.eat(b'.') {
                return Some(v);
            }
        }
    }
    fn value(&mut self) -> Option<Result<N, Bad>> {
        if self.eat(b'[') {
            let (mut v, mut bad) = (vec![], None);
            while !self.eat(b']') {
                match self.value()? {
                    Ok(n) => v.push(n),
                    Err(e) => bad = Some(e),
                }
                if !self.eat(b',') {
                    if !self.eat(b']') {
                        return None;
                    }
                    break;
                }
            }
            return Some(bad.map_or(Ok(N::Static(v)), Err));
        }
        if self.eat(b'{') {
            let mut t = T { how: 0, ..T::default() };
            let mut bad = None;
            let mut first = true;
            while !self.eat(b'}') {
                if !first && !self.eat(b',') {
                    return None;
                }
                first = false;
                let k = self.keys()?;
                if !self.eat(b'=') {
                    return None;
                }
                match self.value()? {
                    Ok(n) => {
                        if let Err(e) = put(&mut t, &k, n, 0) {
                            bad.get_or_insert(e);
                        }
                    }
                    Err(e) => {
                        bad.get_or_insert(e);
                    }
                }
            }
            t.how = 3;
            return Some(bad.map_or(Ok(N::Tab(t)), Err));
        }
        self.ws();
        let from = self.i;
        while self.s.get(self.i).is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        (from < self.i).then(|| Ok(N::Leaf(String::from_utf8(self.s[from..self.i].to_vec()).unwrap())))
    }
}
fn put(t: &mut T, k: &[String], n: N, section: usize) -> Result<(), Bad> {
    if k.len() == 1 {
        return match t.map.contains_key(&k[0]) {
            true => Err(Invalid),
            false => {
                t.map.insert(k[0].clone(), n);
                Ok(())
            }
        };
    }
    match t.map.entry(k[0].clone()).or_insert_with(|| N::Tab(T { how: 2, section, ..T::default() })) {
        N::Tab(u) if u.how == 2 && u.section == section => put(u, &k[1..], n, section),
        // a dotted key through a table that so far is only the parent of headers
        N::Tab(u) if u.how == 0 => match put(u, &k[1..], n, section) {
            Err(Invalid) => Err(Invalid),
            _ => Err(Unclear),
        },
        _ => Err(Invalid),
    }
}
fn open<'a>(t: &'a mut T, k: &[String], array: bool) -> Result<&'a mut T, Bad> {
    if k.len() == 1 {
        let new = T { how: 1, ..T::default() };
        if array {
            match t.map.entry(k[0].clone()).or_insert_with(|| N::Aot(vec![])) {
                N::Aot(v) => {
                    v.push(new);
                    Ok(v.last_mut().unwrap())
                }
                _ => Err(Invalid),
            }
        } else {
            let there = t.map.contains_key(&k[0]);
            match t.map.entry(k[0].clone()).or_insert(N::Tab(new)) {
                N::Tab(u) if !there || u.how == 0 => {
                    u.how = 1;
                    Ok(u)
                }
                _ => Err(Invalid),
            }
        }
    } else {
        match t.map.entry(k[0].clone()).or_insert_with(|| N::Tab(T::default())) {
            N::Tab(u) if u.how != 3 => open(u, &k[1..], array),
            N::Aot(v) => open(v.last_mut().unwrap(), &k[1..], array),
            _ => Err(Invalid),
        }
    }
}
fn js(n: &N) -> String {
    match n {
        N::Leaf(s) => s.clone(),
        N::Static(v) => format!("[{}]", v.iter().map(js).collect::<Vec<_>>().join(",")),
        N::Tab(t) => jt(t),
        N::Aot(v) => format!("[{}]", v.iter().map(jt).collect::<Vec<_>>().join(",")),
    }
}
fn jt(t: &T) -> String {
    format!("{{{}}}", t.map.iter().map(|(k, v)| format!("{k}:{}", js(v))).collect::<Vec<_>>().join(","))
}
/// None: not in the small language
fn want(d: &str) -> Option<Result<String, Bad>> {
    let mut root = T { how: 1, ..T::default() };
    let mut at: Option<(Vec<String>, usize)> = None;
    let mut unclear = false;
    for (section, l) in d.lines().enumerate() {
        let mut p = P { s: l.as_bytes(), i: 0 };
        p.ws();
        if p.i == l.len() || l.as_bytes()[p.i] == b'#' {
            continue;
        }
        let r = if p.eat(b'[') {
            let array = p.s.get(p.i) == Some(&b'[') && p.eat(b'[');
            let k = p.keys()?;
            if !p.eat(b']') || array && (p.s.get(p.i) != Some(&b']') || !p.eat(b']')) {
                return None;
            }
            let r = open(&mut root, &k, array).map(|_| ());
            at = Some((k, section + 1));
            r
        } else {
            let k = p.keys()?;
            if !p.eat(b'=') {
                return None;
            }
            match p.value()? {
                Ok(n) => match &at {
                    None => put(&mut root, &k, n, 0),
                    Some((h, s)) => {
                        let mut t = &mut root;
                        for h in h {
                            t = match t.map.get_mut(h) {
                                Some(N::Tab(u)) => u,
                                Some(N::Aot(v)) => v.last_mut().unwrap(),
                                _ => return Some(Err(Invalid)),
                            }
                        }
                        put(t, &k, n, *s)
                    }
                },
                Err(e) => Err(e),
            }
        };
        p.ws();
        if p.i < l.len() && p.s[p.i] != b'#' {
            return None;
        }
        match r {
            Err(Invalid) => return Some(Err(Invalid)),
            Err(Unclear) => unclear = true,
            Ok(()) => {}
        }
    }
    Some(if unclear { Err(Unclear) } else { Ok(jt(&root)) })
}

fn jv(v: &Value) -> String {
    match v {
        Value::Table(t) => jtab(t),
        Value::Array(a) => format!("[{}]", a.values().iter().map(jv).collect::<Vec<_>>().join(",")),
        Value::Integer(i) => i.value().to_string(),
        x => format!("{x:?}"),
    }
}
fn jtab(t: &Table) -> String {
    let mut v: Vec<_> = t.key_values().iter().map(|(k, v)| format!("{}:{}", k.value, jv(v))).collect();
    v.sort();
    format!("{{{}}}", v.join(","))
}
fn check(d: &str) -> Result<(), String> {
    let (root, e) = tombi_parser::parse(d).into_root_and_errors();
    if !e.is_empty() {
        return Ok(());
    }
    let (tree, f): (DocumentTree, Vec<_>) = root.into_document_tree_and_errors(TomlVersion::V1_1_0).into();
    match want(d) {
        Some(Ok(w)) => {
            if let Some(e) = f.first() {
                return Err(format!("valid, but reported: {e:?}"));
            }
            let g = jtab(&tree);
            if g != w {
                return Err(format!("is {w}, but the tree is {g}"));
            }
        }
        Some(Err(Invalid)) if f.is_empty() => return Err(format!("invalid, but accepted as {}", jtab(&tree))),
        _ => {}
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args();
    let f = strs(&["[a]\n", "[b]\n", "[a.b]\n", "[a.b.c]\n", "[b.a]\n", "[[a]]\n", "[[b]]\n", "[[a.b]]\n", "[[a.b.c]]\n", "a = 1\n", "b = 2\n", "a.b = 3\n", "b.c = 4\n", "a.b.c = 5\n", "b.a.c = 6\n", "\"b\".d = 7\n",
        "a = {}\n", "b = { a = 1, b.c = 2 }\n", "a.b = { c.d = 1, c.e = 2 }\n", "b = { a.b = 1, a = 2 }\n", "a = [1, { b = 2 }]\n", "b = []\n", "a.b = [{ c = 1 }]\n", "c = [{ a.b = 1, a.b.c = 2 }]\n", "# c\n", "[ a . 'b' ]\n"]);
    let g = f.clone();
    ctx.generate = Some(Box::new(move |r| {
        let k = |r: &mut Rng| (0..1 + r.below(3)).map(|_| ["a", "b", "c", "\"a\""][r.below(4)]).collect::<Vec<_>>().join(".");
        (0..2 + r.below(7))
            .map(|i| match r.below(6) {
                0 => format!("[{}]\n", k(r)),
                1 => format!("[[{}]]\n", k(r)),
                2 => format!("{} = {{ {} = {i} }}\n", k(r), k(r)),
                3 => format!("{} = [{{ {} = {i} , {} = 0 }}, 1]\n", k(r), k(r), k(r)),
                4 => g[r.below(g.len())].clone(),
                _ => format!("{} = {i}\n", k(r)),
            })
            .collect()
    }));
    each_string(&mut ctx, &f, 4, 8, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
