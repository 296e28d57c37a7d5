//! C08: the version sort order against an independent implementation of its rules, and its laws.
use std::cmp::Ordering::{self, *};
use tombi_version_sort::version_sort;
use wit::*;

#[derive(Debug, Clone, PartialEq)]
enum C {
    Op(String),
    Sep,
    Str(String),
    Num(String),
}
const OPS: [&str; 12] = ["===", ">=", "<=", "==", "!=", "~=", "~>", ">", "<", "=", "^", "~"];
fn op(s: &[char]) -> Option<usize> {
    OPS.iter().map(|o| o.chars().collect::<Vec<_>>()).find(|o| s.starts_with(o)).map(|o| o.len())
}
fn chunks(s: &str) -> Vec<C> {
    let s: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut v = vec![];
    while i < s.len() {
        let from = i;
        let text = |a: usize, b: usize| s[a..b].iter().collect::<String>();
        if s[i] == '_' || s[i] == '-' {
            i += 1;
            v.push(C::Sep);
        } else if s[i].is_ascii_digit() {
            while i < s.len() && s[i].is_ascii_digit() {
                i += 1;
            }
            v.push(C::Num(text(from, i)));
        } else if let Some(n) = op(&s[i..]) {
            i += n;
            v.push(C::Op(text(from, i)));
        } else {
            while i < s.len() && s[i] != '_' && s[i] != '-' && !s[i].is_ascii_digit() && op(&s[i..]).is_none() {
                i += 1;
            }
            v.push(C::Str(text(from, i)));
        }
    }
    v
}
fn sig(s: &str) -> &str {
    s.trim_start_matches('0')
}
fn want(a: &str, b: &str) -> Ordering {
    let (a, b) = (chunks(a), chunks(b));
    let rank = |c: &C| match c {
        C::Op(_) => 0,
        C::Sep => 1,
        _ => 2,
    };
    let mut tie = Equal;
    for (x, y) in a.iter().zip(&b) {
        let o = rank(x).cmp(&rank(y)).then_with(|| match (x, y) {
            (C::Num(x), C::Num(y)) => sig(x).len().cmp(&sig(y).len()).then_with(|| sig(x).cmp(sig(y))),
            (C::Op(x), C::Op(y)) | (C::Str(x) | C::Num(x), C::Str(y) | C::Num(y)) => x.cmp(y),
            _ => Equal,
        });
        if o != Equal {
            return o;
        }
        if let (C::Num(x), C::Num(y)) = (x, y) {
            tie = tie.then((y.len() - sig(y).len()).cmp(&(x.len() - sig(x).len())));
        }
    }
    a.len().cmp(&b.len()).then(tie)
}
fn check(s: &str) -> Result<(), String> {
    let p: Vec<&str> = s.split('|').collect();
    for a in &p {
        for b in &p {
            let (o, w) = (version_sort(a, b), want(a, b));
            if o != w {
                return Err(format!("version_sort({a:?}, {b:?}) is {o:?}, should be {w:?}"));
            }
            if o == Equal && a.replace('-', "_") != b.replace('-', "_") {
                return Err(format!("version_sort({a:?}, {b:?}) is Equal"));
            }
            for c in &p {
                if o != Greater && version_sort(b, c) != Greater && version_sort(a, c) == Greater {
                    return Err(format!("{a:?} <= {b:?} <= {c:?}, but not {a:?} <= {c:?}"));
                }
            }
        }
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args();
    let mut f = strs(&["|", "0", "1", "9", "10", "18446744073709551615", "18446744073709551616", "28446744073709551616", "a", "b", "ab", "_", "-", "=", ">", "<", "!", "~", "^", ".", "é", "A", "٣"]);
    f.extend(ctx.dict.clone().into_iter().filter(|d| d.len() < 8));
    let g = f.clone();
    ctx.generate = Some(Box::new(move |r| {
        let pre: String = (0..r.below(3)).map(|_| g[1 + r.below(g.len() - 1)].as_str()).collect();
        (0..2 + r.below(2)).map(|_| format!("{pre}{}", (0..r.below(4)).map(|_| g[r.below(g.len())].as_str()).collect::<String>())).collect::<Vec<_>>().join("|")
    }));
    each_string(&mut ctx, &f, 4, 6, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
