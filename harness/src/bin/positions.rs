//! C12: places in the text against an independent reading of it (lines, grapheme clusters, the
//! editor's units), and the algebra of spans and ranges against sets of offsets.
use tombi_text::*;
use tower_lsp::lsp_types::Position as P;
use unicode_segmentation::UnicodeSegmentation;
use wit::*;

const KINDS: [EncodingKind; 4] = [EncodingKind::Utf8, EncodingKind::Utf16, EncodingKind::Utf32, EncodingKind::GraphemeCluster];
fn clusters(s: &str) -> Vec<&str> {
    s.graphemes(true).collect()
}
fn units(k: EncodingKind, s: &str) -> u32 {
    let one = |c: char| match k {
        EncodingKind::Utf8 => c.len_utf8(),
        EncodingKind::Utf16 => if (c as u32) < 0x10000 { 1 } else { 2 },
        _ => 1,
    };
    if k == EncodingKind::GraphemeCluster { clusters(s).len() as u32 } else { s.chars().map(one).sum::<usize>() as u32 }
}
fn lines(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut from = 0;
    for l in s.split('\n') {
        let to = from + l.len();
        let last = to == s.len();
        v.push((from, if !last && l.ends_with('\r') { to - 1 } else { to }));
        from = to + 1;
    }
    v
}
macro_rules! want {
    ($got:expr, $want:expr, $($what:tt)*) => {{
        let (g, w) = ($got, $want);
        if g != w { return Err(format!("{} is {g:?}, should be {w:?}", format!($($what)*))); }
    }};
}
fn check(s: &str) -> Result<(), String> {
    let ls = lines(s);
    let cs = clusters(s);
    // the clusters are the text; a line feed ends its own cluster; a line's clusters are the text's
    want!(cs.concat(), s.to_string(), "the clusters together");
    for c in &cs {
        if c.is_empty() || (c.contains('\n') && *c != "\n" && *c != "\r\n") {
            return Err(format!("cluster {c:?}"));
        }
    }
    let by_line: Vec<&str> = ls.iter().flat_map(|l| clusters(&s[l.0..l.1])).collect();
    want!(by_line, cs.iter().copied().filter(|c| !c.contains('\n')).collect::<Vec<_>>(), "clusters line by line");

    // of / add_text
    let (mut line, mut col, mut at) = (0u32, 0u32, 0usize);
    for i in 0..=cs.len() {
        let p = &s[..at];
        want!(RelativePosition::of(p), RelativePosition { line, column: col }, "RelativePosition::of({p:?})");
        let base = Position::new(3, 5);
        let sum = Position::new(3 + line, if line == 0 { 5 + col } else { col });
        want!((base.add_text(p).line, base.add_text(p).column), (sum.line, sum.column), "(3,5).add_text({p:?})");
        let mut b = base;
        b += RelativePosition::of(p);
        want!((b.line, b.column), (sum.line, sum.column), "(3,5) += of({p:?})");
        want!(sum - base, RelativePosition { line, column: col }, "({sum}) - (3,5)");
        want!(usize::from(Offset::of(p)), at, "Offset::of({p:?})");
        if i < cs.len() {
            at += cs[i].len();
            if cs[i].contains('\n') { line += 1; col = 0 } else { col += 1 }
        }
    }
    for k in KINDS {
        let li = LineIndex::new(s, k);
        want!(li.len(), ls.len(), "number of lines");
        want!(li.is_empty(), false, "is_empty");
        want!(li.iter().map(|x| (usize::from(x.start), usize::from(x.end))).collect::<Vec<_>>(), ls.clone(), "lines");
        want!(li.line_text(ls.len() as u32), None, "a line past the end");
        want!(k.measure(s), units(k, s), "{k:?}.measure({s:?})");
        let past = P::from_lsp(Position::new(ls.len() as u32, 3), &li);
        want!((past.line, past.character), (ls.len() as u32, 0), "position past the last line");
        for (n, l) in ls.iter().enumerate() {
            let n = n as u32;
            let t = &s[l.0..l.1];
            want!(li.line_text(n), Some(t), "text of line {n}");
            let g = clusters(t);
            for c in 0..g.len() + 2 {
                let m = c.min(g.len());
                let q = P::from_lsp(Position::new(n, c as u32), &li);
                want!((q.line, q.character), (n, units(k, &g[..m].concat())), "({n}, {c}) in {k:?}");
                let b = Position::from_lsp(q, &li);
                want!((b.line, b.column), (n, m as u32), "({n}, {c}) in {k:?} and back");
                let r = tower_lsp::lsp_types::Range::from_lsp(Range::new(Position::new(n, 0), Position::new(n, c as u32)), &li);
                want!((r.start, r.end), (P::new(n, 0), q), "range up to ({n}, {c}) in {k:?}");
                let back = Range::from_lsp(r, &li);
                want!(back, Range::new(Position::new(n, 0), Position::new(n, m as u32)), "range up to ({n}, {c}) in {k:?} and back");
            }
            for u in (0..units(k, t) + 3).chain([u32::MAX]) {
                let mut m = 0;
                while m < g.len() && units(k, &g[..m + 1].concat()) <= u {
                    m += 1;
                }
                let b = Position::from_lsp(P::new(n, u), &li);
                want!((b.line, b.column), (n, m as u32), "editor's ({n}, {u}) in {k:?}");
            }
        }
    }
    Ok(())
}
/// lines of thousands of clusters
fn long(unit: &str) -> Result<(), String> {
    let t = unit.repeat(70_000);
    let n = clusters(&t).len() as u32;
    for k in KINDS {
        want!(k.measure(&t), units(k, &t), "{k:?}.measure of 70000 {unit:?}");
        let li = LineIndex::new(format!("a\n{t}\r\n{unit}"), k);
        for c in [1000, 1025, 40_000, 65_535, 65_536, n - 1, n, n + 1] {
            let m = c.min(n);
            let w = units(k, &clusters(&t)[..m as usize].concat());
            let q = P::from_lsp(Position::new(1, c), &li);
            want!((q.line, q.character), (1, w), "(1, {c}) of a long line of {unit:?} in {k:?}");
            let b = Position::from_lsp(q, &li);
            want!((b.line, b.column), (1, m), "(1, {c}) of a long line of {unit:?} in {k:?} and back");
        }
    }
    let p = RelativePosition::of(&format!("{t}\n{t}"));
    want!((p.line, p.column), (1, n), "RelativePosition::of a long text");
    Ok(())
}
fn algebra(ctx: &mut Ctx) {
    const N: u32 = 5;
    let o = Offset::new;
    let spans: Vec<Span> = (0..N).flat_map(|a| (a..N).map(move |b| Span::new(o(a), o(b)))).collect();
    let u = |x: Offset| u32::from(x);
    for a in &spans {
        for b in &spans {
            ctx.case(&format!("span {a:?} {b:?}"), || {
                let (a, b) = (*a, *b);
                for x in 0..N {
                    want!(a.contains(o(x)), u(a.start) <= x && x < u(a.end), "contains {x}");
                    want!(a.contains_inclusive(o(x)), u(a.start) <= x && x <= u(a.end), "contains_inclusive {x}");
                    let c = a.cover_offset(o(x));
                    want!((u(c.start), u(c.end)), (u(a.start).min(x), u(a.end).max(x)), "cover_offset {x}");
                    want!(a.checked_add(o(x)).map(|c| (u(c.start), u(c.end))), Some((u(a.start) + x, u(a.end) + x)), "checked_add {x}");
                    want!(a.checked_sub(o(x)).map(|c| (u(c.start), u(c.end))), (x <= u(a.start)).then(|| (u(a.start) - x, u(a.end) - x)), "checked_sub {x}");
                }
                want!(a.checked_add(o(u32::MAX)).is_some(), u(a.end) == 0, "checked_add MAX");
                let both: Vec<u32> = (0..N).filter(|x| a.contains_inclusive(o(*x)) && b.contains_inclusive(o(*x))).collect();
                want!(a.intersect(b).map(|c| (u(c.start), u(c.end))), both.first().map(|f| (*f, *both.last().unwrap())), "intersect");
                let c = a.cover(b);
                want!((u(c.start), u(c.end)), (u(a.start).min(u(b.start)), u(a.end).max(u(b.end))), "cover");
                want!(a.contains_span(b), u(a.start) <= u(b.start) && u(b.end) <= u(a.end), "contains_span");
                use std::cmp::Ordering::*;
                let w = if u(a.end) <= u(b.start) { Less } else if u(b.end) <= u(a.start) { Greater } else { Equal };
                want!(a.ordering(b), w, "ordering");
                want!(a == b, u(a.start) == u(b.start) && u(a.end) == u(b.end), "==");
                Ok(())
            });
        }
    }
    let ps: Vec<(u32, u32)> = (0..3).flat_map(|l| (0..3).map(move |c| (l, c))).collect();
    let p = |x: (u32, u32)| Position::new(x.0, x.1);
    for &a in &ps {
        for &b in ps.iter().filter(|b| a <= **b) {
            for &c in &ps {
                ctx.case(&format!("range {a:?} {b:?} {c:?}"), || {
                    let r = Range::new(p(a), p(b));
                    want!(p(a).cmp(&p(c)), a.cmp(&c), "order");
                    want!(p(a) == p(c), a == c, "==");
                    want!(r.contains(p(c)), a <= c && c <= b, "contains");
                    want!(Range::at(p(c)), Range::new(p(c), p(c)), "at");
                    for &d in ps.iter().filter(|d| c <= **d) {
                        let q = Range::new(p(c), p(d));
                        want!(r.intersects(q), a <= d && c <= b, "intersects {d:?}");
                        let s = r + q;
                        want!((s.start, s.end), (p(a.min(c)), p(b.max(d))), "+ {d:?}");
                        let mut t = r;
                        t += q;
                        want!(t, s, "+= {d:?}");
                        want!(r == q, a == c && b == d, "== {d:?}");
                        want!(r.cmp(&q), (a, b).cmp(&(c, d)), "cmp {d:?}");
                    }
                    Ok(())
                });
            }
        }
    }
}
fn main() {
    let mut ctx = Ctx::from_args();
    let mut f = strs(&["\n", "\r\n", "a", "\u{301}", "\r", "é", "日", "🦅", "👨\u{200d}👩", "\u{200d}", "🇯", "🇯🇵", "\u{1f3fd}", "한", "\u{1100}\u{1161}", "नि", "\u{600}", "\0", " ", "\u{2028}", "\u{feff}", "ab"]);
    f.extend(ctx.dict.clone().into_iter().filter(|d| d.len() < 8));


    if ctx.replay.is_none() {
        algebra(&mut ctx);
        for u in ["a", "é", "あ", "🦅", "e\u{301}", "👨\u{200d}👩"] {
            ctx.case(&format!("long {u}"), || long(u));
        }
    }
    each_string(&mut ctx, &f, 4, 10, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
