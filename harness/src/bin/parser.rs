//! C02 / C03: parsing any text gives a tree whose text is the source, ends, and stays within the nesting bound.
use tombi_parser::parse;
use tombi_rg_tree::NodeOrToken;
use wit::*;

fn check(text: &str) -> Result<(), String> {
    let t0 = std::time::Instant::now();
    let p = parse(text);
    let spent = t0.elapsed();
    let root = p.syntax_node();
    if format!("{:?}", root.kind()) != "ROOT" {
        return Err(format!("the root node is {:?}", root.kind()));
    }
    let got = root.text().to_string();
    if got != text {
        return Err(format!("the text of the tree is {got:?}"));
    }
    let mut at = 0usize;
    let mut deepest = 0usize;
    let mut stack: Vec<(NodeOrToken<tombi_parser::SyntaxNode, tombi_parser::SyntaxToken>, usize)> = vec![(NodeOrToken::Node(root), 1)];
    while let Some((e, depth)) = stack.pop() {
        match e {
            NodeOrToken::Token(t) => {
                let s = t.span();
                let (a, b) = (u32::from(s.start) as usize, u32::from(s.end) as usize);
                if a != at || b < a || text.get(a..b) != Some(t.text()) {
                    return Err(format!("token {:?} {:?} claims bytes {a}..{b}", t.kind(), t.text()));
                }
                at = b;
            }
            NodeOrToken::Node(n) => {
                deepest = deepest.max(depth);
                let s = n.span();
                if u32::from(s.start) as usize != at {
                    return Err(format!("node {:?} starts at {} instead of {at}", n.kind(), u32::from(s.start)));
                }
                let mut c: Vec<_> = n.children_with_tokens().map(|c| (c, depth + 1)).collect();
                c.reverse();
                stack.extend(c);
            }
        }
    }
    if deepest > 128 * 4 + 32 {
        return Err(format!("the tree is {deepest} nodes deep"));
    }
    let last = text.matches('\n').count() as u32;
    for e in &p.errors {
        let r = e.range();
        if r.start > r.end || r.end.line > last {
            return Err(format!("error range {r:?} is not inside the text"));
        }
    }
    if spent.as_secs() > 20 {
        return Err(format!("parsing {} bytes took {spent:?}", text.len()));
    }
    Ok(())
}

fn main() {
    let mut ctx = Ctx::from_args();
    let f = strs(&[
        "a", "=", "1", "[", "]", "{", "}", ",", ".", "\n", " ", "#c", "\"s\"", "'l'", "\r\n", "\t", "1.5", "1e5", "+1", "-2.5", "inf", "true", "2000-01-01", "12:00", "0xA", "\"\"\"m\n\"\"\"", "'''", "é", "\r", "?",
        "[[", "]]", "a = 1\n", "# x\n", "a.b", "2000-01-01T10:00Z", "\"", "\u{feff}",
    ]);
    ctx.generate = Some(Box::new(|r| {
        fn value(r: &mut Rng, d: usize, s: &mut String) {
            let ws = ["", " ", "\n", "\n# c\n", " # t\n", "\n\n", "\r\n", "\n#a\n\n#b\n"];
            match r.below(if d == 0 { 6 } else { 9 }) {
                0 => s.push_str("1"),
                1 => s.push_str("\"x\""),
                2 => s.push_str("1.5"),
                3 => s.push_str(["key", "?", "", "=", "a.b", "[", "}", "]"][r.below(8)]),
                4 => s.push_str("2000-01-01"),
                5 => s.push_str("true"),
                6 | 7 => {
                    s.push('[');
                    for _ in 0..r.below(4) {
                        s.push_str(ws[r.below(ws.len())]);
                        value(r, d - 1, s);
                        s.push_str(ws[r.below(ws.len())]);
                        s.push_str([",", ",", ",", "", ",,"][r.below(5)]);
                    }
                    s.push_str(ws[r.below(ws.len())]);
                    s.push_str(["]", "]", "]", "}", ""][r.below(5)]);
                }
                _ => {
                    s.push('{');
                    for _ in 0..r.below(4) {
                        s.push_str(ws[r.below(ws.len())]);
                        s.push_str(["a", "a.b", "1.5", "'k'", "", "1.2.3", "\"k\".c", "2000-01-01"][r.below(8)]);
                        s.push_str([" = ", "=", ""][r.below(3)]);
                        value(r, d - 1, s);
                        s.push_str(ws[r.below(ws.len())]);
                        s.push_str([",", ",", ""][r.below(3)]);
                    }
                    s.push_str(["}", "}", "}", "]", ""][r.below(5)]);
                }
            }
        }
        let mut s = String::new();
        for _ in 0..1 + r.below(4) {
            s.push_str(["", " ", "\n", "# c\n", "\n# c\n\n", "\t"][r.below(6)]);
            match r.below(6) {
                0 => s.push_str(["[a]\n", "[[a.b]]\n", "[1.5]", "[a", "[[a]\n", "[ a . b ]\n", "[[ 1.5 ]] # t\n", "[a]]\n"][r.below(8)]),
                1 => s.push_str(["1.5 = ", "a", "= 1", "a = ", "? = 1", "a.=1", "1.5.a = "][r.below(7)]),
                _ => s.push_str(["a = ", "a.b.c = ", "'q' = ", "1.5 = ", "2000-01-01 = ", "+1.5 = ", "-1.5 = "][r.below(7)]),
            }
            value(r, 3, &mut s);
            s.push_str(["\n", " # t\n", "", "\r\n", " x\n", "\n\n\n", ",\n"][r.below(7)]);
        }
        s
    }));
    if ctx.replay.is_none() {
        for n in [1usize, 2, 31, 64, 126, 127, 128, 129, 130, 131, 200, 1000, 20000] {
            for (o, c) in [("[", "]"), ("{a=", "}"), ("[{a=", "}]"), ("[\n# c\n", "\n]"), ("{ a = [", "]}"), ("[1,", "]")] {
                for (pre, post) in [("x = ", ""), ("x = ", "\ny = 2\n"), ("", "")] {
                    for closed in [true, false] {
                        let s = format!("{pre}{}{}{post}", o.repeat(n), if closed { c.repeat(n) } else { String::new() });
                        ctx.case(&s, || check(&s));
                    }
                }
            }
        }
        for t in ["\n", "# c\n", "a=1\n", "[a]\n", "a.", "a = [1]\n", " ", "[[a]]\nb=1\n", "= ", "a", "1.5 = 1\n", "x={a=1,b=2}\n"] {
            for n in [100usize, 2000] {
                let s = t.repeat(n);
                ctx.case(&s, || check(&s));
            }
        }
    }
    if ctx.replay.is_none() {
        // every separator at every token boundary of small documents, and each token left out
        let docs: [&[&str]; 9] = [
            &["[", "[", "a", ".", "b", "]", "]"],
            &["[", "a", ".", "1.5", "]"],
            &["a", ".", "b", "=", "1"],
            &["1.5", ".", "'k'", "=", "[", "1", ",", "[", "2", "]", ",", "]"],
            &["a", "=", "{", "b", ".", "c", "=", "1", ",", "d", "=", "{", "}", "}"],
            &["#c", "\n", "a", "=", "[", "#d", "\n", "1", ",", "#e", "\n", "#f", "\n", "]", "#g"],
            &["#c", "\n", "\n", "#d", "\n", "[", "[", "x", "]", "]", "#t", "\n", "k", "=", "\"v\""],
            &["a", "=", "[", "{", "b", "=", "1", "}", ",", "{", "}", "]", "\n", "c", "=", "2"],
            &["a", "=", "[", "\n", "#c", "\n", "{", "\n", "#d", "\n", "b", "=", "\"x\"", ",", "}", "\n", "]"],
        ];
        for d in docs {
            for sep in [" ", "\t", "\n", "\r\n", "#x\n", "\n\n", "\n#x\n", ",", ".", "=", "[", "]", "{", "}", "?", "1.5", "a", "'"] {
                for i in 0..=d.len() {
                    for j in i..=d.len() {
                        for (tail, spaced) in [("", ""), (" ", ""), ("\n", " "), ("\n", "")] {
                            let mut s = String::new();
                            for k in 0..=d.len() {
                                if k == i || k == j {
                                    s.push_str(sep);
                                }
                                if k < d.len() {
                                    s.push_str(d[k]);
                                    s.push_str(spaced);
                                }
                            }
                            s.push_str(tail);
                            ctx.case(&s, || check(&s));
                        }
                    }
                    let s: String = (0..d.len()).filter(|k| *k != i).map(|k| d[k]).collect();
                    ctx.case(&s, || check(&s));
                    let s: String = (0..d.len()).filter(|k| *k != i).map(|k| d[k]).collect::<Vec<_>>().join(sep);
                    ctx.case(&s, || check(&s));
                }
            }
            if !ctx.time_left() {
                break;
            }
        }
    }
    each_string(&mut ctx, &f, 4, 30, |ctx, s| ctx.case(s, || check(s)));
    ctx.finish()
}
