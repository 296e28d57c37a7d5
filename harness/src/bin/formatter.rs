//! C09: formatting says the same. Random documents under random format rules; the result must parse, carry the same
//! tokens in the same order (literals by value), the same comments, the same values; and formatting must not panic.
use tombi_config::{FormatOptions, TomlVersion, format::FormatRules};
use tombi_document_tree::{DocumentTree, IntoDocumentTreeAndErrors, Table, Value};
use wit::*;
use wit::tomlgen::G;

fn jv(v: &Value) -> String {
    match v {
        Value::Table(t) => jt(t),
        Value::Array(a) => format!("[{}]", a.values().iter().map(jv).collect::<Vec<_>>().join(",")),
        Value::Integer(i) => i.value().to_string(),
        Value::String(s) => format!("{:?}", s.value()),
        Value::Float(x) => format!("{:?}", x.value()),
        Value::Boolean(x) => format!("{:?}", x.value()),
        Value::OffsetDateTime(x) => format!("{:?}", x.value()),
        Value::LocalDateTime(x) => format!("{:?}", x.value()),
        Value::LocalDate(x) => format!("{:?}", x.value()),
        Value::LocalTime(x) => format!("{:?}", x.value()),
        _ => "?".into(), // not a value in this TOML version
    }
}
fn jt(t: &Table) -> String {
    let mut v: Vec<_> = t.key_values().iter().map(|(k, v)| format!("{:?}:{}", k.value, jv(v))).collect();
    v.sort(); // sections that share their first key are brought together; the order of other keys is in the tokens
    format!("{{{}}}", v.join(","))
}
fn unquote(s: &str) -> Option<String> {
    let c: Vec<char> = s.strip_prefix('"')?.strip_suffix('"')?.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] != '\\' {
            o.push(c[i]);
            i += 1;
            continue;
        }
        let hex = |n: usize| c.get(i + 2..i + 2 + n).and_then(|h| u32::from_str_radix(&h.iter().collect::<String>(), 16).ok()).and_then(char::from_u32);
        let (x, n) = match c.get(i + 1)? {
            'b' => ('\u{8}', 2),
            't' => ('\t', 2),
            'n' => ('\n', 2),
            'f' => ('\u{c}', 2),
            'r' => ('\r', 2),
            'e' => ('\u{1b}', 2),
            '"' => ('"', 2),
            '\\' => ('\\', 2),
            'x' => (hex(2)?, 4),
            'u' => (hex(4)?, 6),
            'U' => (hex(8)?, 10),
            _ => return None,
        };
        o.push(x);
        i += n;
    }
    Some(o)
}
struct Says {
    errors: usize,
    valid: bool,
    tokens: Vec<String>,
    comments: Vec<String>,
    keys: Vec<String>,
    data: String,
}
fn says(d: &str, ver: TomlVersion) -> Says {
    let p = tombi_parser::parse(d);
    let (mut tokens, mut comments, mut keys) = (vec![], vec![], vec![]);
    for e in p.syntax_node().descendants_with_tokens().filter(|e| e.as_token().is_some()) {
        let (k, t) = (format!("{:?}", e.kind()), e.to_string());
        if e.parent().is_some_and(|p| p.ancestors().any(|a| format!("{:?}", a.kind()) == "KEYS")) {
            keys.push(unquote(&t).unwrap_or(t.trim_matches('\'').to_string()));
        }
        match k.as_str() {
            "WHITESPACE" | "LINE_BREAK" | "COMMA" => {}
            "COMMENT" => comments.push(t.chars().filter(|c| !c.is_whitespace()).collect()),
            "BASIC_STRING" => tokens.push(unquote(&t).map(|s| format!("'{s}'")).unwrap_or(t)),
            "LITERAL_STRING" => tokens.push(t),
            "MULTI_LINE_BASIC_STRING" | "MULTI_LINE_LITERAL_STRING" => tokens.push(t.replace("\r\n", "\n")),
            "OFFSET_DATE_TIME" | "LOCAL_DATE_TIME" => tokens.push(t.replace(['t', 'T'], " ")),
            _ => tokens.push(t),
        }
    }
    let (root, e) = p.into_root_and_errors();
    let (tree, f): (DocumentTree, Vec<_>) = root.into_document_tree_and_errors(ver).into();
    Says { errors: e.len(), valid: f.is_empty(), tokens, comments, keys, data: jt(&tree) }
}
const SEP: char = '\u{e000}';
/// "{rules}\u{e000}document"
fn check(rt: &tokio::runtime::Runtime, store: &tombi_schema_store::SchemaStore, s: &str) -> Result<(), String> {
    let (o, d) = s.split_once(SEP).unwrap_or(("{}", s));
    let Ok(mut o) = serde_json::from_str::<serde_json::Value>(o) else { return Ok(()) };
    let ver = if o.as_object_mut().is_some_and(|o| o.remove("v1.0").is_some()) { TomlVersion::V1_0_0 } else { TomlVersion::V1_1_0 };
    let Ok(rules) = serde_json::from_value::<FormatRules>(o) else { return Ok(()) };
    let options = FormatOptions { rules: Some(rules) };
    let mut a = says(d, ver);
    if a.errors > 0 {
        return Ok(());
    }
    let Ok(out) = rt.block_on(tombi_formatter::Formatter::new(ver, &options, None, store).format(d)) else { return Ok(()) };
    let mut b = says(&out, ver);
    let show = |x: &str| format!("{x}; {d:?} became {out:?}");
    if b.errors > 0 {
        return Err(show("the formatted text does not parse"));
    }
    if a.keys.iter().enumerate().any(|(i, k)| a.keys[..i].contains(k)) {
        // keys that share their first part are brought together, with their comments
        for v in [&mut a.tokens, &mut b.tokens, &mut a.comments, &mut b.comments] {
            v.sort();
        }
    }
    if a.comments != b.comments {
        return Err(show("comments changed"));
    }
    if a.tokens != b.tokens {
        return Err(show("tokens changed"));
    }
    if a.valid && (a.data != b.data || !b.valid) {
        return Err(show("values changed"));
    }
    Ok(())
}

fn rules(r: &mut Rng, ints: &[i128]) -> serde_json::Value {
    let mut o = serde_json::Map::new();
    macro_rules! opt {
        ($k:literal, $($v:expr),*) => {{
            let vs = [$(serde_json::json!($v)),*];
            if r.below(3) == 0 {
                o.insert($k.into(), vs[r.below(vs.len())].clone());
            }
        }};
    }
    let w = ints.iter().filter(|i| **i >= 0 && **i < 256).map(|i| *i as u64).collect::<Vec<_>>();
    let w = if w.is_empty() { 0 } else { w[r.below(w.len())] };
    opt!("array-bracket-space-width", 0, 1, 255, 3, w);
    opt!("array-comma-space-width", 0, 1, 255, 2);
    opt!("comment-style", "preserve", "normalize");
    opt!("date-time-delimiter", "T", "space", "preserve");
    opt!("group-blank-lines-limit", 1, 3, 255, w.max(1));
    opt!("indent-style", "space", "tab");
    opt!("indent-sub-tables", true, false);
    opt!("indent-table-key-value-pairs", true, false);
    opt!("indent-width", 1, 4, 255, w);
    opt!("inline-table-brace-space-width", 0, 1, 255, 2);
    opt!("inline-table-comma-space-width", 0, 1, 255, 2, w);
    opt!("key-value-equals-sign-alignment", true, false);
    opt!("key-quote-style", "double", "single", "preserve");
    opt!("string-quote-style", "double", "single", "preserve");
    opt!("trailing-comment-alignment", true, false);
    opt!("key-value-equals-sign-space-width", 0, 1, 255, 2, w);
    opt!("line-ending", "auto", "lf", "crlf");
    opt!("line-width", 1, 10, 20, 40, 80, 255, w.max(1));
    opt!("table-blank-lines", 0, 1, 2, 255, w);
    opt!("trailing-comment-space-width", 0, 1, 255, 2, w);
    if r.below(2) == 0 {
        o.insert("v1.0".into(), true.into());
    }
    serde_json::Value::Object(o)
}

fn main() {
    let mut ctx = Ctx::from_args();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let store = tombi_schema_store::SchemaStore::new();
    let ints = ctx.ints.clone();
    let frags = strs(&["a", "=", "1", "\"a'b\"", "'x'", "[", "]", "{", "}", ",", "\n", "# c", " ", ".", "1979-05-27 07:32:00", "\r\n"]);
    ctx.generate = Some(Box::new(move |r| {
        let o = rules(r, &ints);
        let (ml, com) = (r.below(2) == 0, r.below(4) != 0);
        let d = G { r, k: 0, ml, com }.doc();
        let d = if d.contains('\r') || r.below(6) > 0 { d } else { d.replace('\n', "\r\n") };
        format!("{o}{SEP}{d}")
    }));
    // concatenating several generated cases is pointless here: only the first separator counts
    each_string(&mut ctx, &frags, 4, 4, |ctx, s| ctx.case(s, || check(&rt, &store, s)));
    ctx.finish()
}
