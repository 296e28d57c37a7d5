//! C13: what the editor is told. Through the language server's own handlers, in every position encoding: the
//! formatting edit, applied the way an editor applies it, gives the formatted text; semantic tokens, added up, are
//! the document's own tokens, in order; and after a change the answers are those of a freshly opened document.
use std::sync::Arc;
use tombi_config::{FormatOptions, TomlVersion};
use tombi_lsp::{Backend, handler::*};
use tombi_text::EncodingKind;
use tower_lsp::lsp_types::*;
use unicode_segmentation::UnicodeSegmentation;
use wit::tomlgen::G;
use wit::*;

fn measure(k: EncodingKind, s: &str) -> u32 {
    s.chars()
        .map(|c| match k {
            EncodingKind::Utf8 => c.len_utf8() as u32,
            EncodingKind::Utf16 => c.len_utf16() as u32,
            _ => 1,
        })
        .sum()
}
/// (start, end without the line break) of each line
fn lines(s: &str) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut from = 0;
    for l in s.split('\n') {
        let to = from + l.len();
        v.push((from, if to < s.len() && l.ends_with('\r') { to - 1 } else { to }));
        from = to + 1;
    }
    v
}
/// the byte an editor means by a position
fn byte(s: &str, k: EncodingKind, p: Position) -> Result<usize, String> {
    let ls = lines(s);
    let Some(l) = ls.get(p.line as usize) else { return Ok(s.len()) };
    let mut u = 0;
    let mut at = l.0;
    for c in s[l.0..l.1].chars() {
        if u >= p.character {
            break;
        }
        u += measure(k, c.encode_utf8(&mut [0; 4]));
        at += c.len_utf8();
    }
    if u > p.character { Err(format!("{p:?} is inside a character")) } else { Ok(at) }
}
fn place(s: &str, k: EncodingKind, at: usize) -> (u32, u32) {
    let ls = lines(s);
    let n = ls.iter().rposition(|l| l.0 <= at).unwrap();
    (n as u32, measure(k, &s[ls[n].0..at]))
}
fn length(k: EncodingKind, s: &str) -> u32 {
    lines(s).iter().map(|l| measure(k, &s[l.0..l.1])).sum()
}
struct World {
    rt: tokio::runtime::Runtime,
    service: tower_lsp::LspService<Backend>,
    store: tombi_schema_store::SchemaStore,
    url: Url,
}
async fn open(b: &Backend, url: &Url, text: &str) {
    handle_did_open(b, DidOpenTextDocumentParams { text_document: TextDocumentItem { uri: url.clone(), language_id: "toml".into(), version: 0, text: text.into() } }).await
}
async fn change(b: &Backend, url: &Url, version: i32, text: &str) {
    let text_document = VersionedTextDocumentIdentifier { uri: url.clone(), version };
    handle_did_change(b, DidChangeTextDocumentParams { text_document, content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: text.into() }] }).await
}
async fn tokens(b: &Backend, url: &Url) -> Option<Vec<SemanticToken>> {
    let p = SemanticTokensParams { work_done_progress_params: Default::default(), partial_result_params: Default::default(), text_document: TextDocumentIdentifier { uri: url.clone() } };
    match handle_semantic_tokens_full(b, p).await {
        Ok(Some(SemanticTokensResult::Tokens(t))) => Some(t.data),
        _ => None,
    }
}
async fn formatting(b: &Backend, url: &Url) -> Option<Vec<TextEdit>> {
    let p = DocumentFormattingParams { text_document: TextDocumentIdentifier { uri: url.clone() }, options: Default::default(), work_done_progress_params: Default::default() };
    handle_formatting(b, p).await.ok().flatten()
}
fn apply(text: &str, k: EncodingKind, edits: &[TextEdit]) -> Result<String, String> {
    let mut at = edits.iter().map(|e| Ok((byte(text, k, e.range.start)?, byte(text, k, e.range.end)?, &e.new_text))).collect::<Result<Vec<_>, String>>()?;
    at.sort_by_key(|e| (e.0, e.1));
    let mut out = String::new();
    let mut from = 0;
    for (a, b, n) in at {
        if a < from || b < a {
            return Err(format!("edits overlap or run backwards: {edits:?}"));
        }
        out += &text[from..a];
        out += n;
        from = b;
    }
    Ok(out + &text[from..])
}
const STRING: u32 = 0;
const NUMBER: u32 = 1;
const OPERATOR: u32 = 2;
const COMMENT: u32 = 3;
const KEYWORD: u32 = 4;
const TABLE: u32 = 5;
const KEY: u32 = 6;
fn check_tokens(text: &str, k: EncodingKind, got: &[SemanticToken]) -> Result<(), String> {
    // the document's own tokens: byte range, the type expected (None: any), whether it must be reported
    let p = tombi_parser::parse(text);
    let valid = p.errors.is_empty();
    let mut joined = false;
    let mut own: Vec<((u32, u32), u32, Vec<u32>, bool, String)> = vec![];
    for e in p.syntax_node().descendants_with_tokens().filter(|e| e.as_token().is_some()) {
        let kind = format!("{:?}", e.kind());
        // a mark that joins the token before it (not valid TOML) has no place of its own
        joined |= e.to_string().chars().next().is_some_and(|c| !c.is_ascii() && format!(" {c}").graphemes(true).count() == 1);
        let (a, b) = (usize::from(e.span().start), usize::from(e.span().end));
        let in_keys = e.parent().is_some_and(|p| p.ancestors().any(|a| format!("{:?}", a.kind()) == "KEYS"));
        let (types, must) = match kind.as_str() {
            "DOT" | "COMMA" | "BRACE_START" | "BRACE_END" | "WHITESPACE" | "LINE_BREAK" => continue,
            _ if in_keys => (vec![KEY, TABLE], true),
            // a comment next to a stray comma, outside every array and inline table, is not told
            "COMMENT" => (vec![COMMENT], e.parent().is_some_and(|p| format!("{:?}", p.kind()) != "COMMA" || p.ancestors().any(|a| ["ARRAY", "INLINE_TABLE"].contains(&format!("{:?}", a.kind()).as_str())))),
            "EQUAL" => (vec![OPERATOR], true),
            "BRACKET_START" | "BRACKET_END" | "DOUBLE_BRACKET_START" | "DOUBLE_BRACKET_END" => (vec![OPERATOR], false),
            x if x.contains("STRING") => (vec![STRING], true),
            x if x.contains("INTEGER") || x.contains("FLOAT") => (vec![NUMBER], true),
            "BOOLEAN" => (vec![7], true),
            "OFFSET_DATE_TIME" => (vec![8], true),
            "LOCAL_DATE_TIME" => (vec![9], true),
            "LOCAL_DATE" => (vec![10], true),
            "LOCAL_TIME" => (vec![11], true),
            _ => continue,
        };
        own.push((place(text, k, a), length(k, &text[a..b]), types, must, text[a..b].to_string()));
    }
    let (mut line, mut col) = (0u32, 0u32);
    let mut next = 0;
    let mut i = 0;
    while i < got.len() {
        let t = &got[i];
        if t.delta_line > 0 { col = 0 }
        line = line.checked_add(t.delta_line).ok_or("token before the one in front of it")?;
        col = col.checked_add(t.delta_start).ok_or("token before the one in front of it")?;
        i += 1;
        let mut len = t.length;
        let mut directive = None;
        // a comment directive is told in three parts
        if t.token_type == COMMENT && got.get(i).is_some_and(|x| x.token_type == KEYWORD) {
            let (x, y) = (&got[i], got.get(i + 1).ok_or("a directive without its content")?);
            if (x.delta_line, x.delta_start, y.delta_line, y.delta_start, y.token_type) != (0, t.length, 0, x.length, COMMENT) {
                return Err(format!("parts of a directive do not follow each other: {t:?} {x:?} {y:?}"));
            }
            directive = Some((t.length, x.length));
            len = t.length + x.length + y.length;
            i += 2;
        }
        if joined {
            continue;
        }
        let Some(o) = own[next..].iter().position(|o| o.0 == (line, col)) else {
            return Err(format!("no token of the document (in order) is at {line}:{col}, where token {i} is; {:?}", got.iter().map(|t| (t.delta_line, t.delta_start, t.length, t.token_type)).collect::<Vec<_>>()));
        };
        if let Some(m) = own[next..next + o].iter().find(|o| valid && !joined && o.3) {
            return Err(format!("{:?} at {:?} is not reported", m.4, m.0));
        }
        let o = &own[next + o];
        next = own.iter().position(|x| x.0 == o.0).unwrap() + valid as usize; // (in a broken document one comment can be told for two unfinished things)
        if o.1 != len || !o.2.contains(&t.token_type) {
            return Err(format!("{:?} at {:?} is reported as type {} of length {len}, is one of {:?} of length {}", o.4, o.0, t.token_type, o.2, o.1));
        }
        if let Some((pre, word)) = directive {
            let mut rest = o.4.as_str();
            for want in [pre, word] {
                let cut = (0..=rest.len()).find(|c| rest.is_char_boundary(*c) && measure(k, &rest[..*c]) == want).ok_or("a part of a directive ends inside a character")?;
                if want == word && rest.len() != o.4.len() && !["tombi:", ":tombi", ":schema"].iter().any(|w| rest[..cut].starts_with(w) && rest[..cut].graphemes(true).count() == w.graphemes(true).count()) {
                    return Err(format!("{:?} is reported as the directive of {:?}", &rest[..cut], o.4));
                }
                rest = &rest[cut..];
            }
        }
    }
    match own[next.min(own.len())..].iter().find(|o| valid && !joined && o.3) {
        Some(m) => Err(format!("{:?} at {:?} is not reported", m.4, m.0)),
        None => Ok(()),
    }
}
fn check(w: &World, text: &str) -> Result<(), String> {
    let b = w.service.inner();
    let opts = FormatOptions::default();
    w.rt.block_on(async {
        let formatted = tombi_formatter::Formatter::new(TomlVersion::default(), &opts, None, &w.store).format(text).await.ok();
        for k in [EncodingKind::Utf16, EncodingKind::Utf8, EncodingKind::Utf32] {
            b.capabilities.write().await.encoding_kind = k;
            open(b, &w.url, text).await;
            let t = tokens(b, &w.url).await.ok_or("no semantic tokens")?;
            check_tokens(text, k, &t).map_err(|e| format!("{k:?}: {e}"))?;
            let e = formatting(b, &w.url).await;
            let after = apply(text, k, e.as_deref().unwrap_or(&[])).map_err(|e| format!("{k:?}: {e}"))?;
            let want = formatted.clone().unwrap_or(text.to_string());
            if after != want {
                return Err(format!("{k:?}: the formatting edit gives {after:?}, should be {want:?}"));
            }
            // the server knows the document as the editor has it now
            let t = tokens(b, &w.url).await.ok_or("no semantic tokens")?;
            check_tokens(&want, k, &t).map_err(|e| format!("{k:?}, after formatting: {e}"))?;
            // an edit to something else, and back
            let half = &text[..(0..=text.len() / 2).rev().find(|i| text.is_char_boundary(*i)).unwrap()];
            change(b, &w.url, 1, half).await;
            let h = tokens(b, &w.url).await.ok_or("no semantic tokens")?;
            check_tokens(half, k, &h).map_err(|e| format!("{k:?}, after a change: {e}"))?;
            // to a text of the same shape in bytes: wide characters become several narrow ones
            let narrow: String = text.chars().flat_map(|c| std::iter::repeat_n(if c.is_ascii() { c } else { 'x' }, c.len_utf8())).collect();
            for (i, t) in [text, &narrow].into_iter().enumerate() {
                change(b, &w.url, 2 + i as i32, t).await;
                let n = tokens(b, &w.url).await.ok_or("no semantic tokens")?;
                check_tokens(t, k, &n).map_err(|e| format!("{k:?}, after a change to {t:?}: {e}"))?;
            }
            change(b, &w.url, 4, text).await;
            let u = tokens(b, &w.url).await.ok_or("no semantic tokens")?;
            check_tokens(text, k, &u).map_err(|e| format!("{k:?}, changed back: {e}"))?;
        }
        Ok(())
    })
}
fn main() {
    let mut ctx = Ctx::from_args();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let dir = std::env::temp_dir().join(format!("wit-edits-{}", std::process::id()));
    let (service, socket) = tower_lsp::LspService::new(|client| Backend::new(client, &tombi_lsp::backend::Options { offline: Some(true), no_cache: Some(true) }));
    drop(socket);
    let w = Arc::new(World { rt, service, store: tombi_schema_store::SchemaStore::new(), url: Url::from_file_path(dir.join("a.toml")).unwrap() });
    ctx.generate = Some(Box::new(move |r| {
        let (ml, com) = (r.below(2) == 0, r.below(4) != 0);
        let mut d = G { r, k: 0, ml, com }.doc();
        if r.below(3) == 0 {
            let c = [" #:schema ./a.json", "#:schema  あ.json", "   #:schema x ", "# c\n#:schema file:///x", "#\u{3000}tombi: y", "  #:tombi x", "#tombi:", "# \u{a0}tombi: あ # e"];
            d = format!("{}\n{d}", c[r.below(c.len())]);
        }
        if r.below(4) == 0 {
            // marks that join the character in front
            for c in ["#", "'", "\""] {
                let v: Vec<usize> = d.match_indices(c).map(|m| m.0 + 1).collect();
                if !v.is_empty() && r.below(2) == 0 {
                    d.insert_str(v[r.below(v.len())], ["\u{301}", "\u{200d}x", "\u{308}"][r.below(3)]);
                }
            }
        }
        if r.below(5) == 0 {
            d = d.replace('\n', "\r\n");
        }
        if r.below(4) == 0 {
            // break it: drop or insert something
            let c: Vec<char> = d.chars().collect();
            let i = r.below(c.len() + 1);
            let j = (i + r.below(4)).min(c.len());
            let ins = ["", "\u{301}", "\"", "[", "]", "\n", "=", "🦅", "#", "'''", "}", "\r", ","];
            d = c[..i].iter().collect::<String>() + ins[r.below(ins.len())] + &c[j..].iter().collect::<String>();
        }
        d
    }));
    let frags = strs(&["a", "=", "1", "\"🦅\"", "'x'", "[", "]", "{", "}", ",", "\n", "# c", " ", ".", "#\u{3000}tombi: y", "\"\"\"e\u{301}\n 日 \"\"\"", "\r\n", "#:schema ./あ.json", "#:tombi x"]);
    each_string(&mut ctx, &frags, 4, 4, |ctx, s| ctx.case(s, || check(&w, s)));
    ctx.finish()
}
