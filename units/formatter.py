"""C09: the formatter writes every token and comment of the document, in order, each in a spelling of the same meaning."""
import re
from vgen import *
from shims import *
import toml_text

S = "crates/tombi-formatter/src/"
FM, FF, CM = S + "format.rs", S + "formatter.rs", S + "format/comment.rs"
KY, KV, TY = S + "format/key.rs", S + "format/key_value.rs", S + "types.rs"
VL, ST_, DT, AR, INL = [S + "format/value" + x for x in (".rs", "/string.rs", "/date_time.rs", "/array.rs", "/inline_table.rs")]
TB, AT, RT = S + "format/table.rs", S + "format/array_of_table.rs", S + "format/root.rs"
AST = "crates/tombi-ast/src/"
CF = "crates/tombi-config/src/types/"
DER = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"


# ---------------------------------------------------------------- write! is spelt out: one call per character of the template, one per argument
def _close(s, i):
    d, k = 0, i
    while True:
        c = s[k]
        if c == '"':
            k += 1
            while s[k] != '"':
                k += 2 if s[k] == "\\" else 1
        elif c == "'" and k + 2 < len(s) and s[k + 2] == "'":
            k += 2
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
            if d == 0:
                return k
        k += 1


def _split(s):
    out, cur, d, k = [], "", 0, 0
    while k < len(s):
        c = s[k]
        if c == '"':
            j = k + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur += s[k:j + 1]; k = j + 1
            continue
        if c == "'" and k + 2 < len(s) and s[k + 2] == "'":
            cur += s[k:k + 3]; k += 3
            continue
        if c in "([{": d += 1
        if c in ")]}": d -= 1
        if c == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += c
        k += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def spell(text):
    i = 0
    while True:
        i = text.find("write!(", i)
        if i < 0:
            return text
        e = _close(text, i + 6)
        a = _split(text[i + 7:e])
        new = None
        if len(a) > 1 and a[1].startswith('"'):
            f, fmt, args, body = a[0], a[1][1:-1], a[2:], []
            pos = k = 0
            ok = True
            while pos < len(fmt):
                if fmt.startswith(("{{", "}}"), pos):
                    body.append(f"vx_wc({f}, '{fmt[pos]}');"); pos += 2
                elif fmt[pos] == "{":
                    z = fmt.index("}", pos)
                    nm = fmt[pos + 1:z]
                    pos = z + 1
                    if nm == "" and k < len(args):
                        nm = args[k]; k += 1
                    elif not re.fullmatch(r"[A-Za-z_]\w*", nm):
                        ok = False
                        break
                    body.append(f"let vx_a = &({nm}); vx_w({f}, vx_a);")
                elif fmt[pos] == "\\":
                    body.append(f"vx_wc({f}, '{fmt[pos:pos + 2]}');"); pos += 2
                elif fmt[pos] == "#" and fmt.find("{", pos) > pos + 1:
                    z = fmt.index("{", pos)
                    body.append(f'let vx_a = &("{fmt[pos:z]}"); vx_w({f}, vx_a);'); pos = z
                else:
                    q = "\\'" if fmt[pos] == "'" else fmt[pos]
                    body.append(f"vx_wc({f}, '{q}');"); pos += 1
            if ok:
                new = "({ " + " ".join(body) + " Ok::<(), FmtError>(()) })"
        if new is None:
            i += 1
            continue
        text = text[:i] + new + text[e + 1:]
        i += len(new)


TSPEC = re.sub(r"pub open spec fn okr.*?\n}\n", "", toml_text.SPEC, flags=re.S)


LITS = ["BasicString", "LiteralString", "MultiLineBasicString", "MultiLineLiteralString", "Boolean", "Float", "IntegerBin", "IntegerDec", "IntegerHex", "IntegerOct",
        "LocalDate", "LocalDateTime", "LocalTime", "OffsetDateTime", "BareKey"]
TOKOK = {"BasicString": "quoted(self.l.tok, '\"', 1), !triple(self.l.tok)", "LiteralString": "quoted(self.l.tok, '\\'', 1), !triple(self.l.tok)", "OffsetDateTime": "is_dt(self.l.tok)", "LocalDateTime": "is_dt(self.l.tok)"}
LC = "Seq<LeadingComment>"
TC = "Option<TrailingComment>"


def lit(n):
    return f"""
pub struct {n} {{ pub l: Lit }}
impl {n} {{
    #[verifier::external_body]
    pub fn token(&self) -> (r: Option<SyntaxToken>) ensures r is Some, r->0.t == self.l.tok, word(self.l.tok), {TOKOK.get(n, "true")} {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn leading_comments(&self) -> (r: Vs<LeadingComment>) ensures r@ == self.l.lead, leads_ok(r@) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn trailing_comment(&self) -> (r: Option<TrailingComment>) ensures r == self.l.trail, r is Some ==> com_ok((r->0).0.t) {{ unimplemented!() }}
    #[verifier::external_body]
    pub fn syntax(&self) -> (r: SyntaxNode) ensures r.t == self.l.tok, word(self.l.tok) {{ unimplemented!() }}
}}"""


def node(name, fields, methods):
    out = [f"pub struct {name} {{ " + ", ".join(f"pub {k}: {v}" for k, v in fields) + " }", f"impl {name} {{"]
    for sig, ens in methods:
        out.append(f"    #[verifier::external_body]\n    pub fn {sig} ensures {ens} {{ unimplemented!() }}")
    return "\n".join(out) + "\n}\n"


LEADM = ("leading_comments(&self) -> (r: Vs<LeadingComment>)", "r@ == self.lead, leads_ok(r@)")
TRAILM = ("trailing_comment(&self) -> (r: Option<TrailingComment>)", "r == self.trail, r is Some ==> com_ok((r->0).0.t)")


def trailm(n, f):
    return (f"{n}(&self) -> (r: Option<TrailingComment>)", f"r == self.{f}, r is Some ==> com_ok((r->0).0.t)")


def seqm(n, f, t, extra=""):
    return (f"{n}(&self) -> (r: Vs<{t}>)", f"r@ == self.{f}{extra}")


HEADED = [("header(&self) -> (r: Option<Keys>)", "r == Some(self.header)"), ("header_leading_comments(&self) -> (r: Vs<LeadingComment>)", "r@ == self.lead, leads_ok(r@)"), trailm("header_trailing_comment", "trail"),
          seqm("dangling_comment_groups", "dang", "DanglingCommentGroup"), seqm("key_value_groups", "groups", "Or<KeyValueGroup>"), ("vx_parents(&self, k: KeyIter, t: TomlVersion) -> (r: usize)", "true"), ("key_values(&self) -> (r: Vs<KeyValue>)", "true")]
NODES = "".join([
    node("Comma", [("lead", LC), ("trail", TC)], [LEADM, TRAILM]),
    node("DanglingCommentGroup", [("coms", "Seq<DanglingComment>")], [seqm("comments", "coms", "DanglingComment", ", r@.len() > 0, forall|i: int| 0 <= i < r@.len() ==> com_ok((#[trigger] r@[i]).0.t)")]),
    node("Keys", [("ks", "Seq<Key>")], [("keys(&self) -> (r: KeyIter)", "r@ == self.ks, r@.len() > 0")]),
    node("KeyValue", [("lead", LC), ("ks", "Keys"), ("val", "Value")], [LEADM,
        ("keys(&self) -> (r: Option<Keys>)", "r == Some(self.ks)"), ("value(&self) -> (r: Option<Value>)", "r == Some(self.val)"),
        ("trailing_comment(&self) -> (r: Option<TrailingComment>)", "r == strail(self.val), r is Some ==> com_ok((r->0).0.t)")]),
    node("ValueWithCommaGroup", [("items", "Seq<(Value, Option<Comma>)>")], [seqm("values_with_comma", "items", "(Value, Option<Comma>)"), ("values(&self) -> (r: Vs<Value>)", "true")]),
    node("KeyValueWithCommaGroup", [("items", "Seq<(KeyValue, Option<Comma>)>")], [seqm("key_values_with_comma", "items", "(KeyValue, Option<Comma>)"), ("key_values(&self) -> (r: Vs<KeyValue>)", "true")]),
    node("KeyValueGroup", [("items", "Seq<(KeyValue, Option<Comma>)>")], [seqm("key_values_with_comma", "items", "(KeyValue, Option<Comma>)", ", r@.len() > 0")]),
    node("Array", [("lead", LC), ("start", TC), ("dang", "Seq<DanglingCommentGroup>"), ("groups", "Seq<Or<ValueWithCommaGroup>>"), ("vals", "Seq<Value>"), ("trail", TC)],
         [LEADM, TRAILM, trailm("bracket_start_trailing_comment", "start"), seqm("dangling_comment_groups", "dang", "DanglingCommentGroup"),
          seqm("value_with_comma_groups", "groups", "Or<ValueWithCommaGroup>"), seqm("values", "vals", "Value"),
          ("should_be_multiline(&self, v: TomlVersion) -> (r: bool)", "r == sbm_a(*self, v), !r ==> plain_a(*self)")]),
    node("InlineTable", [("lead", LC), ("start", TC), ("dang", "Seq<DanglingCommentGroup>"), ("groups", "Seq<Or<KeyValueWithCommaGroup>>"), ("kvs", "Seq<KeyValue>"), ("trail", TC)],
         [LEADM, TRAILM, trailm("brace_start_trailing_comment", "start"), seqm("dangling_comment_groups", "dang", "DanglingCommentGroup"),
          seqm("key_value_with_comma_groups", "groups", "Or<KeyValueWithCommaGroup>"), seqm("key_values", "kvs", "KeyValue", ", in_t(*self)"),
          ("should_be_multiline(&self, v: TomlVersion) -> (r: bool)", "r == sbm_t(*self, v), !r ==> quiet_kv(self.kvs), !r && v != TomlVersion::V1_0_0 ==> plain_t(*self)")]),
    node("Table", [("header", "Keys"), ("lead", LC), ("trail", TC), ("dang", "Seq<DanglingCommentGroup>"), ("groups", "Seq<Or<KeyValueGroup>>")], HEADED),
    node("ArrayOfTable", [("header", "Keys"), ("lead", LC), ("trail", TC), ("dang", "Seq<DanglingCommentGroup>"), ("groups", "Seq<Or<KeyValueGroup>>")], HEADED),
    node("Root", [("dang", "Seq<DanglingCommentGroup>"), ("groups", "Seq<Or<KeyValueGroup>>"), ("tables", "Seq<TableOrArrayOfTable>")],
         [seqm("dangling_comment_groups", "dang", "DanglingCommentGroup"), seqm("key_value_groups", "groups", "Or<KeyValueGroup>"), seqm("table_or_array_of_tables", "tables", "TableOrArrayOfTable")]),
])

SPEC = r"""
pub struct FmtError;
// ---------------------------------------------------------------- what a text says, up to spelling
pub enum Mean {
    /// a quoted string: its value, for TOML 1.1 and 1.0
    Str(Option<Seq<char>>, Option<Seq<char>>),
    /// the text itself (date-times: with the delimiter T)
    Raw(Seq<char>),
}
pub enum Piece {
    Word(Mean),
    /// a dotted key
    Keys(Seq<Mean>),
    /// punctuation
    P(char),
    /// a comment, up to the end of its line
    Com(Note),
    /// the end of a line, outside brackets
    Nl,
    Weird(Seq<char>),
}
/// comments that say the same
#[verifier::external_body]
pub struct Note;
pub uninterp spec fn note(t: Seq<char>) -> Note;
/// white space (char::is_whitespace)
pub uninterp spec fn uws(c: char) -> bool;
pub broadcast axiom fn axiom_uws(c: char) ensures c == ' ' || c == '\t' ==> #[trigger] uws(c);
/// the text without white space
pub open spec fn squash(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { squash(s.drop_last()) + (if uws(s.last()) { Seq::<char>::empty() } else { seq![s.last()] }) } }
/// comments that differ in white space only say the same
pub axiom fn axiom_note(a: Seq<char>, b: Seq<char>) requires squash(a) == squash(b), ensures note(a) == note(b);
/// what comes to the same in the content of a comment directive (which is TOML itself)
pub uninterp spec fn directive_ok(content: Seq<char>, out: Seq<char>) -> bool;
pub axiom fn axiom_note_document(c: Seq<char>, o: Seq<char>) requires directive_ok(c, o), ensures note("#:tombi "@ + c) == note("#:tombi "@ + o);
/// a comment `# tombi: CONTENT`
pub uninterp spec fn value_directive(t: Seq<char>, content: Seq<char>) -> bool;
pub axiom fn axiom_note_value(t: Seq<char>, c: Seq<char>, o: Seq<char>) requires value_directive(t, c), directive_ok(c, o), ensures note(t) == note("# tombi: "@ + o);

pub open spec fn triple(t: Seq<char>) -> bool { quoted(t, '"', 3) || quoted(t, '\'', 3) }
pub open spec fn is_dt(t: Seq<char>) -> bool { t.len() > 11 && '0' <= t[0] && t[0] <= '9' && (forall|i: int| 0 <= i < 11 ==> (#[trigger] t[i] as u32) < 0x80) && t[4] == '-' && t[7] == '-' && (t[10] == 'T' || t[10] == 't' || t[10] == ' ') }
pub open spec fn mean(t: Seq<char>) -> Mean {
    if triple(t) { Mean::Raw(t) }
    else if quoted(t, '"', 1) { Mean::Str(dec(body(t, 1), true, false), dec(body(t, 1), false, false)) }
    else if quoted(t, '\'', 1) { Mean::Str(declit(body(t, 1), false), declit(body(t, 1), false)) }
    else if is_dt(t) { Mean::Raw(t.update(10, 'T')) }
    else { Mean::Raw(t) }
}
pub open spec fn means(s: Seq<Seq<char>>) -> Seq<Mean> { s.map_values(|x: Seq<char>| mean(x)) }

// ---------------------------------------------------------------- text written so far, seen as TOML reads it
/// `com`: inside a comment that reads `cur` so far: what comes next, up to a line end, belongs to it
pub struct Tr { pub ps: Seq<Piece>, pub depth: int, pub com: bool, pub cur: Seq<char> }
/// the same with the comment counted in
pub struct St { pub ps: Seq<Piece>, pub depth: int, pub com: bool }
pub open spec fn st(t: Tr) -> St { St { ps: if t.com { t.ps.push(Piece::Com(note(t.cur))) } else { t.ps }, depth: t.depth, com: t.com } }
pub open spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == ' ' || s[i] == '\t' }
pub open spec fn eols(s: Seq<char>) -> bool { s.len() > 0 && s.last() == '\n' && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '\n' || s[i] == '\r' }
pub open spec fn trimmed_of(s: Seq<char>, x: Seq<char>) -> bool { squash(x) == squash(s) && (one_line(s) ==> one_line(x)) && (s.len() > 0 && s[0] == '#' ==> x.len() > 0 && x[0] == '#') }
pub open spec fn strips(s: Seq<char>, p: Seq<char>, rest: Seq<char>) -> bool { s == p + rest }
#[verifier::external_body]
pub fn vx_trim_end<'a>(s: &'a String) -> (r: &'a str) ensures trimmed_of(s@, r@) { s.trim_ascii_end() }
#[verifier::external_body]
pub fn vx_trim<'a>(s: &'a str) -> (r: &'a str) ensures trimmed_of(s@, r@) { s.trim() }
#[verifier::external_body]
pub fn vx_strip<'a>(s: &'a String, p: &str) -> (r: Option<&'a str>) ensures r is Some ==> strips(s@, p@, r->0@) { s.strip_prefix(p) }
/// std::str::Chars: the view is what is left
#[verifier::external_body]
pub struct VxChars<'a> { it: std::str::Chars<'a> }
impl<'a> VxChars<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>) ensures r is None == (old(self)@.len() == 0), r is None ==> final(self)@.len() == 0, r is Some ==> old(self)@ == seq![r->0] + final(self)@ { self.it.next() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { self.it.as_str() }
}
#[verifier::external_body]
pub fn vx_chars<'a>(s: &'a str) -> (r: VxChars<'a>) ensures r@ == s@ { VxChars { it: s.chars() } }
pub open spec fn one_line(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\n' }
pub open spec fn punct(c: char) -> bool { c == '[' || c == ']' || c == '{' || c == '}' || c == ',' || c == '=' }
pub open spec fn word(s: Seq<char>) -> bool { s.len() > 0 && !punct(s[0]) && s[0] != ' ' && s[0] != '\t' && s[0] != '\r' && s[0] != '\n' && s[0] != '#' }
pub open spec fn add_nl(ps: Seq<Piece>, depth: int) -> Seq<Piece> { if depth == 0 && !(ps.len() > 0 && ps.last() is Nl) { ps.push(Piece::Nl) } else { ps } }
pub open spec fn step_str(t: Tr, s: Seq<char>) -> Tr {
    if s.len() == 0 { t }
    else if eols(s) { Tr { ps: add_nl(st(t).ps, t.depth), com: false, ..t } }
    else if t.com { Tr { cur: t.cur + s, ..t } }
    else if blank(s) { t }
    else if s[0] == '#' && one_line(s) { Tr { com: true, cur: s, ..t } }
    else if s.len() == 1 && punct(s[0]) { Tr { ps: t.ps.push(Piece::P(s[0])), depth: deeper(t.depth, s[0]), ..t } }
    else if word(s) { Tr { ps: t.ps.push(Piece::Word(mean(s))), ..t } }
    else { Tr { ps: t.ps.push(Piece::Weird(s)), ..t } }
}
pub open spec fn deeper(d: int, c: char) -> int { if c == '[' || c == '{' { d + 1 } else if c == ']' || c == '}' { d - 1 } else { d } }
pub open spec fn empty_tr() -> Tr { Tr { ps: Seq::empty(), depth: 0, com: false, cur: Seq::empty() } }
#[verifier::external_body]
pub struct Buf { s: String }
impl Buf {
    pub uninterp spec fn view(&self) -> Tr;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok, final(self)@ == step_str(old(self)@, s@) { unimplemented!() }
    /// std::mem::take
    #[verifier::external_body]
    pub fn vx_take(&mut self) -> (r: Buf) ensures r@ == old(self)@, final(self)@ == empty_tr() { unimplemented!() }
    /// a number of characters or columns of it
    #[verifier::external_body]
    pub fn vx_count(&self) -> (r: usize) { unimplemented!() }
}
/// what {} prints
pub trait VxDisp { spec fn out(&self, t: Tr) -> Tr; fn vx_put(&self, b: &mut Buf) ensures final(b)@ == self.out(old(b)@); }
impl VxDisp for String { open spec fn out(&self, t: Tr) -> Tr { step_str(t, self@) } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
impl<'a> VxDisp for &'a str { open spec fn out(&self, t: Tr) -> Tr { step_str(t, self@) } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
impl VxDisp for char { open spec fn out(&self, t: Tr) -> Tr { step_str(t, seq![*self]) } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
impl VxDisp for SyntaxToken { open spec fn out(&self, t: Tr) -> Tr { step_str(t, self.t) } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
impl<'a> VxDisp for Cow<'a> { open spec fn out(&self, t: Tr) -> Tr { step_str(t, self@) } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
/// the parts of a dotted key, joined with dots; blanks behind it
impl VxDisp for KeyText { open spec fn out(&self, t: Tr) -> Tr { if t.com { Tr { ps: t.ps.push(Piece::Weird(Seq::empty())), ..t } } else { Tr { ps: t.ps.push(Piece::Keys(self.parts)), ..t } } } #[verifier::external_body] fn vx_put(&self, b: &mut Buf) { unimplemented!() } }
pub struct KeyText { pub parts: Seq<Mean>, pub w: int }
impl KeyText { #[verifier::external_body] pub fn push_str(&mut self, s: &String) requires blank(s@) ensures final(self).parts == old(self).parts { unimplemented!() } }
#[verifier::external_body]
pub fn vx_join(v: Vec<String>, sep: &str) -> (r: KeyText) requires sep@ == "."@, forall|i: int| 0 <= i < v@.len() ==> word((#[trigger] v@[i])@)  ensures r.parts.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.parts[i] == mean(v@[i]@) { unimplemented!() }
pub open spec fn same_cfg(a: Formatter, b: Formatter) -> bool {
    a.definitions == b.definitions && a.toml_version == b.toml_version && a.skip_comment == b.skip_comment && a.single_line_mode == b.single_line_mode && a.line_ending == b.line_ending
}
impl Formatter {
    /// between nodes: comments are written, blanks are blank, line endings end lines
    pub open spec fn wf(&self) -> bool {
        &&& !self.skip_comment && !self.single_line_mode && eols(self.line_ending@)
        &&& blank(self.definitions.trailing_comment_space@) && blank(self.definitions.key_value_equal_space@) && blank(self.definitions.array_bracket_space@) && blank(self.definitions.array_comma_space@)
        &&& blank(self.definitions.inline_table_brace_space@) && blank(self.definitions.inline_table_comma_space@)
        &&& self.definitions.date_time_delimiter is Some ==> self.definitions.date_time_delimiter->0@ == "T"@ || self.definitions.date_time_delimiter->0@ == " "@
    }
}
pub fn vx_w<T: VxDisp>(f: &mut Formatter, x: &T)
    ensures final(f).buf@ == x.out(old(f).buf@), same_cfg(*old(f), *final(f)),
{ x.vx_put(&mut f.buf); }
#[verifier::external_body]
pub fn vx_putc(b: &mut Buf, c: char) ensures final(b)@ == step_str(old(b)@, seq![c]) { unimplemented!() }
pub fn vx_wc(f: &mut Formatter, c: char)
    ensures final(f).buf@ == step_str(old(f).buf@, seq![c]), same_cfg(*old(f), *final(f)),
{ vx_putc(&mut f.buf, c); }
/// std::borrow::Cow<str>
pub enum Cow<'a> { Borrowed(&'a str), Owned(String) }
impl<'a> Cow<'a> {
    pub open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(s) => s@, Cow::Owned(s) => s@ } }
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}

// ---------------------------------------------------------------- the document: tokens and comments in source order (what the accessors of tombi-ast give)
pub struct SyntaxToken { pub t: Seq<char> }
impl SyntaxToken {
    #[verifier::external_body] pub fn text(&self) -> (r: &str) ensures r@ == self.t { unimplemented!() }
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.t { unimplemented!() }
}
pub struct SyntaxNode { pub t: Seq<char> }
impl SyntaxNode { #[verifier::external_body] pub fn text(&self) -> (r: SyntaxToken) ensures r.t == self.t { unimplemented!() } }
pub struct Comment { pub t: Seq<char> }
impl Comment {
    #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.t { unimplemented!() }
    #[verifier::external_body] pub fn get_tombi_value_directive(&self) -> (r: Option<Directive>) ensures r is Some ==> value_directive(self.t, r->0.content@) { unimplemented!() }
}
pub struct Directive { pub content: String }
pub struct LeadingComment(pub Comment);
pub struct TrailingComment(pub Comment);
pub struct DanglingComment(pub Comment);
impl LeadingComment { pub fn as_ref(&self) -> (r: &Comment) ensures *r == self.0 { &self.0 } }
impl TrailingComment { pub fn as_ref(&self) -> (r: &Comment) ensures *r == self.0 { &self.0 } }
impl DanglingComment { pub fn as_ref(&self) -> (r: &Comment) ensures *r == self.0 { &self.0 } }
pub open spec fn com_ok(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '#' && one_line(t) }
pub open spec fn leads_ok(v: Seq<LeadingComment>) -> bool { forall|i: int| 0 <= i < v.len() ==> com_ok((#[trigger] v[i]).0.t) }
pub struct Lit { pub lead: Seq<LeadingComment>, pub tok: Seq<char>, pub trail: Option<TrailingComment> }
/// std collections that the formatter walks over
pub struct Vs<T> { pub v: Vec<T> }
impl<T> Vs<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn count(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.v.len() == 0 }
    pub fn has_next(&self) -> (r: bool) ensures r == (self@.len() > 0) { self.v.len() > 0 }
    #[verifier::external_body]
    pub fn vx_nth(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
pub struct KeyIter { pub v: Vec<Key> }
impl KeyIter {
    pub open spec fn view(&self) -> Seq<Key> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    #[verifier::external_body]
    pub fn vx_nth(&self, i: usize) -> (r: Key) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, o: &KeyIter) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn same_as(&self, o: &KeyIter) -> bool { unimplemented!() }
}
pub enum Or<T> { DanglingCommentGroup(DanglingCommentGroup), ItemGroup(T) }
/// dangling comments first, then the groups, all written with the same widths
pub struct Groups<T> { pub d: Vs<DanglingCommentGroup>, pub g: Vs<Or<T>>, pub e: Option<AlignmentWidth>, pub t: Option<AlignmentWidth> }
impl<T> Groups<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.d@.len() + self.g@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.d@.len() + self.g@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&self, i: usize) -> (r: Or<WithAlignmentHint<T>>)
        requires i < self.d@.len() + self.g@.len(),
        ensures i < self.d@.len() ==> r == Or::<WithAlignmentHint<T>>::DanglingCommentGroup(self.d@[i as int]),
            i >= self.d@.len() ==> match self.g@[i - self.d@.len()] {
                Or::DanglingCommentGroup(x) => r == Or::<WithAlignmentHint<T>>::DanglingCommentGroup(x),
                Or::ItemGroup(x) => r == Or::<WithAlignmentHint<T>>::ItemGroup(WithAlignmentHint { value: x, equal_alignment_width: self.e, trailing_comment_alignment_width: self.t }) },
    { unimplemented!() }
}
pub fn vx_groups<T>(d: Vs<DanglingCommentGroup>, g: Vs<Or<T>>, e: Option<AlignmentWidth>, t: Option<AlignmentWidth>) -> (r: Groups<T>) ensures r.d == d, r.g == g, r.e == e, r.t == t { Groups { d, g, e, t } }
#[verifier::external_body]
pub fn vx_blank_lines() -> u8 { unimplemented!() }
pub fn vx_min(a: u8, b: u8) -> u8 { if a < b { a } else { b } }
/// sums of text lengths, and of nesting levels, stay below 2^64: memory ends before
#[verifier::external_body]
pub fn vx_add(a: usize, b: usize) -> (r: usize) ensures r == a + b { unimplemented!() }
#[verifier::external_body]
pub fn vx_mul(a: usize, b: usize) -> usize { unimplemented!() }
#[verifier::external_body]
pub fn vx_satsub(a: usize, b: usize) -> usize { a.saturating_sub(b) }
#[verifier::external_body]
pub fn vx_u8_usize(x: u8) -> (r: usize) ensures r == x as usize { unimplemented!() }
#[verifier::external_body]
pub fn vx_repeat(s: &str, n: usize) -> (r: String) ensures blank(s@) ==> blank(r@), eols(s@) && n > 0 ==> eols(r@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_static(s: &String) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }
"""

SPEC2 = r"""
impl Value {
    #[verifier::external_body]
    pub fn trailing_comment(&self) -> (r: Option<TrailingComment>) ensures r == strail(*self), r is Some ==> com_ok((r->0).0.t) { unimplemented!() }
}
pub open spec fn ktok(k: Key) -> Seq<char> { match k { Key::BareKey(x) => x.l.tok, Key::BasicString(x) => x.l.tok, Key::LiteralString(x) => x.l.tok } }
pub open spec fn kparts(k: Keys) -> Seq<Mean> { k.ks.map_values(|x: Key| mean(ktok(x))) }
pub open spec fn lit(v: Value) -> Lit {
    match v {
        LITARMS
        Value::Array(_) => arbitrary(), Value::InlineTable(_) => arbitrary(),
    }
}
pub open spec fn strail(v: Value) -> Option<TrailingComment> { match v { Value::Array(a) => a.trail, Value::InlineTable(t) => t.trail, _ => lit(v).trail } }

// ---------------------------------------------------------------- what a node says: its tokens and comments, in order, appended to what was said before
pub open spec fn nocom(s: St) -> St { St { com: false, ..s } }
pub open spec fn s_p(s: St, c: char) -> St { St { ps: s.ps.push(Piece::P(c)), depth: deeper(s.depth, c), com: false } }
pub open spec fn s_nl(s: St) -> St { St { ps: add_nl(s.ps, s.depth), com: false, ..s } }
pub open spec fn s_word(s: St, t: Seq<char>) -> St { St { ps: s.ps.push(Piece::Word(mean(t))), ..s } }
pub open spec fn s_keys(s: St, k: Keys) -> St { St { ps: s.ps.push(Piece::Keys(kparts(k))), ..s } }
pub open spec fn s_com(s: St, t: Seq<char>) -> St { St { ps: s.ps.push(Piece::Com(note(t))), com: true, ..s } }
pub open spec fn s_leads(s: St, v: Seq<LeadingComment>, n: int) -> St decreases n { if n <= 0 || n > v.len() { s } else { s_nl(s_com(s_leads(s, v, n - 1), v[n - 1].0.t)) } }
pub open spec fn s_lead(s: St, v: Seq<LeadingComment>) -> St { s_leads(s, v, v.len() as int) }
pub open spec fn s_trail(s: St, o: Option<TrailingComment>) -> St { match o { Some(t) => s_com(s, t.0.t), None => s } }
pub open spec fn s_coms(s: St, v: Seq<DanglingComment>, n: int) -> St decreases n { if n <= 0 || n > v.len() { s } else { s_com(if n > 1 { s_nl(s_coms(s, v, n - 1)) } else { s }, v[n - 1].0.t) } }
pub open spec fn s_dang(s: St, g: DanglingCommentGroup) -> St { s_coms(s, g.coms, g.coms.len() as int) }
/// inside brackets
pub open spec fn s_comma(s: St, o: Option<Comma>) -> St { match o { None => s, Some(c) => s_trail(s_p(s_lead(nocom(s), c.lead), ','), c.trail) } }
pub uninterp spec fn sbm_a(a: Array, v: TomlVersion) -> bool;
pub uninterp spec fn sbm_t(t: InlineTable, v: TomlVersion) -> bool;

pub open spec fn s_val(s: St, x: Value, v: TomlVersion) -> St decreases x, 1nat {
    match x {
        Value::Array(a) => s_arr(s, a, v),
        Value::InlineTable(t) => s_tab(s, t, v),
        _ => s_trail(s_word(s_lead(s, lit(x).lead), lit(x).tok), lit(x).trail),
    }
}
/// one line: the values, separated by commas; several lines: every comment and every comma of the source
pub open spec fn s_arr(s: St, a: Array, v: TomlVersion) -> St decreases a, 1nat {
    if sbm_a(a, v) { s_arrm(s, a, v) } else { s_arrs(s, a, v) }
}
pub open spec fn s_arrm(s: St, a: Array, v: TomlVersion) -> St decreases a, 0nat {
    s_trail(s_p(nocom(s_vgs(nocom(s_trail(s_p(s_lead(s, a.lead), '['), a.start)), a.dang, a.groups, (a.dang.len() + a.groups.len()) as int, v)), ']'), a.trail)
}
pub open spec fn s_arrs(s: St, a: Array, v: TomlVersion) -> St decreases a, 0nat {
    s_trail(s_p(s_vals(s_p(s_lead(s, a.lead), '['), a.vals, a.vals.len() as int, v), ']'), a.trail)
}
pub open spec fn s_vals(s: St, x: Seq<Value>, n: int, v: TomlVersion) -> St decreases x, n {
    if n <= 0 || n > x.len() { s } else { s_val(if n > 1 { s_p(nocom(s_vals(s, x, n - 1, v)), ',') } else { s }, x[n - 1], v) }
}
/// dangling comments, then groups; each on a line of its own
pub open spec fn s_vgs(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<ValueWithCommaGroup>>, n: int, v: TomlVersion) -> St decreases g, n {
    if n <= 0 || n > d.len() + g.len() { s }
    else if n <= d.len() { s_dang(nocom(s_vgs(s, d, g, n - 1, v)), d[n - 1]) }
    else { match g[n - 1 - d.len()] { Or::DanglingCommentGroup(x) => s_dang(nocom(s_vgs(s, d, g, n - 1, v)), x), Or::ItemGroup(x) => s_vcs(nocom(s_vgs(s, d, g, n - 1, v)), x.items, x.items.len() as int, v) } }
}
pub open spec fn s_vcs(s: St, x: Seq<(Value, Option<Comma>)>, n: int, v: TomlVersion) -> St decreases x, n {
    if n <= 0 || n > x.len() { s } else { s_comma(s_val(nocom(s_vcs(s, x, n - 1, v)), x[n - 1].0, v), x[n - 1].1) }
}
pub open spec fn s_kv(s: St, k: KeyValue, v: TomlVersion) -> St decreases k, 0nat { s_val(s_p(s_keys(s_lead(s, k.lead), k.ks), '='), k.val, v) }
pub open spec fn s_tab(s: St, t: InlineTable, v: TomlVersion) -> St decreases t, 1nat {
    if sbm_t(t, v) { s_tabm(s, t, v) } else { s_tabs(s, t, v) }
}
pub open spec fn s_tabm(s: St, t: InlineTable, v: TomlVersion) -> St decreases t, 0nat {
    s_trail(s_p(nocom(s_kgs(nocom(s_trail(s_p(s_lead(s, t.lead), '{'), t.start)), t.dang, t.groups, (t.dang.len() + t.groups.len()) as int, v)), '}'), t.trail)
}
pub open spec fn s_tabs(s: St, t: InlineTable, v: TomlVersion) -> St decreases t, 0nat {
    s_trail(s_p(s_kvs(s_p(s_lead(s, t.lead), '{'), t.kvs, t.kvs.len() as int, v), '}'), t.trail)
}
pub open spec fn s_kvs(s: St, x: Seq<KeyValue>, n: int, v: TomlVersion) -> St decreases x, n {
    if n <= 0 || n > x.len() { s } else { s_kv(if n > 1 { s_p(nocom(s_kvs(s, x, n - 1, v)), ',') } else { s }, x[n - 1], v) }
}
pub open spec fn s_kgs(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<KeyValueWithCommaGroup>>, n: int, v: TomlVersion) -> St decreases g, n {
    if n <= 0 || n > d.len() + g.len() { s }
    else if n <= d.len() { s_dang(nocom(s_kgs(s, d, g, n - 1, v)), d[n - 1]) }
    else { match g[n - 1 - d.len()] { Or::DanglingCommentGroup(x) => s_dang(nocom(s_kgs(s, d, g, n - 1, v)), x), Or::ItemGroup(x) => s_kcs(nocom(s_kgs(s, d, g, n - 1, v)), x.items, x.items.len() as int, v) } }
}
pub open spec fn s_kcs(s: St, x: Seq<(KeyValue, Option<Comma>)>, n: int, v: TomlVersion) -> St decreases x, n {
    if n <= 0 || n > x.len() { s } else { s_comma(s_kv(nocom(s_kcs(s, x, n - 1, v)), x[n - 1].0, v), x[n - 1].1) }
}
// outside brackets: one statement a line; a comma (TOML allows none) is kept where comments hang on it
pub open spec fn s_rcomma(s: St, k: KeyValue, o: Option<Comma>) -> St {
    match o { None => s, Some(c) =>
        if c.lead.len() == 0 && (c.trail is None || strail(k.val) is None) { s_trail(s, c.trail) }
        else { s_trail(s_p(s_lead(s_nl(s), c.lead), ','), c.trail) } }
}
pub open spec fn s_stms(s: St, x: Seq<(KeyValue, Option<Comma>)>, n: int, v: TomlVersion) -> St decreases n {
    if n <= 0 || n > x.len() { s } else { s_rcomma(s_kv(if n > 1 { s_nl(s_stms(s, x, n - 1, v)) } else { s }, x[n - 1].0, v), x[n - 1].0, x[n - 1].1) }
}
pub open spec fn s_sgs(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<KeyValueGroup>>, n: int, v: TomlVersion) -> St decreases n {
    if n <= 0 || n > d.len() + g.len() { s }
    else {
        let p = if n > 1 { s_nl(s_sgs(s, d, g, n - 1, v)) } else { s };
        if n <= d.len() { s_dang(p, d[n - 1]) }
        else { match g[n - 1 - d.len()] { Or::DanglingCommentGroup(x) => s_dang(p, x), Or::ItemGroup(x) => s_stms(p, x.items, x.items.len() as int, v) } }
    }
}
pub open spec fn s_body(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<KeyValueGroup>>, v: TomlVersion) -> St {
    if d.len() + g.len() == 0 { s } else { s_sgs(s_nl(s), d, g, (d.len() + g.len()) as int, v) }
}
pub open spec fn s_table(s: St, t: Table, v: TomlVersion) -> St { s_body(s_trail(s_p(s_keys(s_p(s_lead(s, t.lead), '['), t.header), ']'), t.trail), t.dang, t.groups, v) }
pub open spec fn s_aot(s: St, t: ArrayOfTable, v: TomlVersion) -> St { s_body(s_trail(s_p(s_p(s_keys(s_p(s_p(s_lead(s, t.lead), '['), '['), t.header), ']'), ']'), t.trail), t.dang, t.groups, v) }
pub open spec fn s_tables(s: St, x: Seq<TableOrArrayOfTable>, n: int, v: TomlVersion) -> St decreases n {
    if n <= 0 || n > x.len() { s }
    else {
        let p = if n > 1 { s_nl(s_tables(s, x, n - 1, v)) } else { s };
        match x[n - 1] { TableOrArrayOfTable::Table(t) => s_table(p, t, v), TableOrArrayOfTable::ArrayOfTable(t) => s_aot(p, t, v) }
    }
}
pub open spec fn s_root(s: St, r: Root, v: TomlVersion) -> St {
    let g = s_sgs(s, r.dang, r.groups, (r.dang.len() + r.groups.len()) as int, v);
    s_tables(if r.dang.len() + r.groups.len() > 0 && r.tables.len() > 0 { s_nl(g) } else { g }, r.tables, r.tables.len() as int, v)
}

// ---------------------------------------------------------------- nothing inside that needs several lines: both forms say the same
pub open spec fn quiet_v(x: Seq<Value>) -> bool { forall|i: int| 0 <= i < x.len() ==> strail(#[trigger] x[i]) is None }
pub open spec fn quiet_kv(x: Seq<KeyValue>) -> bool { forall|i: int| 0 <= i < x.len() ==> strail((#[trigger] x[i]).val) is None }
pub open spec fn no_com(c: Option<Comma>) -> bool { c is Some && c->0.lead.len() == 0 && c->0.trail is None }
/// the items of the first n groups
pub open spec fn vflat(g: Seq<Or<ValueWithCommaGroup>>, n: int) -> Seq<(Value, Option<Comma>)> decreases n { if n <= 0 || n > g.len() { Seq::empty() } else { vflat(g, n - 1) + match g[n - 1] { Or::ItemGroup(x) => x.items, _ => Seq::empty() } } }
pub open spec fn kflat(g: Seq<Or<KeyValueWithCommaGroup>>, n: int) -> Seq<(KeyValue, Option<Comma>)> decreases n { if n <= 0 || n > g.len() { Seq::empty() } else { kflat(g, n - 1) + match g[n - 1] { Or::ItemGroup(x) => x.items, _ => Seq::empty() } } }
pub open spec fn listed<T>(f: Seq<(T, Option<Comma>)>, x: Seq<T>) -> bool {
    &&& f.len() == x.len()
    &&& forall|i: int| 0 <= i < f.len() ==> (#[trigger] f[i]).0 == x[i]
    &&& forall|i: int| 0 <= i < f.len() - 1 ==> no_com((#[trigger] f[i]).1)
    &&& f.len() > 0 ==> f.last().1 is None
}
pub open spec fn plain_a(a: Array) -> bool {
    &&& a.start is None && a.dang.len() == 0 && quiet_v(a.vals)
    &&& forall|i: int| 0 <= i < a.groups.len() ==> (#[trigger] a.groups[i]) is ItemGroup
    &&& listed(vflat(a.groups, a.groups.len() as int), a.vals)
}
pub open spec fn plain_t(t: InlineTable) -> bool {
    &&& t.start is None && t.dang.len() == 0
    &&& forall|i: int| 0 <= i < t.groups.len() ==> (#[trigger] t.groups[i]) is ItemGroup
    &&& listed(kflat(t.groups, t.groups.len() as int), t.kvs)
}
/// key_values() gives exactly the items of the groups
pub open spec fn in_t(t: InlineTable) -> bool { forall|g: int, i: int| 0 <= g < t.groups.len() && t.groups[g] is ItemGroup && 0 <= i < t.groups[g]->ItemGroup_0.items.len() ==> t.kvs.contains((#[trigger] t.groups[g]->ItemGroup_0.items[i]).0) }
"""


SPEC2 = SPEC2.replace("LITARMS", "\n        ".join(f"Value::{n}(x) => x.l," for n in LITS if n != "BareKey"))
LEM = r"""
pub proof fn lemma_squash_add(a: Seq<char>, b: Seq<char>)
    ensures squash(a + b) == squash(a) + squash(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(squash(a) + squash(b) =~= squash(a)); }
    else { lemma_squash_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last());
        assert(squash(a + b) =~= squash(a) + squash(b)); }
}
pub proof fn lemma_squash_one(c: char)
    ensures squash(seq![c]) == (if uws(c) { Seq::<char>::empty() } else { seq![c] }),
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(squash(Seq::<char>::empty()) =~= Seq::<char>::empty()); assert(squash(seq![c]) =~= (if uws(c) { Seq::<char>::empty() } else { seq![c] })); }
/// nothing to decode
pub proof fn lemma_plain(b: Seq<char>, v11: bool)
    requires forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] != '\\',
    ensures dec(b, v11, false) == declit(b, false),
    decreases b.len(),
{
    if b.len() == 0 { lemma_dec_empty(b, v11, false); }
    else { lemma_dec_unfold(b, v11, false); lemma_plain(b.skip(1), v11); }
}
pub proof fn lemma_first_ascii(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 0x80,
    ensures blen(s.take(n)) == n, is_bound(s, n), cidx(s, n) == n,
    decreases n,
{
    if n > 0 { lemma_first_ascii(s, n - 1); lemma_blen_mono(s, n - 1, n); assert(s.subrange(n - 1, n) =~= seq![s[n - 1]]); lemma_blen_one(s[n - 1]); } else { assert(s.take(0) =~= Seq::<char>::empty()); assert(blen(s.take(0)) == 0); }
    lemma_cidx(s, n);
}
/// both quotes are one byte
pub proof fn lemma_quoted(s: Seq<char>, q: char)
    requires quoted(s, q, 1), (q as u32) < 0x80,
    ensures blen(s.take(1)) == 1, blen(s.take(s.len() - 1)) + 1 == blen(s), blen(s) >= 2, is_bound(s, 1), is_bound(s, blen(s) - 1), cidx(s, 1) == 1, cidx(s, blen(s) - 1) == s.len() - 1,
{
    lemma_first_ascii(s, 1); lemma_blen_mono(s, s.len() - 1, s.len() as int); assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![s.last()]); lemma_blen_one(s.last()); assert(s.take(s.len() as int) =~= s); lemma_cidx(s, s.len() - 1); lemma_blen_ge(s);
}
/// another delimiter, the same string
pub proof fn lemma_requote(t: Seq<char>, a: char, r: Seq<char>, b: char)
    requires quoted(t, a, 1), !triple(t), a == '"' || a == '\'', b == '"' || b == '\'', forall|i: int| 1 <= i < t.len() - 1 ==> t[i] != '\\' && #[trigger] t[i] != b,
        r == seq![b] + body(t, 1) + seq![b],
    ensures mean(r) == mean(t), word(r),
{
    let m = body(t, 1);
    assert(r.len() == t.len() && r[0] == b && r.last() == b);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] != '\\' && m[i] != b by { assert(m[i] == t[i + 1]); }
    assert forall|i: int| 1 <= i < r.len() - 1 implies #[trigger] r[i] != b by { assert(r[i] == m[i - 1]); }
    assert(body(r, 1) =~= m);
    assert(!triple(r)) by { if r.len() >= 6 { assert(r[1] != b); } }
    lemma_plain(m, true); lemma_plain(m, false);
}
pub proof fn lemma_dt(t: Seq<char>, r: Seq<char>, d: char)
    requires is_dt(t), d == 'T' || d == ' ', r == t.update(10, d),
    ensures mean(r) == mean(t), word(r),
{
    assert(r.len() == t.len() && r[0] == t[0]);
    assert(is_dt(r)) by { assert forall|i: int| 0 <= i < 11 implies (#[trigger] r[i] as u32) < 0x80 by { if i != 10 { assert(r[i] == t[i]); } } }
    assert(r.update(10, 'T') =~= t.update(10, 'T'));
}
// one line or several: the same is said
pub proof fn lemma_vcs_add(s: St, a: Seq<(Value, Option<Comma>)>, b: Seq<(Value, Option<Comma>)>, n: int, v: TomlVersion)
    requires 0 <= n <= b.len(),
    ensures nocom(s_vcs(nocom(s_vcs(s, a, a.len() as int, v)), b, n, v)) == nocom(s_vcs(s, a + b, a.len() + n, v)),
    decreases n,
{
    if n == 0 { lemma_vcs_prefix(s, a, b, a.len() as int, v); }
    else { lemma_vcs_add(s, a, b, n - 1, v); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
}
pub proof fn lemma_vcs_prefix(s: St, a: Seq<(Value, Option<Comma>)>, b: Seq<(Value, Option<Comma>)>, n: int, v: TomlVersion)
    requires 0 <= n <= a.len(),
    ensures s_vcs(s, a, n, v) == s_vcs(s, a + b, n, v),
    decreases n,
{ if n > 0 { lemma_vcs_prefix(s, a, b, n - 1, v); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn lemma_vgs(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<ValueWithCommaGroup>>, n: int, v: TomlVersion)
    requires d.len() == 0, 0 <= n <= g.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]) is ItemGroup,
    ensures nocom(s_vgs(s, d, g, n, v)) == nocom(s_vcs(s, vflat(g, n), vflat(g, n).len() as int, v)),
    decreases n,
{
    if n > 0 { lemma_vgs(s, d, g, n - 1, v); assert(g[n - 1] is ItemGroup); let x = g[n - 1]->ItemGroup_0.items; lemma_vcs_add(s, vflat(g, n - 1), x, x.len() as int, v); }
}
pub proof fn lemma_vlist(s: St, f: Seq<(Value, Option<Comma>)>, x: Seq<Value>, n: int, v: TomlVersion)
    requires !s.com, listed(f, x), 0 <= n <= x.len(),
    ensures n == 0 ==> s_vcs(s, f, n, v) == s, 0 < n < x.len() ==> s_vcs(s, f, n, v) == s_p(nocom(s_vals(s, x, n, v)), ','), n > 0 && n == x.len() ==> s_vcs(s, f, n, v) == s_vals(s, x, n, v),
    decreases n,
{
    if n > 0 { lemma_vlist(s, f, x, n - 1, v); assert(f[n - 1].0 == x[n - 1]); if n < x.len() { assert(no_com(f[n - 1].1)); } assert(nocom(s) == s);
        if n < x.len() { let w = s_val(nocom(s_vcs(s, f, n - 1, v)), x[n - 1], v); let c = f[n - 1].1->0; assert(s_leads(nocom(w), c.lead, 0) == nocom(w)); } }
}
pub proof fn lemma_plain_a(s: St, a: Array, v: TomlVersion)
    requires plain_a(a), a.lead.len() > 0 || !s.com,
    ensures s_arrm(s, a, v) == s_arrs(s, a, v),
{
    let s1 = s_p(s_lead(s, a.lead), '[');
    let n = a.groups.len() as int;
    assert(nocom(s1) == s1);
    lemma_vgs(s1, a.dang, a.groups, n, v);
    let f = vflat(a.groups, n);
    lemma_vlist(s1, f, a.vals, f.len() as int, v);
    if f.len() == 0 { assert(s_vcs(s1, f, 0, v) == s1); assert(s_vals(s1, a.vals, 0, v) == s1); }
}
pub proof fn lemma_kcs_add(s: St, a: Seq<(KeyValue, Option<Comma>)>, b: Seq<(KeyValue, Option<Comma>)>, n: int, v: TomlVersion)
    requires 0 <= n <= b.len(),
    ensures nocom(s_kcs(nocom(s_kcs(s, a, a.len() as int, v)), b, n, v)) == nocom(s_kcs(s, a + b, a.len() + n, v)),
    decreases n,
{
    if n == 0 { lemma_kcs_prefix(s, a, b, a.len() as int, v); }
    else { lemma_kcs_add(s, a, b, n - 1, v); assert((a + b)[a.len() + n - 1] == b[n - 1]); }
}
pub proof fn lemma_kcs_prefix(s: St, a: Seq<(KeyValue, Option<Comma>)>, b: Seq<(KeyValue, Option<Comma>)>, n: int, v: TomlVersion)
    requires 0 <= n <= a.len(),
    ensures s_kcs(s, a, n, v) == s_kcs(s, a + b, n, v),
    decreases n,
{ if n > 0 { lemma_kcs_prefix(s, a, b, n - 1, v); assert((a + b)[n - 1] == a[n - 1]); } }
pub proof fn lemma_kgs(s: St, d: Seq<DanglingCommentGroup>, g: Seq<Or<KeyValueWithCommaGroup>>, n: int, v: TomlVersion)
    requires d.len() == 0, 0 <= n <= g.len(), forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]) is ItemGroup,
    ensures nocom(s_kgs(s, d, g, n, v)) == nocom(s_kcs(s, kflat(g, n), kflat(g, n).len() as int, v)),
    decreases n,
{
    if n > 0 { lemma_kgs(s, d, g, n - 1, v); assert(g[n - 1] is ItemGroup); let x = g[n - 1]->ItemGroup_0.items; lemma_kcs_add(s, kflat(g, n - 1), x, x.len() as int, v); }
}
pub proof fn lemma_klist(s: St, f: Seq<(KeyValue, Option<Comma>)>, x: Seq<KeyValue>, n: int, v: TomlVersion)
    requires !s.com, listed(f, x), 0 <= n <= x.len(),
    ensures n == 0 ==> s_kcs(s, f, n, v) == s, 0 < n < x.len() ==> s_kcs(s, f, n, v) == s_p(nocom(s_kvs(s, x, n, v)), ','), n > 0 && n == x.len() ==> s_kcs(s, f, n, v) == s_kvs(s, x, n, v),
    decreases n,
{
    if n > 0 { lemma_klist(s, f, x, n - 1, v); assert(f[n - 1].0 == x[n - 1]); if n < x.len() { assert(no_com(f[n - 1].1)); } assert(nocom(s) == s);
        if n < x.len() { let w = s_kv(nocom(s_kcs(s, f, n - 1, v)), x[n - 1], v); let c = f[n - 1].1->0; assert(s_leads(nocom(w), c.lead, 0) == nocom(w)); } }
}
pub proof fn lemma_plain_t(s: St, t: InlineTable, v: TomlVersion)
    requires plain_t(t), t.lead.len() > 0 || !s.com,
    ensures s_tabm(s, t, v) == s_tabs(s, t, v),
{
    let s1 = s_p(s_lead(s, t.lead), '{');
    let n = t.groups.len() as int;
    assert(nocom(s1) == s1);
    lemma_kgs(s1, t.dang, t.groups, n, v);
    let f = kflat(t.groups, n);
    lemma_klist(s1, f, t.kvs, f.len() as int, v);
    if f.len() == 0 { assert(s_kcs(s1, f, 0, v) == s1); assert(s_kvs(s1, t.kvs, 0, v) == s1); }
}
pub proof fn lemma_leads(s: St, v: Seq<LeadingComment>, n: int)
    ensures s_leads(s, v, n).depth == s.depth, !s.com ==> !s_leads(s, v, n).com,
    decreases n,
{ if n > 0 && n <= v.len() { lemma_leads(s, v, n - 1); } }
"""
LEM2 = r"""
/// a comment half written: `rest` of `src` is still to come
pub open spec fn mid(o: Tr, t: Tr, src: Seq<char>, rest: Seq<char>) -> bool { t.com && t.ps == o.ps && t.depth == o.depth && !o.com && one_line(rest) && squash(t.cur) + squash(rest) == squash(src) }
pub broadcast proof fn lemma_start(o: Tr, src: Seq<char>, c: char, rest: Seq<char>)
    requires !o.com, com_ok(src), #[trigger] trimmed_of(src, seq![c] + rest),
    ensures mid(o, #[trigger] step_str(o, seq![c]), src, rest),
{
    let x = seq![c] + rest; assert(x[0] == c && c == '#'); assert(seq![c].last() == c);
    assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] != '\n' by { assert(x[i + 1] == rest[i]); }
    lemma_squash_add(seq![c], rest);
}
pub broadcast proof fn lemma_put(o: Tr, t: Tr, src: Seq<char>, c: char, rest: Seq<char>)
    requires #[trigger] mid(o, t, src, seq![c] + rest),
    ensures mid(o, step_str(t, seq![c]), src, rest), c == ' ' || c == '\t' ==> mid(o, t, src, rest),
{
    broadcast use axiom_uws;
    let x = seq![c] + rest; assert(x[0] == c && c != '\n'); assert(seq![c].last() == c);
    assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] != '\n' by { assert(x[i + 1] == rest[i]); }
    lemma_squash_add(seq![c], rest); lemma_squash_add(t.cur, seq![c]); lemma_squash_one(c);
    assert(squash(t.cur) + (squash(seq![c]) + squash(rest)) =~= (squash(t.cur) + squash(seq![c])) + squash(rest));
    if c == ' ' || c == '\t' { assert(uws(c)); assert(squash(seq![c]) + squash(rest) =~= squash(rest)); }
}
pub broadcast proof fn lemma_sp(o: Tr, t: Tr, src: Seq<char>, rest: Seq<char>)
    requires #[trigger] mid(o, t, src, rest),
    ensures mid(o, #[trigger] step_str(t, seq![' ']), src, rest),
{
    broadcast use axiom_uws;
    assert(uws(' ')); assert(seq![' '].last() == ' '); lemma_squash_one(' '); lemma_squash_add(t.cur, seq![' ']); assert(squash(t.cur) + Seq::<char>::empty() =~= squash(t.cur));
}
pub broadcast proof fn lemma_rest(o: Tr, t: Tr, src: Seq<char>, rest: Seq<char>)
    requires #[trigger] mid(o, t, src, rest),
    ensures st(#[trigger] step_str(t, rest)) == s_com(st(o), src), step_str(t, rest).depth == o.depth,
{
    if rest.len() == 0 { assert(squash(t.cur) + squash(rest) =~= squash(t.cur)); axiom_note(t.cur, src); }
    else { assert(rest.last() != '\n'); lemma_squash_add(t.cur, rest); axiom_note(t.cur + rest, src); }
}
pub broadcast proof fn lemma_done(o: Tr, t: Tr, src: Seq<char>, rest: Seq<char>)
    requires #[trigger] mid(o, t, src, rest), rest.len() == 0,
    ensures st(t) == s_com(st(o), src), t.depth == o.depth,
{ assert(squash(t.cur) + squash(rest) =~= squash(t.cur)); axiom_note(t.cur, src); }
/// a prefix, then what follows it
pub broadcast proof fn lemma_template(o: Tr, p: Seq<char>, x: Seq<char>)
    requires !o.com, com_ok(p), one_line(x),
    ensures st(#[trigger] step_str(step_str(o, p), x)) == s_com(st(o), p + x), step_str(step_str(o, p), x).depth == o.depth,
{ assert(p.last() != '\n'); if x.len() == 0 { assert(p + x =~= p); } else { assert(x.last() != '\n'); } }
pub broadcast proof fn lemma_stripped(src: Seq<char>, p: Seq<char>, rest: Seq<char>, x: Seq<char>)
    requires #[trigger] strips(src, p, rest), com_ok(src), #[trigger] trimmed_of(rest, x),
    ensures note(p + x) == note(src), one_line(x),
{ lemma_squash_add(p, rest); lemma_squash_add(p, x); axiom_note(p + x, src); assert forall|i: int| 0 <= i < rest.len() implies #[trigger] rest[i] != '\n' by { assert(src[i + p.len()] == rest[i]); } }
"""
COMF = dict(entry="""broadcast use lemma_start, lemma_put, lemma_sp, lemma_rest, lemma_done, lemma_template, lemma_stripped;
proof { reveal_strlit("#:schema "); reveal_strlit("#:tombi "); reveal_strlit("# tombi: "); assert(com_ok("#:schema "@) && com_ok("#:tombi "@) && com_ok("# tombi: "@)); assert(comment.t.last() != '\\n');
    if exists|c: Seq<char>, o: Seq<char>| #[trigger] directive_ok(c, o) {} }""",
    rewrites=[("comment_string.trim_ascii_end().chars()", "vx_chars(vx_trim_end(&comment_string))"), ("comment_string.trim_ascii_end()", "vx_trim_end(&comment_string)"), ("comment_string.strip_prefix($p)", "vx_strip(&comment_string, $p)"), ("schema_uri.trim()", "vx_trim(schema_uri)"),
              ("for c in iter.by_ref() { $$b }", "while let Some(c) = iter.next() { $$b }")])
RWU = [
    ("std::fmt::Error", "FmtError"), ("std::fmt::Result", "Result<(), FmtError>"), ("pub(crate)", "pub"), ("pub const fn", "pub fn"), ("const fn", "fn"),
    ("crate::FormatDefinitions", "FormatDefinitions"), ("crate::Formatter", "Formatter"), ("tombi_ast::$x", "$x"), ("tombi_config::$x", "$x"), ("DanglingCommentGroupOr", "Or"),
    ("usize::from($e)", "($e as usize)"),
    (".collect_vec()", ""), (".enumerate().peekable()", ""), (".peekable()", ""), (".peek().is_none()", ".is_empty()"), (".next().is_some()", ".has_next()"),
    (".graphemes(true).count()", ".vx_count()"),
    ("blank_lines_before($$a).min($$b)", "vx_min(vx_blank_lines(), $$b)"),
    ("std::mem::take(&mut self.buf)", "self.buf.vx_take()"),
    ("unsafe { std::mem::transmute::<$$t>(&$$e) }", "vx_static(&$$e)"),
    ("($$a).saturating_sub($$b)", "vx_satsub($$a, $$b)"),
    ("for ($i, ($x, $y)) in $a.iter().enumerate() { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let vx_p = vx_v.vx_nth(vx_i); vx_i += 1; let ($x, $y) = (&vx_p.0, &vx_p.1); $$b }"),
    ("for ($i, $x) in $a.iter().enumerate() { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for ($i, $x) in $a.$m().enumerate() { $$b }", "let vx_v = $a.$m(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for ($i, $x) in $a.enumerate() { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for ($i, $x) in $a { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for _ in 0..$a.$m() { $$b }", "let vx_n = $a.$m(); let mut vx_k: u8 = 0; while vx_k < vx_n { vx_k += 1; $$b }"),
    ("for $x in $a.$m() { $$b }", "let vx_v = $a.$m(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for $x in $a { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $x = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
]
RWU += [r for r in RWU if r[0].startswith("for ")] * 2
RECURSIVE = "#[verifier::exec_allows_no_decreases_clause]"
OLD, S0, V = "old(f)", "st(old(f).buf@)", "old(f).toml_version"
REQ = "old(f).wf(), !st(old(f).buf@).com, old(f).buf@.depth >= 0"
KEEP = "final(f).wf(), same_cfg(*old(f), *final(f)), final(f).buf@.depth == old(f).buf@.depth"
NLI = f"f.wf(), same_cfg(*old(f), *f), vx_i <= vx_v@.len(),"


def post(x, com="false"):
    return f"r is Ok, {KEEP}, st(final(f).buf@) == {x}, st(final(f).buf@).com == ({com})"


def WAH(t):
    return f"impl WithAlignmentHint<&{t}>"


HINT = ("vx_h: &WithAlignmentHint<&$$t>, f: $$r")


def hint(t, v):
    return [("WithAlignmentHint { value: $v, trailing_comment_alignment_width, .. }: &WithAlignmentHint<&$$t>,", f"vx_h: &WithAlignmentHint<&{t}>,")], f"let {v} = vx_h.value; let trailing_comment_alignment_width = &vx_h.trailing_comment_alignment_width;"


CFGT = [Raw(CF + f, e, attrs=DER) for f, e in [("indent_style.rs", "enum IndentStyle"), ("comment_style.rs", "enum CommentStyle"), ("string_quote_style.rs", "enum StringQuoteStyle"), ("line_ending.rs", "enum LineEnding")]]
FLD = ["toml_version", "indent_depth", "skip_indent", "skip_comment", "single_line_mode", "definitions", "line_ending", "buf"]
TYPES = [
    Raw("crates/tombi-toml-version/src/lib.rs", "macro define_toml_version / enum TomlVersion", rewrites=[("=> $v,", ",")], attrs=DER)] + CFGT + [
    Raw(FF, "struct Formatter", rewrites=[("Formatter<'a>", "Formatter"), ("source_uri_or_path: Option<$$x>>,", ""), ("schema_store: $$x,", ""), ("buf: String", "buf: Buf"), ("line_ending: &'static str", "pub line_ending: &'static str"), ("crate::FormatDefinitions", "FormatDefinitions")] + [(f"{n}: ", f"pub {n}: ") for n in FLD if n not in ("line_ending",)]),
    Raw(S + "formatter/definitions.rs", "struct FormatDefinitions", rewrites=[("tombi_config::", "")]),
    Raw(S + "types/alignment_width.rs", "struct AlignmentWidth", attrs=DER, rewrites=[("AlignmentWidth(u32)", "AlignmentWidth(pub u32)")]),
    Raw(TY, "struct WithAlignmentHint"),
    Raw(AST + "generated/ast_node.rs", "enum Value"), Raw(AST + "generated/ast_node.rs", "enum Key"), Raw(AST + "node/table_or_array_of_table.rs", "enum TableOrArrayOfTable"),
    Raw(RT, "enum Header", rewrites=[("tombi_ast::AstChildren<tombi_ast::Key>", "KeyIter")]),
]
GET = [Fn(FF, f"Formatter::{n}", header="impl Formatter", ensures=e) for n, e in [
    ("toml_version", "r == self.toml_version"), ("skip_comment", "r == self.skip_comment"), ("single_line_mode", "r == self.single_line_mode"), ("line_width", "r == self.definitions.line_width"),
    ("line_ending", "r@ == self.line_ending@"), ("group_blank_lines_limit", "true"), ("table_blank_lines", "true"), ("indent_sub_tables", "r == self.definitions.indent_sub_tables"), ("indent_table_key_values", "r == self.definitions.indent_table_key_values"),
    ("key_value_equal_space", "r@ == self.definitions.key_value_equal_space@"), ("trailing_comment_space", "r@ == self.definitions.trailing_comment_space@"), ("string_quote_style", "r == self.definitions.string_quote_style"),
    ("comment_style", "r == self.definitions.comment_style"), ("key_quote_style", "r == self.definitions.key_quote_style"), ("array_bracket_space", "r@ == self.definitions.array_bracket_space@"),
    ("array_comma_space", "r@ == self.definitions.array_comma_space@"), ("inline_table_brace_space", "r@ == self.definitions.inline_table_brace_space@"), ("inline_table_comma_space", "r@ == self.definitions.inline_table_comma_space@")]]
GET.append(Fn(FF, "Formatter::date_time_delimiter", header="impl Formatter", ensures="r is Some == self.definitions.date_time_delimiter is Some, r is Some ==> r->0@ == self.definitions.date_time_delimiter->0@"))
MK = dict(header="impl Formatter", pre=spell)
SK = "final(self).wf(), same_cfg(*old(self), *final(self)), final(self).buf@.depth == old(self).buf@.depth"
SREQ = "old(self).wf()"
SAME = "final(self).buf@ == old(self).buf@"
PRIM = [
    Fn(FF, "std::fmt::Write for Formatter::write_str", header="impl Formatter", ensures="r is Ok, same_cfg(*old(self), *final(self)), final(self).buf@ == step_str(old(self).buf@, s@)"),
    Fn(FF, "Formatter::reset", **MK, requires=SREQ, ensures=f"{SK}, {SAME}"),
    Fn(FF, "Formatter::reset_indent", **MK, requires=SREQ, ensures=f"{SK}, {SAME}"),
    Fn(FF, "Formatter::skip_indent", **MK, requires=SREQ, ensures=f"{SK}, {SAME}", rename="set_skip_indent"),
    Fn(FF, "Formatter::inc_indent", **MK, requires=SREQ, ensures=f"{SK}, {SAME}", rewrites=[("self.indent_depth += $$e;", "self.indent_depth = vx_add(self.indent_depth, $$e);")]),
    Fn(FF, "Formatter::dec_indent", **MK, requires=SREQ, ensures=f"{SK}, {SAME}", rewrites=[("self.indent_depth.saturating_sub($$e)", "vx_satsub(self.indent_depth, $$e)")]),
    Fn(FF, "Formatter::write_line_ending", **MK, requires=SREQ, ensures=f"r is Ok, {SK}, st(final(self).buf@) == s_nl(st(old(self).buf@))"),
    Fn(FF, "Formatter::write_blank_lines", **MK, requires=SREQ, ensures=f"r is Ok, {SK}, st(final(self).buf@) == s_nl(st(old(self).buf@))", rewrites=[("usize::from($$x)", "vx_u8_usize($$x)"), ("self.line_ending().repeat($$e)", "vx_repeat(self.line_ending(), $$e)")]),
    Fn(FF, "Formatter::indent", **MK, ensures="blank(r@)", entry='proof { reveal_strlit(" "); reveal_strlit("\\t"); }', rewrites=[("$$a.repeat($$w * depth)", "$$a.repeat(vx_mul($$w, depth))"), ('" ".repeat($$n)', 'vx_repeat(" ", $$n)'), ('"\\t".repeat($$n)', 'vx_repeat("\\t", $$n)')]),
    Fn(FF, "Formatter::write_indent", **MK, requires=SREQ + ", !st(old(self).buf@).com", ensures=f"r is Ok, {SK}, {SAME}"),
]
for p in PRIM:
    if p.spec.endswith("::indent"):
        p.rewrites = [('" ".repeat($$w * depth)', 'vx_repeat(" ", vx_mul($$w, depth))'), ('"\\t".repeat(depth)', 'vx_repeat("\\t", depth)')]
PRIMX = Text(r"""
impl Formatter {
    /// columns written on the current line
    #[verifier::external_body]
    pub fn current_line_width(&self) -> usize { unimplemented!() }
    /// a directive is TOML: formatted as a document of its own, on one line; comes back to the same mode
    #[verifier::external_body]
    pub fn format_tombi_comment_directive_content(&mut self, content: &str) -> (r: Result<String, FmtError>)
        requires old(self).wf(),
        ensures r is Ok, same_cfg(*old(self), *final(self)), final(self).buf@ == old(self).buf@, directive_ok(content@, r->Ok_0@), one_line(r->Ok_0@),
    { unimplemented!() }
    /// format_to_string with comments left out: only measured
    #[verifier::external_body]
    pub fn vx_format_skipping(&mut self, x: &WithAlignmentHint<&KeyValue>) -> (r: Result<Buf, FmtError>)
        requires old(self).skip_comment,
        ensures r is Ok, same_cfg(*old(self), *final(self)), final(self).buf@ == old(self).buf@,
    { unimplemented!() }
}
/// display width of the keys as they are written
pub uninterp spec fn kwid(k: Keys, style: StringQuoteStyle) -> int;
impl AlignmentWidth {
    #[verifier::external_body]
    pub fn new(t: &KeyText) -> (r: AlignmentWidth) ensures r.0 == t.w { unimplemented!() }
    #[verifier::external_body]
    pub fn new_buf(t: &Buf) -> AlignmentWidth { unimplemented!() }
    pub fn value(&self) -> (r: u32) ensures r == self.0 { self.0 }
}
/// it is a function of the keys and the quote style
#[verifier::external_body]
pub fn keys_to_string(keys: &Keys, quote_style: StringQuoteStyle) -> (r: KeyText) ensures r.parts == kparts(*keys), r.w == kwid(*keys, quote_style) { vx_keys_to_string(keys, quote_style) }
impl<T> WithAlignmentHint<T> {
    pub fn new(value: T) -> (r: Self) ensures r.value == value, r.equal_alignment_width is None, r.trailing_comment_alignment_width is None { Self { value, equal_alignment_width: None, trailing_comment_alignment_width: None } }
    pub fn new_with_equal_alignment_width(value: T, equal_alignment_width: Option<AlignmentWidth>) -> (r: Self) ensures r.value == value, r.equal_alignment_width == equal_alignment_width, r.trailing_comment_alignment_width is None { Self { value, equal_alignment_width, trailing_comment_alignment_width: None } }
    pub fn new_with_trailing_comment_alignment_width(value: T, trailing_comment_alignment_width: Option<AlignmentWidth>) -> (r: Self) ensures r.value == value, r.equal_alignment_width is None, r.trailing_comment_alignment_width == trailing_comment_alignment_width { Self { value, equal_alignment_width: None, trailing_comment_alignment_width } }
}
#[verifier::external_body]
pub fn vx_max(v: Vec<AlignmentWidth>) -> (r: Option<AlignmentWidth>) ensures r is None == (v@.len() == 0), r is Some ==> forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 <= (r->0).0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_kvs(v: &Vs<(KeyValue, Option<Comma>)>) -> (r: Vs<KeyValue>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r@[i] == v@[i].0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_each<T>(v: &Vs<T>) -> (r: Vs<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_contains(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
pub trait VxTxt { spec fn txt(&self) -> Seq<char>; }
impl VxTxt for char { open spec fn txt(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxTxt for &'a str { open spec fn txt(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_cat<A: VxTxt, B: VxTxt, C: VxTxt>(a: A, b: B, c: C) -> (r: String) ensures r@ == a.txt() + b.txt() + c.txt() { unimplemented!() }
#[verifier::external_body]
pub fn vx_replace_range(t: &mut String, a: usize, b: usize, d: &str) requires a <= b, is_bound(old(t)@, a as int), is_bound(old(t)@, b as int) ensures final(t)@ == old(t)@.take(cidx(old(t)@, a as int)) + d@ + old(t)@.skip(cidx(old(t)@, b as int)) { t.replace_range(a..b, d) }
/// no hint is too narrow
pub open spec fn fits(e: Option<AlignmentWidth>, k: Keys, style: StringQuoteStyle) -> bool { e is Some ==> (e->0).0 >= kwid(k, style) }
pub open spec fn all_fit(e: Option<AlignmentWidth>, x: Seq<(KeyValue, Option<Comma>)>, style: StringQuoteStyle) -> bool { forall|i: int| 0 <= i < x.len() ==> fits(e, (#[trigger] x[i]).0.ks, style) }
pub open spec fn all_fit_g(e: Option<AlignmentWidth>, g: Seq<Or<KeyValueWithCommaGroup>>, style: StringQuoteStyle) -> bool { forall|i: int| 0 <= i < g.len() && g[i] is ItemGroup ==> all_fit(e, (#[trigger] g[i])->ItemGroup_0.items, style) }
""")
WIDTH = "final(f).wf(), same_cfg(*old(f), *final(f)), final(f).buf@ == old(f).buf@"


def fts(ty, name, req="true"):
    return Fn(FF, "Formatter::format_to_string", header="impl Formatter", rename=name, attrs=RECURSIVE, requires="old(self).wf(), " + req, ensures="r is Ok, final(self).wf(), same_cfg(*old(self), *final(self)), final(self).buf@ == old(self).buf@",
              rewrites=[("<T: Format>", ""), ("node: &T", f"node: &{ty}"), ("Result<String, std::fmt::Error>", "Result<Buf, FmtError>")])


KEYF = [
    Fn(FM, "fn requote_string", requires="quoted(text@, '\"', 1) || quoted(text@, '\\'', 1), !triple(text@), quote == '\"' || quote == '\\'', word(text@)", ensures="mean(r@) == mean(text@), word(r@)",
       rewrites=[("text.contains($c)", "vx_contains(text, $c)"), ('format!("{quote}{}{quote}", $$e)', "vx_cat(quote, $$e, quote)"), ("&text[$a..text.len() - $b]", "vx_slice(text, $a, vx_len(text) - $b)"), ("Cow<'_, str>", "Cow<'_>")],
       entry="proof { let a = text@[0]; lemma_quoted(text@, a); let r = seq![quote] + body(text@, 1) + seq![quote]; if !text@.contains('\\\\') && !text@.contains(quote) { assert forall|i: int| 1 <= i < text@.len() - 1 implies text@[i] != '\\\\' && #[trigger] text@[i] != quote by {} lemma_requote(text@, a, r, quote); } }"),
    Fn(FM, "fn format_basic_string_quote_style", requires="quoted(text@, '\"', 1), !triple(text@), word(text@)", ensures="mean(r@) == mean(text@), word(r@)", rewrites=[("Cow<'_, str>", "Cow<'_>")]),
    Fn(FM, "fn format_literal_string_quote_style", requires="quoted(text@, '\\'', 1), !triple(text@), word(text@)", ensures="mean(r@) == mean(text@), word(r@)", rewrites=[("Cow<'_, str>", "Cow<'_>")]),
    Fn(FM, "fn write_trailing_comment_alignment_space", pre=spell, requires=REQ, ensures=f"r is Ok, {KEEP}, final(f).buf@ == old(f).buf@", rewrites=[('" ".repeat($$n)', 'vx_repeat(" ", $$n)')], entry='proof { reveal_strlit(" "); }'),
    Fn(KY, "fn keys_to_string", rename="vx_keys_to_string", ensures="r.parts == kparts(*keys)", rewrites=[("-> String", "-> KeyText"), ("keys.keys().map(|key| $$b).join($$s)", "let vx_v = keys.keys(); let mut vx_o: Vec<String> = Vec::new(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let key = vx_v.vx_nth(vx_i); vx_i += 1; let vx_s: String = $$b; vx_o.push(vx_s); } vx_join(vx_o, $$s)")],
       loops={0: Loop("while", invariant="vx_v@ == keys.ks, vx_i <= vx_v@.len(), vx_o@.len() == vx_i, forall|i: int| 0 <= i < vx_o@.len() ==> word((#[trigger] vx_o@[i])@), forall|i: int| 0 <= i < vx_o@.len() ==> mean((#[trigger] vx_o@[i])@) == mean(ktok(keys.ks[i])),", decreases="vx_v@.len() - vx_i",
                      after='proof { assert(vx_o@.len() == keys.ks.len()); }')}, ghost=[("before", "vx_join", 'proof { assert(keys.ks.map_values(|x: Key| mean(ktok(x))) =~= Seq::new(vx_o@.len(), |i: int| mean(vx_o@[i]@))); }')]),
]
BLANK1 = 'proof { reveal_strlit(" "); reveal_strlit("."); reveal_strlit("T"); }'
FMT = [
    Fn(KY, "Format for WithAlignmentHint<&tombi_ast::Keys> :: format", header=WAH("Keys"), pre=spell, requires=REQ + ", fits(self.equal_alignment_width, *self.value, old(f).definitions.key_quote_style)", ensures=post(f"s_keys({S0}, *self.value)"), entry=BLANK1,
       rewrites=[('" ".repeat($$n)', 'vx_repeat(" ", $$n)')]),
    # comments
    Fn(CM, "fn format_comment", pre=spell, **COMF, loops={
        0: Loop("while", invariant="f.wf(), same_cfg(*old(f), *f), mid(old(f).buf@, f.buf@, comment.t, seq![c] + iter@)", decreases="iter@.len()", start="broadcast use lemma_start, lemma_put, lemma_sp, lemma_rest, lemma_done, lemma_template, lemma_stripped;"),
        1: Loop("while let", ieb="f.wf(), same_cfg(*old(f), *f), mid(old(f).buf@, f.buf@, comment.t, iter@)", ensures="f.wf(), same_cfg(*old(f), *f), mid(old(f).buf@, f.buf@, comment.t, iter@)", decreases="iter@.len()", start="broadcast use lemma_start, lemma_put, lemma_sp, lemma_rest, lemma_done, lemma_template, lemma_stripped;")},
       ghost=[("after", "let formatted = f.format_tombi_comment_directive_content(content)?;", "proof { axiom_note_document(content@, formatted@); }", "any"), ("after", "let formatted = f.format_tombi_comment_directive_content(&comment_directive.content)?;", "proof { axiom_note_value(comment.t, comment_directive.content@, formatted@); }", "any")],
       requires=REQ + ", com_ok(comment.t)", ensures=post(f"s_com({S0}, comment.t)", "true")),
    Fn(CM, "Format for TrailingComment :: format", header="impl TrailingComment", pre=spell, requires=REQ + ", com_ok(self.0.t)", ensures=post(f"s_com({S0}, self.0.t)", "true")),
    Fn(CM, "Format for tombi_ast::DanglingCommentGroup :: format", header="impl DanglingCommentGroup", pre=spell, requires=REQ, ensures=post(f"s_dang({S0}, *self)", "true"),
       loops={0: Loop("while", invariant=NLI + f" vx_v@ == self.coms, f.buf@.depth == old(f).buf@.depth, !st(old(f).buf@).com, vx_v@.len() > 0, forall|i: int| 0 <= i < vx_v@.len() ==> com_ok((#[trigger] vx_v@[i]).0.t), st(f.buf@) == s_coms({S0}, vx_v@, vx_i as int), st(f.buf@).com == (vx_i > 0), f.buf@.depth >= 0", decreases="vx_v@.len() - vx_i")}),
    Fn(CM, "Format for Vec<LeadingComment> :: format", header="impl Vs<LeadingComment>", pre=spell, requires=REQ + ", leads_ok(self@)", ensures=post(f"s_lead({S0}, self@)"),
       loops={0: Loop("while", invariant=NLI + f" vx_v@ == self@, leads_ok(vx_v@), f.buf@.depth == old(f).buf@.depth, st(f.buf@) == s_leads({S0}, vx_v@, vx_i as int), !st(f.buf@).com, f.buf@.depth >= 0", decreases="vx_v@.len() - vx_i")}),
]
LITF = []
for n in LITS:
    if n == "BareKey":
        continue
    P = post(f"s_trail(s_word(s_lead({S0}, self.value.l.lead), self.value.l.tok), self.value.l.trail)", "self.value.l.trail is Some")
    if n in ("BasicString", "LiteralString"):
        LITF.append(Fn(ST_, f"Format for WithAlignmentHint<&tombi_ast::{n}> :: format", header=WAH(n), pre=spell, requires=REQ, ensures=P))
    elif n in ("OffsetDateTime", "LocalDateTime"):
        LITF.append(Fn(DT, "rules impl_date_time_format / Format for WithAlignmentHint<&$type> :: format", header=WAH(n), pre=spell, requires=REQ, ensures=P,
            rewrites=[("token.text().to_string()", "vx_to_string(token.text())"), ("text.replace_range($a..$b, &delimiter.to_string())", "vx_replace_range(&mut text, $a, $b, delimiter)")],
            ghost=[("before", "f.write_indent()", "proof { let t = value.l.tok; reveal_strlit(\"T\"); reveal_strlit(\" \"); if text@ != t { let d = text@[10]; assert(text@ =~= t.update(10, d)); lemma_dt(t, text@, d); } }"), ("after", "let mut text = $$x;", "proof { lemma_first_ascii(text@, 10); lemma_first_ascii(text@, 11); reveal_strlit(\"T\"); reveal_strlit(\" \"); }")]))
    else:
        LITF.append(Fn(VL, "Format for WithAlignmentHint<&T> :: format", header=WAH(n), pre=spell, requires=REQ, ensures=P))
G0 = Text(r"""
pub struct Chain<T> { pub d: Vs<DanglingCommentGroup>, pub g: Vs<Or<T>> }
impl<T> Chain<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.d@.len() + self.g@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.d@.len() + self.g@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&self, i: usize) -> (r: Or<T>)
        requires i < self.d@.len() + self.g@.len(),
        ensures i < self.d@.len() ==> r == Or::<T>::DanglingCommentGroup(self.d@[i as int]), i >= self.d@.len() ==> r == self.g@[i - self.d@.len()],
    { unimplemented!() }
}
/// itertools::chain!
pub fn vx_chain<T>(d: Vs<DanglingCommentGroup>, g: Vs<Or<T>>) -> (r: Chain<T>) ensures r.d == d, r.g == g { Chain { d, g } }
""")
GROUPS = ("$n.dangling_comment_groups().map(DanglingCommentGroupOr::DanglingCommentGroup).chain($n2.$m().map(|group| { WithAlignmentHint::new_with_dangling_comment_group_or(group, $$e, $$t,) }))", "vx_groups($n.dangling_comment_groups(), $n2.$m(), $$e, $$t)")
CHAIN = ("itertools::chain!($$a.map(DanglingCommentGroupOr::DanglingCommentGroup), $$b).collect_vec()", "vx_chain($$a, $$b)")
INTO = ("dangling_comment_groups.into_iter()", "dangling_comment_groups")
SKIP = ("f.skip_indent()", "f.set_skip_indent()")
DEEP = REQ.replace(">= 0", "> 0")
FIT = "fits(self.equal_alignment_width, self.value.ks, old(f).definitions.key_quote_style)"
ADD = [("length += f.$m().len() * $n;", "length = vx_add(length, vx_mul(vx_len(f.$m()), $n));"), ("length += f.$m().len();", "length = vx_add(length, vx_len(f.$m()));"), ("length += $$e;", "length = vx_add(length, $$e);")]
EXC = ADD + [("f.line_width().is_some_and(|$w| $$b)", "(match f.line_width() { Some($w) => $$b, None => false })"),
    ("crate::format::value::inline_table::exceeds_line_width", "exceeds_line_width_t"), ("crate::format::value::array::exceeds_line_width", "exceeds_line_width_a"),
    ("f.format_to_string(&value)", "f.vx_fts_value(&value)"), ("f.format_to_string(&key_value)", "f.vx_fts_kv(&key_value)"), ("f.format_to_string(&trailing_comment)", "f.vx_fts_tc(&trailing_comment)")]
EXI = "f.wf(), same_cfg(*old(f), *f), f.buf@ == old(f).buf@"
W1 = "old(f).wf(), "
RC = dict(attrs=RECURSIVE, pre=spell)


def IT(inv):
    return Loop("while", invariant=NLI + " f.buf@.depth == old(f).buf@.depth, !st(old(f).buf@).com, " + inv, decreases="vx_v@.len() - vx_i")


def IT2(inv):
    return Loop("while", invariant=NLI + " f.buf@.depth == old(f).buf@.depth, " + inv, decreases="vx_v@.len() - vx_i")


def group_loop(fnc, extra="true"):
    return {0: Loop("while", invariant=f"f.wf(), same_cfg(*old(f), *f), vx_v == self, vx_i <= vx_v.d@.len() + vx_v.g@.len(), f.buf@.depth == old(f).buf@.depth, !st(old(f).buf@).com, has_written_group == (vx_i > 0), f.buf@.depth >= 0, st(f.buf@) == {fnc}({S0}, vx_v.d@, vx_v.g@, vx_i as int, {V}), {extra}", decreases="vx_v.d@.len() + vx_v.g@.len() - vx_i")}


def post2(x):
    return f"r is Ok, {KEEP}, st(final(f).buf@) == {x}"


TREE = [
    fts("Value", "vx_fts_value"), fts("TrailingComment", "vx_fts_tc", "com_ok(node.0.t)"), fts("KeyValue", "vx_fts_kv"),
    Fn(FF, "Formatter::format_to_string_without_comment", header="impl Formatter", requires="old(self).wf()", ensures="r is Ok, final(self).wf(), same_cfg(*old(self), *final(self)), final(self).buf@ == old(self).buf@",
       rewrites=[("<T: Format>", ""), ("node: &T", "node: &WithAlignmentHint<&KeyValue>"), ("Result<String, std::fmt::Error>", "Result<Buf, FmtError>"), ("self.format_to_string(node)", "self.vx_format_skipping(node)")]),
    Fn(FF, "Formatter::trailing_comment_alignment_width", header="impl Formatter", requires="old(self).wf()", ensures="r is Ok, final(self).wf(), same_cfg(*old(self), *final(self)), final(self).buf@ == old(self).buf@",
       rewrites=[("<'b, T: Format + Sized + 'b>", ""), ("impl Iterator<Item = &'b T>", "Vs<KeyValue>"), ("where WithAlignmentHint<&'b T>: Format,", ""), ("vec![]", "Vec::new()"), ("widths.into_iter().max()", "vx_max(widths)"), ("AlignmentWidth::new(&formatted)", "AlignmentWidth::new_buf(&formatted)"),
                 ("new_with_equal_alignment_width(value, $$e)", "new_with_equal_alignment_width(&value, $$e)"), ("for value in values { $$b }", "let vx_v = values; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let value = vx_v.vx_nth(vx_i); vx_i += 1; $$b }")],
       loops={0: Loop("while", invariant="self.wf(), same_cfg(*old(self), *self), self.buf@ == old(self).buf@, vx_i <= vx_v@.len()", decreases="vx_v@.len() - vx_i")}),
    Fn(FF, "Formatter::key_value_equal_alignment_width", header="impl Formatter", ensures="forall|i: int| 0 <= i < key_values@.len() ==> fits(r, (#[trigger] key_values@[i]).ks, self.definitions.key_quote_style)",
       rewrites=[("impl Iterator<Item = &'a tombi_ast::KeyValue>", "Vs<KeyValue>"), ("key_values.filter_map(|key_value| $$a).map(|keys| $$b).max()", "let vx_v = key_values; let mut vx_o: Vec<AlignmentWidth> = Vec::new(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let key_value = vx_v.vx_nth(vx_i); vx_i += 1; let vx_k: Option<Keys> = $$a; if let Some(keys) = vx_k { vx_o.push($$b); } } vx_max(vx_o)")],
       loops={0: Loop("while", invariant="vx_v == key_values, vx_i <= vx_v@.len(), vx_o@.len() == vx_i, forall|i: int| 0 <= i < vx_i ==> (#[trigger] vx_o@[i]).0 == kwid(vx_v@[i].ks, self.definitions.key_quote_style)", decreases="vx_v@.len() - vx_i", after="proof { assert forall|i: int| 0 <= i < vx_v@.len() implies kwid((#[trigger] vx_v@[i]).ks, self.definitions.key_quote_style) == vx_o@[i].0 by {} }")}),
    # values
    Fn(VL, "Format for tombi_ast::Value :: format", header="impl Value", **RC, requires=REQ, ensures=post(f"s_val({S0}, *self, {V})", "strail(*self) is Some")),
    Fn(VL, "Format for WithAlignmentHint<&tombi_ast::Value> :: format", header=WAH("Value"), **RC, requires=REQ, ensures=post(f"s_val({S0}, *self.value, {V})", "strail(*self.value) is Some")),
    Fn(AR, "Format for WithAlignmentHint<&tombi_ast::Array> :: format", header=WAH("Array"), **RC, requires=REQ, ensures=post(f"s_arr({S0}, *self.value, {V})", "self.value.trail is Some"),
       rewrites=[("exceeds_line_width(self.value, f)", "exceeds_line_width_a(self.value, f)")], entry=f"proof {{ if plain_a(*self.value) {{ lemma_plain_a({S0}, *self.value, {V}); }} }}"),
    Fn(AR, "fn exceeds_line_width", rename="exceeds_line_width_a", attrs=RECURSIVE, requires="old(f).wf()", ensures=f"r is Ok, {WIDTH}", rewrites=EXC + [(" exceeds_line_width(array, f)", "exceeds_line_width_a(array, f)")],
       loops={0: Loop("while", invariant=EXI + ", vx_i <= vx_v@.len()", decreases="vx_v@.len() - vx_i"), 1: Loop("while", invariant=EXI + ", vx_i <= vx_v@.len()", decreases="vx_v@.len() - vx_i")}),
    Fn(AR, "fn format_multiline_array", **RC, rewrites=hint("Array", "array")[0] + [GROUPS], entry=hint("Array", "array")[1], requires=REQ, ensures=post(f"s_arrm({S0}, *vx_h.value, {V})", "vx_h.value.trail is Some")),
    Fn(AR, "fn format_singleline_array", **RC, rewrites=hint("Array", "array")[0] + [SKIP], entry=hint("Array", "array")[1], requires=REQ + ", quiet_v(vx_h.value.vals)", ensures=post(f"s_arrs({S0}, *vx_h.value, {V})", "vx_h.value.trail is Some"),
       loops={0: Loop("while", invariant=NLI + f" vx_v@ == array.vals, quiet_v(vx_v@), !st(f.buf@).com, f.buf@.depth == old(f).buf@.depth + 1, f.buf@.depth > 0, st(f.buf@) == s_vals(s_p(s_lead({S0}, array.lead), '['), vx_v@, vx_i as int, {V})", decreases="vx_v@.len() - vx_i")}),
    Fn(AR, "Format for WithAlignmentHint<&tombi_ast::ValueWithCommaGroup> :: format", header=WAH("ValueWithCommaGroup"), **RC, requires=DEEP, ensures=post2(f"s_vcs({S0}, self.value.items, self.value.items.len() as int, {V})"),
       rewrites=[("let WithAlignmentHint { value: $v, trailing_comment_alignment_width, .. } = self;", "let $v = self.value; let trailing_comment_alignment_width = &self.trailing_comment_alignment_width;")],
       loops={0: IT(f"vx_v@ == value_group.items, f.buf@.depth > 0, st(f.buf@) == s_vcs({S0}, vx_v@, vx_i as int, {V}), vx_i == 0 ==> !st(f.buf@).com")}),
    Fn(AR, "Format for WithAlignmentHint<tombi_ast::ValueWithCommaGroup> :: format", header="impl WithAlignmentHint<ValueWithCommaGroup>", **RC, requires=DEEP, ensures=post2(f"s_vcs({S0}, self.value.items, self.value.items.len() as int, {V})")),
    Fn(CM, "Format for Vec<DanglingCommentGroupOr<T>> :: format", header="impl Groups<ValueWithCommaGroup>", **RC, requires=DEEP, ensures=post2(f"s_vgs({S0}, self.d@, self.g@, (self.d@.len() + self.g@.len()) as int, {V})"),
       loops=group_loop("s_vgs", "f.buf@.depth > 0")),
    # inline tables
    Fn(INL, "Format for WithAlignmentHint<&tombi_ast::InlineTable> :: format", header=WAH("InlineTable"), **RC, requires=REQ, ensures=post(f"s_tab({S0}, *self.value, {V})", "self.value.trail is Some"),
       rewrites=[("exceeds_line_width(self.value, f)", "exceeds_line_width_t(self.value, f)")], entry=f"proof {{ if plain_t(*self.value) {{ lemma_plain_t({S0}, *self.value, {V}); }} }}"),
    Fn(INL, "fn exceeds_line_width", rename="exceeds_line_width_t", attrs=RECURSIVE, requires="old(f).wf()", ensures=f"r is Ok, {WIDTH}, old(f).toml_version == TomlVersion::V1_0_0 ==> !r->Ok_0", rewrites=EXC + [(" exceeds_line_width(&table, f)", "exceeds_line_width_t(&table, f)")],
       loops={0: Loop("while", invariant=EXI + ", vx_i <= vx_v@.len(), f.toml_version != TomlVersion::V1_0_0", decreases="vx_v@.len() - vx_i"), 1: Loop("while", invariant=EXI + ", vx_i <= vx_v@.len(), f.toml_version != TomlVersion::V1_0_0", decreases="vx_v@.len() - vx_i")}),
    Fn(INL, "fn format_multiline_inline_table", **RC, rewrites=hint("InlineTable", "table")[0] + [GROUPS, ("f.key_value_equal_alignment_width(key_values.iter())", "f.key_value_equal_alignment_width(vx_each(&key_values))")], entry=hint("InlineTable", "table")[1], requires=REQ, ensures=post(f"s_tabm({S0}, *vx_h.value, {V})", "vx_h.value.trail is Some"),
       ghost=[("after", "let equal_alignment_width = $$x;", "proof { assert(all_fit_g(equal_alignment_width, table.groups, f.definitions.key_quote_style)) by { assert forall|i: int| 0 <= i < table.groups.len() && table.groups[i] is ItemGroup implies all_fit(equal_alignment_width, (#[trigger] table.groups[i])->ItemGroup_0.items, f.definitions.key_quote_style) by { let x = table.groups[i]->ItemGroup_0.items; assert forall|j: int| 0 <= j < x.len() implies fits(equal_alignment_width, (#[trigger] x[j]).0.ks, f.definitions.key_quote_style) by { assert(table.kvs.contains(table.groups[i]->ItemGroup_0.items[j].0)); let q = choose|q: int| 0 <= q < table.kvs.len() && table.kvs[q] == x[j].0; assert(fits(equal_alignment_width, table.kvs[q].ks, f.definitions.key_quote_style)); } } } }")]),
    Fn(INL, "fn format_singleline_inline_table", **RC, rewrites=hint("InlineTable", "table")[0] + [SKIP], entry=hint("InlineTable", "table")[1], requires=REQ + ", quiet_kv(vx_h.value.kvs)", ensures=post(f"s_tabs({S0}, *vx_h.value, {V})", "vx_h.value.trail is Some"),
       loops={0: Loop("while", invariant=NLI + f" vx_v@ == table.kvs, quiet_kv(vx_v@), !st(f.buf@).com, f.buf@.depth == old(f).buf@.depth + 1, f.buf@.depth > 0, st(f.buf@) == s_kvs(s_p(s_lead({S0}, table.lead), '{{'), vx_v@, vx_i as int, {V})", decreases="vx_v@.len() - vx_i")}),
    Fn(INL, "Format for WithAlignmentHint<&tombi_ast::KeyValueWithCommaGroup> :: format", header=WAH("KeyValueWithCommaGroup"), **RC, requires=DEEP + ", all_fit(self.equal_alignment_width, self.value.items, old(f).definitions.key_quote_style)", ensures=post2(f"s_kcs({S0}, self.value.items, self.value.items.len() as int, {V})"),
       rewrites=[("let WithAlignmentHint { value: $v, equal_alignment_width, trailing_comment_alignment_width, } = self;", "let $v = self.value; let equal_alignment_width = &self.equal_alignment_width; let trailing_comment_alignment_width = &self.trailing_comment_alignment_width;")],
       loops={0: IT(f"vx_v@ == key_value_group.items, f.buf@.depth > 0, st(f.buf@) == s_kcs({S0}, vx_v@, vx_i as int, {V}), vx_i == 0 ==> !st(f.buf@).com, all_fit(*equal_alignment_width, vx_v@, f.definitions.key_quote_style)")}),
    Fn(INL, "Format for WithAlignmentHint<tombi_ast::KeyValueWithCommaGroup> :: format", header="impl WithAlignmentHint<KeyValueWithCommaGroup>", **RC, requires=DEEP + ", all_fit(self.equal_alignment_width, self.value.items, old(f).definitions.key_quote_style)", ensures=post2(f"s_kcs({S0}, self.value.items, self.value.items.len() as int, {V})")),
    Fn(CM, "Format for Vec<DanglingCommentGroupOr<T>> :: format", header="impl Groups<KeyValueWithCommaGroup>", **RC, requires=DEEP + ", all_fit_g(self.e, self.g@, old(f).definitions.key_quote_style)", ensures=post2(f"s_kgs({S0}, self.d@, self.g@, (self.d@.len() + self.g@.len()) as int, {V})"),
       loops=group_loop("s_kgs", "f.buf@.depth > 0, all_fit_g(self.e, self.g@, f.definitions.key_quote_style)")),
    # key-values
    Fn(KV, "Format for tombi_ast::KeyValue :: format", header="impl KeyValue", **RC, requires=REQ, ensures=post(f"s_kv({S0}, *self, {V})", "strail(self.val) is Some")),
    Fn(KV, "Format for WithAlignmentHint<&tombi_ast::KeyValue> :: format", header=WAH("KeyValue"), **RC, rewrites=[SKIP], requires=REQ + ", " + FIT, ensures=post(f"s_kv({S0}, *self.value, {V})", "strail(self.value.val) is Some")),
    Fn(KV, "Format for tombi_ast::KeyValueGroup :: format", header="impl KeyValueGroup", **RC, requires=REQ, ensures=post2(f"s_stms({S0}, self.items, self.items.len() as int, {V})"),
       rewrites=[("key_values_with_comma.iter().map(|(key_value, _)| key_value)", "vx_kvs(&key_values_with_comma)")],
       ghost=[("after", "let equal_alignment_width = $$x;", "proof { let x = key_values_with_comma@; assert(all_fit(equal_alignment_width, x, f.definitions.key_quote_style)) by { let y = Seq::new(x.len(), |i: int| x[i].0); assert forall|i: int| 0 <= i < x.len() implies fits(equal_alignment_width, (#[trigger] x[i]).0.ks, f.definitions.key_quote_style) by { assert(vx_l@[i] == x[i].0); } } }")],
       loops={0: IT(f"vx_v@ == self.items, f.buf@.depth >= 0, st(f.buf@) == s_stms({S0}, vx_v@, vx_i as int, {V}), vx_i == 0 ==> !st(f.buf@).com, all_fit(equal_alignment_width, vx_v@, f.definitions.key_quote_style)")}),
    Fn(CM, "Format for Vec<DanglingCommentGroupOr<T>> :: format", header="impl Chain<KeyValueGroup>", **RC, requires=REQ, ensures=post2(f"s_sgs({S0}, self.d@, self.g@, (self.d@.len() + self.g@.len()) as int, {V})"), loops=group_loop("s_sgs")),
]
for p in TREE:
    if p.spec.startswith("Format for tombi_ast::KeyValueGroup"):
        p.rewrites = [("f.key_value_equal_alignment_width(key_values_with_comma.iter().map(|(key_value, _)| key_value),)", "f.key_value_equal_alignment_width(vx_l)"), ("let equal_alignment_width = $$x;", "let vx_l = vx_kvs(&key_values_with_comma); let ghost vx_g = vx_l@; let equal_alignment_width = $$x;")] + p.rewrites
        p.ghost = [(a, b, c.replace("vx_l@", "vx_g")) for a, b, c in p.ghost]
PAR = ("filter_map_unique_keys($$a, $$b, toml_version,).for_each(|_| f.$m());", "let vx_n = self.vx_parents(header.keys(), toml_version); let mut vx_k: usize = 0; while vx_k < vx_n { vx_k += 1; f.$m(); }")
PLOOPS = {0: Loop("while", invariant="f.wf(), same_cfg(*old(f), *f), f.buf@ == old(f).buf@, vx_k <= vx_n", decreases="vx_n - vx_k"),
          1: Loop("while", before="let ghost vx_b = f.buf@;", invariant="f.wf(), same_cfg(*old(f), *f), f.buf@ == vx_b, vx_k <= vx_n", decreases="vx_n - vx_k")}
BL = Loop("while", before="let ghost vx_b = st(f.buf@); proof { assert(s_nl(vx_b) == vx_b); }", invariant="f.wf(), same_cfg(*old(f), *f), f.buf@.depth == old(f).buf@.depth, st(f.buf@) == vx_b, s_nl(vx_b) == vx_b, !vx_b.com", decreases="vx_n - vx_k")
ROOTF = [
    Fn(TB, "Format for tombi_ast::Table :: format", header="impl Table", pre=spell, requires=REQ, ensures=post2(f"s_table({S0}, *self, {V})"), rewrites=[CHAIN, PAR], loops=PLOOPS),
    Fn(AT, "Format for tombi_ast::ArrayOfTable :: format", header="impl ArrayOfTable", pre=spell, requires=REQ, ensures=post2(f"s_aot({S0}, *self, {V})"), rewrites=[CHAIN, PAR], loops=PLOOPS),
    Fn(RT, "Format for Vec<tombi_ast::TableOrArrayOfTable> :: format", header="impl Vs<TableOrArrayOfTable>", pre=spell, requires="old(f).wf(), self@.len() > 0 ==> !st(old(f).buf@).com, old(f).buf@.depth >= 0", ensures=post2(f"s_tables({S0}, self@, self@.len() as int, {V})"),
       loops={0: IT2(f"vx_v@ == self@, f.buf@.depth >= 0, st(f.buf@) == s_tables({S0}, vx_v@, vx_i as int, {V}), (header is Root) == (vx_i == 0), vx_i == 0 && vx_v@.len() > 0 ==> !st(f.buf@).com"), 1: BL, 2: BL, 3: BL}),
    Fn(RT, "Format for tombi_ast::Root :: format", header="impl Root", pre=spell, requires=REQ, ensures=post2(f"s_root({S0}, *self, {V})"), rewrites=[CHAIN, INTO]),
]
DEFS = [Text(r"""
/// the options, as they were configured
pub struct FormatOptions;
#[verifier::external_body]
pub fn vx_opt<T>() -> T { unimplemented!() }
"""), Raw(CF + "date_time_delimiter.rs", "enum DateTimeDelimiter", attrs=DER),
    Fn(S + "formatter/definitions.rs", "FormatDefinitions::new", entry=BLANK1,
       ensures="blank(r.trailing_comment_space@), blank(r.key_value_equal_space@), blank(r.array_bracket_space@), blank(r.array_comma_space@), blank(r.inline_table_brace_space@), blank(r.inline_table_comma_space@), r.date_time_delimiter is Some ==> r.date_time_delimiter->0@ == \"T\"@ || r.date_time_delimiter->0@ == \" \"@",
       rewrites=[('" ".repeat($$n,)', 'vx_repeat(" ", $$n)'), ("options.rules.as_ref().and_then($$c).unwrap_or_default().value() as usize", "vx_opt::<usize>()"), ("options.rules.as_ref().and_then($$c).unwrap_or_default().value()", "vx_opt()"), ("options.rules.as_ref().and_then($$c).unwrap_or_default()", "vx_opt()"), ("options.rules.as_ref().and_then($$c).map($$d)", "vx_opt()")] * 2)]
UNIT = Unit("formatter", [Text(STR), Text(TSPEC), Text(LEM), Text(SPEC), *TYPES, Text(NODES + "".join(lit(n) for n in LITS)), Text(SPEC2), PRIMX, Text(LEM2), G0] + GET + PRIM + KEYF + FMT + LITF + TREE + ROOTF + DEFS, rewrites=RWU)
