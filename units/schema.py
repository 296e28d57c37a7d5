"""C11: schema validation — every validator's assertion verdict is the JSON Schema one."""
import re
from vgen import *
from shims import *

V = "crates/tombi-validator/src/"
VV = V + "validate/"


def sync(text):
    """async fn / async move { .. }.boxed() / .await: the same steps, taken one after the other (a future that is awaited at once)"""
    text = re.sub(r"\basync fn\b", "fn", text)
    text = re.sub(r"\s*\.await\b", "", text)
    text = re.sub(r"BoxFuture<'b, (.*)>(\s*where\b|\s*\{)", r"\1\2", text, count=1)
    text = re.sub(r"\basync move \{(.*)\}\s*\.boxed\(\)\s*\}\s*$", r"\1}", text, flags=re.S)
    text = re.sub(r"log::\w+!\([^;]*\);", "", text)
    text = text.replace("r#enum", "enum_")
    text = re.sub(r"CurrentSchema<'\w+>|CurrentSchema<'_>", "CurrentSchema", text)
    text = re.sub(r"SchemaContext<'\w+>|SchemaContext<'_>", "SchemaContext", text)
    text = re.sub(r"\b(crate::validate|crate|tombi_schema_store|tombi_document_tree|tombi_comment_directive::value|tombi_ast|tombi_text|tombi_severity_level|tombi_diagnostic|not_schema)::", "", text)
    text = re.sub(r" \+ (Sync|Send|Debug|std::fmt::Debug|ToString)\b", "", text)
    text = re.sub(r"\bconst_value\.to_string\(\)", "vx_text()", text)
    return text


TYPES = r"""
#[verifier::external_body] pub struct Diagnostic { _x: () }
pub uninterp spec fn is_error(d: Diagnostic) -> bool;
#[verifier::external_body] pub struct MatchEvidence { _x: () }
impl MatchEvidence {
    #[verifier::external_body] pub fn mark_root_value_assertion(&mut self, matched: bool, singleton: bool) {}
    #[verifier::external_body] pub fn mark_type_assertion(&mut self, matched: bool) {}
    #[verifier::external_body] pub fn merge_from(&mut self, other: MatchEvidence) {}
    #[verifier::external_body] pub fn vx_untouched(&self) -> bool { true }
}
#[verifier::external_body] pub fn vx_evidence() -> Box<MatchEvidence> { unimplemented!() }
#[verifier::external_body] pub fn vx_score(a: &MatchEvidence, b: &MatchEvidence) -> core::cmp::Ordering { unimplemented!() }
#[verifier::external_body] pub struct VxSet { _x: () }
pub struct Valid { pub properties: VxSet, pub indices: VxSet, pub match_evidence: Box<MatchEvidence> }
impl Valid {
    #[verifier::external_body] pub fn new() -> Valid { unimplemented!() }
    #[verifier::external_body] pub fn merge_from(&mut self, other: Valid) {}
}
#[verifier::external_body] pub fn vx_valid() -> Valid { unimplemented!() }
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body] pub fn vx_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_extend<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_any_error(d: &Vec<Diagnostic>) -> (r: bool) ensures r == exists|i: int| 0 <= i < d@.len() && is_error(#[trigger] d@[i]) { unimplemented!() }
#[verifier::external_body] pub struct Error { _x: () }
#[verifier::external_body] pub struct SchemaItem { _x: () }
#[verifier::external_body] pub struct SchemaViews { _x: () }
#[verifier::external_body] pub struct CurrentSchema { _x: () }
#[verifier::external_body] pub struct SchemaContext { _x: () }
#[verifier::external_body] pub struct Accessor { _x: () }
#[verifier::external_body] pub struct TombiValueCommentDirective { _x: () }
#[verifier::external_body] pub struct CommonLintRules { _x: () }
#[verifier::external_body] pub struct IntegerCommonLintRules { _x: () }
#[verifier::external_body] pub struct FloatCommonLintRules { _x: () }
#[verifier::external_body] pub struct BooleanCommonLintRules { _x: () }
#[verifier::external_body] pub struct StringCommonLintRules { _x: () }
#[verifier::external_body] pub struct Deprecation { _x: () }
#[verifier::external_body] pub struct Range { _x: () }
pub struct NotSchema { pub schema: SchemaItem }
pub struct IfThenElseSchema { pub if_schema: SchemaItem, pub then_schema: Option<SchemaItem>, pub else_schema: Option<SchemaItem> }
pub struct OneOfSchema { pub schemas: SchemaViews, pub not: Option<Box<NotSchema>>, pub if_then_else: Option<Box<IfThenElseSchema>>, pub deprecation: Option<Deprecation> }
pub struct AnyOfSchema { pub schemas: SchemaViews, pub not: Option<Box<NotSchema>>, pub if_then_else: Option<Box<IfThenElseSchema>>, pub deprecation: Option<Deprecation> }
pub struct AllOfSchema { pub schemas: SchemaViews, pub not: Option<Box<NotSchema>>, pub if_then_else: Option<Box<IfThenElseSchema>>, pub deprecation: Option<Deprecation> }

// ---------------------------------------------------------------- the specification
pub type Res = Result<Valid, Invalid>;
/// the JSON Schema verdict carried by a result: an Err without a failed assertion only reports lints
pub open spec fn ok(r: Res) -> bool { r is Ok || !(r->Err_0.assertion_failed) }
/// what a reader is told
pub open spec fn told(r: Res) -> nat { if r is Err { r->Err_0.diagnostics@.len() } else { 0 } }
/// does the value (by identity) satisfy the (resolved) schema
pub uninterp spec fn sat(v: int, s: Option<CurrentSchema>) -> bool;
/// the verdict on a branch of anyOf/oneOf; None: the branch takes no part (a cycle, a null schema)
pub uninterp spec fn branch(v: int, s: CurrentSchema) -> Option<bool>;
pub enum Rs { Got(CurrentSchema), Nothing, Failed }
pub uninterp spec fn resolved(i: SchemaItem, c: CurrentSchema) -> Rs;
pub uninterp spec fn collected(s: SchemaViews, c: CurrentSchema) -> Option<(Seq<CurrentSchema>, nat)>;
pub open spec fn sub(v: int, r: Rs) -> bool { match r { Rs::Got(s) => sat(v, Some(s)), _ => true } }
pub open spec fn not_ok(v: int, n: NotSchema, c: CurrentSchema) -> bool { match resolved(n.schema, c) { Rs::Got(s) => !sat(v, Some(s)), _ => true } }
pub open spec fn ite_ok(v: int, i: IfThenElseSchema, c: CurrentSchema) -> bool {
    match resolved(i.if_schema, c) {
        Rs::Got(s) => if sat(v, Some(s)) { i.then_schema is Some ==> sub(v, resolved(i.then_schema->0, c)) } else { i.else_schema is Some ==> sub(v, resolved(i.else_schema->0, c)) },
        _ => true,
    }
}
pub open spec fn side_ok(v: int, n: Option<Box<NotSchema>>, i: Option<Box<IfThenElseSchema>>, c: CurrentSchema) -> bool { (n is Some ==> not_ok(v, *n->0, c)) && (i is Some ==> ite_ok(v, *i->0, c)) }
pub open spec fn all_sat(v: int, s: Seq<CurrentSchema>, n: int) -> bool { forall|i: int| 0 <= i < n ==> sat(v, Some(#[trigger] s[i])) }
pub open spec fn all_of_ok(v: int, a: AllOfSchema, c: CurrentSchema) -> bool {
    match collected(a.schemas, c) { None => true, Some(p) => all_sat(v, p.0, p.0.len() as int) && side_ok(v, a.not, a.if_then_else, c) }
}
pub open spec fn hits(v: int, s: Seq<CurrentSchema>, n: int) -> nat decreases n { if n <= 0 { 0 } else { hits(v, s, n - 1) + if branch(v, s[n - 1]) == Some(true) { 1nat } else { 0 } } }
pub open spec fn takes(v: int, s: Seq<CurrentSchema>, n: int) -> nat decreases n { if n <= 0 { 0 } else { takes(v, s, n - 1) + if branch(v, s[n - 1]) is Some { 1nat } else { 0 } } }
/// at least one branch holds (nothing is asserted when no branch takes part)
pub open spec fn any_of_ok(v: int, a: AnyOfSchema, c: CurrentSchema) -> bool {
    side_ok(v, a.not, a.if_then_else, c) && match collected(a.schemas, c) { None => true, Some(p) => hits(v, p.0, p.0.len() as int) >= 1 || takes(v, p.0, p.0.len() as int) == 0 }
}
/// exactly one branch holds
pub open spec fn one_of_ok(v: int, a: OneOfSchema, c: CurrentSchema) -> bool {
    side_ok(v, a.not, a.if_then_else, c) && match collected(a.schemas, c) { None => true,
        Some(p) => if p.0.len() == 0 { p.1 > 0 } else { hits(v, p.0, p.0.len() as int) == 1 || takes(v, p.0, p.0.len() as int) == 0 } }
}
pub open spec fn adj_ok(v: int, o: Option<&OneOfSchema>, a: Option<&AnyOfSchema>, l: Option<&AllOfSchema>, n: Option<&NotSchema>, c: CurrentSchema) -> bool {
    (o is Some ==> one_of_ok(v, *o->0, c)) && (a is Some ==> any_of_ok(v, *a->0, c)) && (l is Some ==> all_of_ok(v, *l->0, c)) && (n is Some ==> not_ok(v, *n->0, c))
}

pub trait ValueImpl: Sized { spec fn vid(&self) -> int; fn range(&self) -> Range; fn comment_directives(&self) -> Option<Vec<&TombiValueCommentDirective>>; }
pub trait Validate: Sized + ValueImpl {
    fn validate(&self, accessors: &[Accessor], current_schema: Option<&CurrentSchema>, schema_context: &SchemaContext) -> (r: Result<Valid, Invalid>)
        ensures ok(r) == sat(self.vid(), match current_schema { Some(s) => Some(*s), None => None });
}
#[verifier::external_body] pub fn vx_resolve(i: &SchemaItem, c: &CurrentSchema) -> (r: Result<Option<CurrentSchema>, Error>)
    ensures match resolved(*i, *c) { Rs::Got(s) => r is Ok && r->Ok_0 == Some(s), Rs::Nothing => r is Ok && r->Ok_0 is None, Rs::Failed => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn vx_collect(i: &SchemaViews, c: &CurrentSchema) -> (r: Option<(Vec<CurrentSchema>, Vec<Error>)>)
    ensures match collected(*i, *c) { Some(p) => r is Some && (r->0).0@ == p.0 && (r->0).1@.len() == p.1, None => r is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_resolution(err: &Error, range: Range, common_rules: Option<&CommonLintRules>) -> (r: Option<Diagnostic>) ensures r is Some ==> !is_error(r->0) { unimplemented!() }
#[verifier::external_body] pub fn vx_resolutions(d: &mut Vec<Diagnostic>, errs: Vec<Error>) ensures final(d)@.len() >= old(d)@.len(), errs@.len() == 0 ==> final(d)@ == old(d)@ { unimplemented!() }
/// the level a reader chose for a rule: an error when no rules are set
#[derive(Clone, Copy)] pub struct VxLevel { pub default: Ghost<bool> }
#[verifier::external_body] pub fn vx_level<L>(rules: &Option<&L>) -> (r: VxLevel) ensures rules is None ==> r.default@ { unimplemented!() }
#[verifier::external_body] pub fn vx_error_level() -> (r: VxLevel) ensures r.default@ { unimplemented!() }
#[verifier::external_body] pub fn vx_push(l: VxLevel, d: &mut Vec<Diagnostic>)
    ensures final(d)@.len() >= old(d)@.len(), final(d)@.len() <= old(d)@.len() + 1, l.default@ ==> final(d)@.len() == old(d)@.len() + 1 && is_error(final(d)@[old(d)@.len() as int]),
        forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == old(d)@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_disabled<L>(rules: &Option<&L>) -> (r: bool) ensures rules is None ==> !r { unimplemented!() }
#[verifier::external_body] pub fn vx_noqa(d: &mut Vec<Diagnostic>) ensures final(d)@.len() >= old(d)@.len(), forall|i: int| old(d)@.len() <= i < final(d)@.len() ==> !is_error(#[trigger] final(d)@[i]), forall|i: int| 0 <= i < old(d)@.len() ==> #[trigger] final(d)@[i] == old(d)@[i] { unimplemented!() }
#[verifier::external_body] pub fn vx_deprecated<L>(d: &mut Vec<Diagnostic>, dep: &Option<Deprecation>, rules: &Option<&L>) ensures final(d)@.len() >= old(d)@.len(), rules is None && dep is None ==> final(d)@ == old(d)@ { unimplemented!() }
#[verifier::external_body] pub fn vx_deprecated_ref<L>(d: &mut Vec<Diagnostic>, dep: Option<&Deprecation>, rules: &Option<&L>) ensures final(d)@.len() >= old(d)@.len(), rules is None && dep is None ==> final(d)@ == old(d)@ { unimplemented!() }
#[verifier::external_body] pub fn vx_rules<'x, L>(r: Option<&'x L>) -> (o: Option<&'x CommonLintRules>) ensures o is None == r is None { unimplemented!() }
pub fn vx_some<'x, T>(o: &'x Option<T>) -> (r: &'x T) requires o is Some ensures *r == o->0 { match o { Some(x) => x, None => { assert(false); unreached() } } }
#[verifier::external_body] pub fn vx_deref<'x, T>(o: &'x Option<Box<T>>) -> (r: Option<&'x T>) ensures match r { Some(x) => o is Some && *x == *o->0, None => o is None } { unimplemented!() }
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { if a { true } else { b } }
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
"""

INV = [
    Raw(V + "invalid.rs", "struct Invalid", rewrites=[("crate::$t", "$t"), ("tombi_diagnostic::$t", "$t")]),
]

I = dict(pre=sync)
RW = [
    ("Box::<MatchEvidence>::default()", "vx_evidence()"), ("match_evidence: Default::default()", "match_evidence: vx_evidence()"), ("local_evaluated_locations: Default::default()", "local_evaluated_locations: vx_valid()"),
    ("Valid::default()", "vx_valid()"), ("local_evaluated_locations: Valid::new()", "local_evaluated_locations: vx_valid()"),
    ("let level = lint_rules $$e;", "let level = vx_level(&lint_rules);"),
    ("Diagnostic { $$k } .push_diagnostic_with_level(level, $$d);", "vx_push(level, $$d);"),
    ("Diagnostic { $$k } .push_diagnostic_with_level(SeverityLevelDefaultError::default(), $$d);", "vx_push(vx_error_level(), $$d);"),
    ("Diagnostic { $$k } .push_diagnostic_with_level(common_rules $$e, $d);", "vx_push(vx_level(&common_rules), $d);"),
    ("Diagnostic { $$k } .push_diagnostic_with_level(common_rules $$e, &mut $d,);", "vx_push(vx_level(&common_rules), &mut $d);"),
    ("lint_rules.and_then($$a).and_then($$b) == Some(true)", "vx_disabled(&lint_rules)"),
    ("common_rules.and_then($$a).and_then($$b) == Some(true)", "vx_disabled(&common_rules)"),
    ("handle_unused_noqa(&mut $d, $$r);", "vx_noqa(&mut $d);"),
    ("handle_deprecated_value(&mut $d, $s.deprecation.as_ref(), $$r);", "vx_deprecated(&mut $d, &$s.deprecation, &lint_rules);"),
    ("handle_deprecated(&mut $d, $s.deprecation.as_ref(), $$r);", "vx_deprecated(&mut $d, &$s.deprecation, &common_rules);"),
    ("handle_deprecated(&mut error.diagnostics, $s.deprecation.as_ref(), $$r);", "vx_deprecated(&mut error.diagnostics, &$s.deprecation, &common_rules);"),
    ("lint_rules.map($$c)", "vx_rules(lint_rules)"),
    ("$s.$f.as_deref()", "vx_deref(&$s.$f)"),
    ("let mut $v = vec![];", "let mut $v: Vec<Diagnostic> = Vec::new();"), ("let mut diagnostics = Vec::with_capacity($n);", "let mut diagnostics: Vec<Diagnostic> = Vec::new();"),
    ("$a.extend(resolution_errors.into_iter().filter_map($$r));", "vx_resolutions(&mut $a, resolution_errors);"),
    ("$a.$b.extend($$r);", "vx_extend(&mut $a.$b, $$r);"), ("$a.extend($$r);", "vx_extend(&mut $a, $$r);"),
    ("std::mem::swap(self, &mut other)", "vx_swap(self, &mut other)"), ("std::mem::swap(&mut self.diagnostics, &mut other)", "vx_swap(&mut self.diagnostics, &mut other)"),
    ("resolve_schema_item($$i, current_schema.schema_uri.clone(), current_schema.definitions.clone(), $$r)", "vx_resolve($$i, current_schema)"),
    ("resolve_schema_item($$i, Cow::Borrowed(current_schema.schema_uri.as_ref()), Cow::Borrowed(current_schema.definitions.as_ref()), $$r)", "vx_resolve($$i, current_schema)"),
    ("resolve_and_collect_schemas_with_errors($$i, current_schema.schema_uri.clone(), current_schema.definitions.clone(), $$r)", "vx_collect($$i, current_schema)"),
    ("schema_resolution_diagnostic($$r)", "vx_resolution($$r)"),
    ("Err(vec![diagnostic].into())", "Err(Invalid::from(vec![diagnostic]))"), ("Err(diagnostics.into())", "Err(Invalid::from(diagnostics))"),
    ("$x.local_evaluated_locations.clone()", "vx_clone(&$x.local_evaluated_locations)"), ("$x.match_evidence.clone()", "vx_clone(&$x.match_evidence)"),
    ("$x.contains(&value)", "vx_contains($x, &value)"),
    ("if let Some($m) = &$s.$f && !$g($$c) { $$a }", "if (match &$s.$f { Some($m) => !$g($$c), None => false }) { let $m = vx_some(&$s.$f); $$a }"),
]
RW += [
    ("vec![diagnostic]", "vx_vec1(diagnostic)"),
    ("comment_directives.map(|directives| directives.iter())", "comment_directives"), ("Option<impl Iterator<Item = &'a TombiValueCommentDirective> + 'a>", "Option<&[TombiValueCommentDirective]>"),
    ("*self.match_evidence == MatchEvidence::default()", "self.match_evidence.vx_untouched()"), ("self.match_evidence.score().cmp(&other.match_evidence.score())", "vx_score(&self.match_evidence, &other.match_evidence)"),
    ("ordering.is_lt()", "matches!(ordering, core::cmp::Ordering::Less)"), ("ordering.is_eq()", "matches!(ordering, core::cmp::Ordering::Equal)"),
    ("$a.assertion_failed |= $$b;", "$a.assertion_failed = vx_or($a.assertion_failed, $$b);"), ("assertion_failed |= $$b;", "assertion_failed = vx_or(assertion_failed, $$b);"), ("adjacent_assertion_failed |= $$b;", "adjacent_assertion_failed = vx_or(adjacent_assertion_failed, $$b);"),
    ("let mut $v = Vec::new();", "let mut $v: Vec<Diagnostic> = Vec::new();"), ("let mut each_results = Vec::with_capacity($$n);", "let mut each_results: Vec<Res> = Vec::new();"),
    ("let mut valid_count = 0;", "let mut valid_count: usize = 0;"), ("unreachable!($$e);", "vx_unreachable()"), ("unreachable!($$e)", "vx_unreachable()"),
    ("let mut error = each_results.into_iter().fold($$i, |mut a, b| { $$b a });", "let mut a = $$i; let mut vx_q = each_results; while let Some(b) = vx_shift(&mut vx_q) { $$b } let mut error = a;"),
    ("for result in each_results { match result { Ok(mut result) if $$c => { $$a } Ok(result) => { $$b } Err(mut error) if $$d => { $$e } Err(_) => {} } }",
     "let mut vx_q = each_results; while let Some(vx_x) = vx_shift(&mut vx_q) { match vx_x { Ok(vx_r) => { if $$c { let mut result = vx_r; $$a } else { let result = vx_r; $$b } } Err(vx_e) => { let mut error = vx_e; if $$d { $$e } } } }"),
    ("for $p in &$a { $$b }", "let vx_v = &$a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $p = &vx_v[vx_i]; vx_i += 1; $$b }"),
    ("if let Some($n) = $$e && let Err($x) = $$f { $$a }", "if let Some($n) = $$e { if let Err($x) = $$f { $$a } }"),
    ("match (primary, secondary) { (Ok(mut left), Ok(right)) => { $$a } (Err(mut error), Ok(result)) | (Ok(result), Err(mut error)) => { $$b } (Err(mut left), Err(right)) => { $$c } }",
     "match (primary, secondary) { (Ok(vx_l), Ok(right)) => { let mut left = vx_l; $$a } (Err(vx_e), Ok(result)) => { let mut error = vx_e; $$b } (Ok(result), Err(vx_e)) => { let mut error = vx_e; $$b } (Err(vx_l), Err(right)) => { let mut left = vx_l; $$c } }"),
    ("left.match_evidence.merge_from(*right.match_evidence)", "vx_merge(&mut left.match_evidence, right.match_evidence)"), ("match_evidence.merge_from(*$a.match_evidence)", "vx_merge(&mut match_evidence, $a.match_evidence)"),
    ("match_evidence.merge_from(*vx_clone($$a))", "vx_merge(&mut match_evidence, vx_clone($$a))"),
    ("Err(mut error) => { $$b }", "Err(vx_e) => { let mut error = vx_e; $$b }"),
]
TYPES = TYPES.replace("#[verifier::external_body] pub fn vx_untouched(&self) -> bool { true }", "#[verifier::external_body] pub fn vx_untouched(&self) -> (r: bool) ensures r == untouched(*self) { true }") \
    .replace("pub fn vx_evidence() -> Box<MatchEvidence> {", "pub fn vx_evidence() -> (r: Box<MatchEvidence>) ensures untouched(*r) {") + r"""
pub uninterp spec fn untouched(e: MatchEvidence) -> bool;
#[verifier::external_body] pub fn vx_merge(a: &mut Box<MatchEvidence>, b: Box<MatchEvidence>) {}
#[verifier::external_body] pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }
#[verifier::external_body] pub fn vx_unreachable() -> Res requires false { unimplemented!() }
#[verifier::external_body] pub fn vx_shift<T>(q: &mut Vec<T>) -> (r: Option<T>)
    ensures old(q)@.len() == 0 ==> r is None && final(q)@ == old(q)@, old(q)@.len() > 0 ==> r == Some(old(q)@[0]) && final(q)@ == old(q)@.skip(1) { unimplemented!() }
pub open spec fn noks(s: Seq<Res>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { b2n(ok(s[0])) + noks(s.skip(1)) } }
pub proof fn lemma_noks_push(s: Seq<Res>, r: Res)
    ensures noks(s.push(r)) == noks(s) + b2n(ok(r)),
    decreases s.len(),
{ if s.len() == 0 { assert(s.push(r).skip(1) =~= s); } else { lemma_noks_push(s.skip(1), r); assert(s.push(r).skip(1) =~= s.skip(1).push(r)); } }
pub proof fn lemma_hits(v: int, s: Seq<CurrentSchema>, n: int)
    ensures hits(v, s, n) <= takes(v, s, n) <= n || n < 0,
    decreases n,
{ if n > 0 { lemma_hits(v, s, n - 1); } }
pub open spec fn pristine(e: Invalid) -> bool { !e.assertion_failed && e.diagnostics@.len() == 0 && untouched(*e.match_evidence) }
"""
# the arguments that only feed messages are kept; generic values are the trait of the specification
ARGS = []
SELF = "value.vid()"
ITE_CLOSURE = "|branch_result: Res, if_result: Res| -> (r: Res) ensures ok(r) == ok(branch_result), "
COMB = [
    Fn(V + "invalid.rs", "Invalid::new", **I, ensures="pristine(r)", header="impl Invalid"),
    Fn(V + "invalid.rs", "Invalid::combine", **I, header="impl Invalid",  rewrites=[("mut other: Self", "vx_other: Self")], entry="let mut other = vx_other;",
       ensures="pristine(*old(self)) ==> *final(self) == vx_other, vx_other.assertion_failed && old(self).assertion_failed ==> final(self).assertion_failed"),
    Fn(V + "invalid.rs", "Invalid::prepend_diagnostics", **I, header="impl Invalid", rewrites=[("mut other: Vec<Diagnostic>", "vx_other: Vec<Diagnostic>")], entry="let mut other = vx_other;",
       ensures="final(self).assertion_failed == old(self).assertion_failed, final(self).diagnostics@ == vx_other@ + old(self).diagnostics@"),
    Fn(V + "invalid.rs", "From for Invalid :: from", **I, header="impl Invalid", rewrites=[("tombi_diagnostic::Diagnostic", "Diagnostic"), ("diagnostics.iter().any(|diagnostic| diagnostic.level() == Level::ERROR)", "vx_any_error(&diagnostics)")],
       ensures="r.diagnostics == diagnostics, r.assertion_failed == exists|i: int| 0 <= i < diagnostics@.len() && is_error(#[trigger] diagnostics@[i])"),
    Fn(V + "validate.rs", "fn is_assertion_success", **I, ensures="r == ok(*result)"),
    Fn(V + "validate.rs", "fn merge_validation_results", **I, ensures="ok(r) == (ok(primary) && ok(secondary)), r is Ok == (primary is Ok && secondary is Ok), told(r) == told(primary) + told(secondary)"),
    Fn(V + "validate.rs", "fn with_lint_diagnostics", **I, rewrites=[("tombi_diagnostic::Diagnostic", "Diagnostic")], ensures="ok(r) == ok(result), r is Ok == (result is Ok && lint_rules_diagnostics@.len() == 0), told(r) == told(result) + lint_rules_diagnostics@.len()"),
    Fn(V + "validate.rs", "fn handle_anything_schema", **I, ensures="r is Ok", rewrites=[("<T>", "<T: ValueImpl>"), ("where T: ValueImpl,", "")]),
    Fn(V + "validate.rs", "fn handle_nothing_schema", **I, ensures="!ok(r), told(r) == 1", rewrites=[("<T>", "<T: ValueImpl>"), ("where T: ValueImpl,", "")], ghost=[("before", "Err(Invalid::from(diagnostics))", "proof { assert(is_error(diagnostics@[0])); }")]),
    Fn(V + "validate.rs", "fn validate_deprecated", **I, rewrites=[("comment_directives: Option<impl IntoIterator<Item = &'a TombiValueCommentDirective> + 'a,>", "comment_directives: Option<&'a [TombiValueCommentDirective]>"),
        ("handle_deprecated(&mut diagnostics, deprecation, $$r);", "vx_deprecated_ref(&mut diagnostics, deprecation, &common_rules);")], ensures="ok(r)"),
    Fn(VV + "not_schema.rs", "fn validate_not", **I, ensures="ok(r) == not_ok(value.vid(), *not_schema, *current_schema), common_rules is None && !ok(r) ==> told(r) >= 1"),
    Fn(VV + "if_then_else.rs", "fn validate_if_then_else", **I, closures={0: lambda p, b: "|branch_result: Res, if_result: Res| -> (r: Res) ensures (ok(r) == ok(branch_result))"}, ensures="ok(r) == ite_ok(value.vid(), *if_then_else_schema, *current_schema)"),
    Fn(VV + "all_of.rs", "fn validate_all_of", **I, ensures="ok(r) == all_of_ok(value.vid(), *all_of_schema, *current_schema)",
       loops={0: Loop("while", invariant="vx_i <= vx_v@.len(), assertion_failed == !all_sat(value.vid(), vx_v@, vx_i as int)", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i")}),
    Fn(VV + "any_of.rs", "fn validate_any_of", **I, ensures="ok(r) == any_of_ok(value.vid(), *any_of_schema, *current_schema)",
       loops={0: Loop("while", invariant="""vx_i <= vx_v@.len(), matched == (hits(value.vid(), vx_v@, vx_i as int) >= 1), pristine(total_error) || total_error.assertion_failed,
            hits(value.vid(), vx_v@, vx_i as int) <= takes(value.vid(), vx_v@, vx_i as int), total_error.assertion_failed == (takes(value.vid(), vx_v@, vx_i as int) > hits(value.vid(), vx_v@, vx_i as int))""", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i")}),
    Fn(VV + "one_of.rs", "fn validate_one_of", **I, ensures="ok(r) == one_of_ok(value.vid(), *one_of_schema, *current_schema)",
       ghost=[("before", "each_results.push(result)", "proof { lemma_noks_push(each_results@, result); }")],
       loops={0: Loop("while", invariant="""vx_i <= vx_v@.len(), valid_count == noks(each_results@), noks(each_results@) == hits(value.vid(), vx_v@, vx_i as int), each_results@.len() == takes(value.vid(), vx_v@, vx_i as int), valid_count <= vx_i""", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              1: Loop("while let", invariant="noks(vx_q@) == 1, one_of_ok(value.vid(), *one_of_schema, *current_schema) == !adjacent_assertion_failed", ensures="false", decreases="vx_q@.len()"),
              2: Loop("while let", invariant="noks(vx_q@) == 0, (a.assertion_failed || pristine(a)), n0 == vx_q@.len() || a.assertion_failed, n0 == vx_q@.len() ==> pristine(a), vx_q@.len() <= n0", before="let ghost n0 = vx_q@.len();", ensures="vx_q@.len() == 0", decreases="vx_q@.len()")}),
    Fn(V + "validate.rs", "fn validate_adjacent_applicators", **I, ensures="ok(r) == adj_ok(value.vid(), one_of_schema, any_of_schema, all_of_schema, not_schema, *current_schema), one_of_schema is None && any_of_schema is None && all_of_schema is None && not_schema is None ==> r is Ok"),
]
STUB = r"""
#[verifier::external_body] pub fn validate_resolved_schema<T: Validate>(value: &T, accessors: &[Accessor], resolved_schema: &CurrentSchema, schema_context: &SchemaContext, comment_directives: Option<&[TombiValueCommentDirective]>, common_rules: Option<&CommonLintRules>) -> (r: Option<Res>)
    ensures match branch(value.vid(), *resolved_schema) { Some(b) => r is Some && ok(r->0) == b, None => r is None } { unimplemented!() }
"""
UNIT = Unit("schema", [Text(TYPES), *INV, *COMB, Text(STUB)], rewrites=RW)

# ---------------------------------------------------------------- the scalar validators
SCALARS = {"Integer": "i64", "Float": "f64", "Boolean": "bool"}
DATES = ["LocalDate", "LocalDateTime", "LocalTime", "OffsetDateTime"]
LEAF = r"""
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
pub open spec fn ple(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn plt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn pge(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal) }
pub open spec fn pgt(a: f64, b: f64) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub uninterp spec fn feq(a: f64, b: f64) -> bool;
pub uninterp spec fn fmultiple(a: f64, b: f64) -> bool;
pub uninterp spec fn fpos(a: f64) -> bool;
#[verifier::external_body] pub fn vx_positive(a: &f64) -> (r: bool) ensures r == fpos(*a) { unimplemented!() }
pub uninterp spec fn i2f(a: i64) -> f64;
/// the comparison operators of f64 are those of its PartialOrd
pub broadcast axiom fn f64_obeys() ensures #[trigger] <f64 as PartialOrdSpec>::obeys_partial_cmp_spec();
#[verifier::external_body] pub fn vx_feq(a: f64, b: &f64) -> (r: bool) ensures r == feq(a, *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_i2f(a: i64) -> (r: f64) ensures r == i2f(a) { unimplemented!() }
#[verifier::external_body] pub fn is_multiple_of_with_tolerance(value: f64, multiple_of: f64) -> (r: bool) ensures r == fmultiple(value, multiple_of) { unimplemented!() }
pub trait VxElem: Sized { spec fn same(a: Self, b: Self) -> bool; }
impl VxElem for i64 { open spec fn same(a: i64, b: i64) -> bool { a == b } }
impl VxElem for bool { open spec fn same(a: bool, b: bool) -> bool { a == b } }
impl VxElem for f64 { open spec fn same(a: f64, b: f64) -> bool { feq(a, b) } }
impl VxElem for String { open spec fn same(a: String, b: String) -> bool { a@ == b@ } }
pub open spec fn among<T: VxElem>(v: T, s: Seq<T>) -> bool { exists|i: int| 0 <= i < s.len() && T::same(#[trigger] s[i], v) }
#[verifier::external_body] pub fn vx_contains<T: VxElem>(s: &Vec<T>, v: &T) -> (r: bool) ensures r == among(*v, s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_string(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq_str(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub open spec fn among_str(v: Seq<char>, s: Seq<String>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == v }
#[verifier::external_body] pub fn vx_any_str(s: &Vec<String>, v: &str) -> (r: bool) ensures r == among_str(v@, s@) { unimplemented!() }
/// v % m with the two cases i64 has no answer for: a divisor of 0, and the smallest value over -1
#[verifier::external_body] pub fn vx_checked_rem(a: i64, b: i64) -> (r: Option<i64>)
    ensures (b == 0 || (a == i64::MIN && b == -1)) ==> r is None, b != 0 && !(a == i64::MIN && b == -1) ==> r is Some && ((r->0 == 0) == ((a as int) % (b as int) == 0)) { unimplemented!() }
#[verifier::external_body] pub fn vx_or_zero(o: Option<i64>) -> (r: i64) ensures r == if o is Some { o->0 } else { 0 } { unimplemented!() }
#[verifier::external_body] pub fn vx_text() -> String { unimplemented!() }
pub struct NumSchema<T> { pub minimum: Option<T>, pub maximum: Option<T>, pub exclusive_minimum: Option<T>, pub exclusive_maximum: Option<T>, pub multiple_of: Option<T>, pub enum_: Option<Vec<T>>, pub const_value: Option<T>,
    pub deprecation: Option<Deprecation>, pub one_of: Option<Box<OneOfSchema>>, pub any_of: Option<Box<AnyOfSchema>>, pub all_of: Option<Box<AllOfSchema>>, pub not: Option<Box<NotSchema>> }
pub type IntegerSchema = NumSchema<i64>;
pub type FloatSchema = NumSchema<f64>;
pub struct ConstSchema<T> { pub enum_: Option<Vec<T>>, pub const_value: Option<T>,
    pub deprecation: Option<Deprecation>, pub one_of: Option<Box<OneOfSchema>>, pub any_of: Option<Box<AnyOfSchema>>, pub all_of: Option<Box<AllOfSchema>>, pub not: Option<Box<NotSchema>> }
pub type BooleanSchema = ConstSchema<bool>;
pub open spec fn bx<T>(o: Option<Box<T>>) -> Option<&'static T>;
"""
LEAF = LEAF.replace("pub open spec fn bx<T>(o: Option<Box<T>>) -> Option<&'static T>;\n", r"""
pub open spec fn adj_b(v: int, o: Option<Box<OneOfSchema>>, a: Option<Box<AnyOfSchema>>, l: Option<Box<AllOfSchema>>, n: Option<Box<NotSchema>>, c: CurrentSchema) -> bool {
    (o is Some ==> one_of_ok(v, *o->0, c)) && (a is Some ==> any_of_ok(v, *a->0, c)) && (l is Some ==> all_of_ok(v, *l->0, c)) && (n is Some ==> not_ok(v, *n->0, c))
}
pub open spec fn bare(o: Option<Box<OneOfSchema>>, a: Option<Box<AnyOfSchema>>, l: Option<Box<AllOfSchema>>, n: Option<Box<NotSchema>>) -> bool { o is None && a is None && l is None && n is None }
/// the keywords an integer breaks
pub open spec fn int_multiple(v: i64, m: i64) -> bool { m == 0 || (v as int) % (m as int) == 0 }
pub open spec fn int_bad(v: i64, s: IntegerSchema) -> nat {
    b2n(s.const_value is Some && v != s.const_value->0) + b2n(s.enum_ is Some && !among(v, s.enum_->0@)) + b2n(s.maximum is Some && v > s.maximum->0) + b2n(s.minimum is Some && v < s.minimum->0)
        + b2n(s.exclusive_maximum is Some && v >= s.exclusive_maximum->0) + b2n(s.exclusive_minimum is Some && v <= s.exclusive_minimum->0) + b2n(s.multiple_of is Some && !int_multiple(v, s.multiple_of->0))
}
pub open spec fn float_bad(v: f64, s: FloatSchema, guard: bool) -> nat {
    b2n(s.const_value is Some && !feq(v, s.const_value->0)) + b2n(s.enum_ is Some && !among(v, s.enum_->0@)) + b2n(s.maximum is Some && !ple(v, s.maximum->0)) + b2n(s.minimum is Some && !pge(v, s.minimum->0))
        + b2n(s.exclusive_maximum is Some && !plt(v, s.exclusive_maximum->0)) + b2n(s.exclusive_minimum is Some && !pgt(v, s.exclusive_minimum->0)) + b2n(s.multiple_of is Some && (guard ==> fpos(s.multiple_of->0)) && !fmultiple(v, s.multiple_of->0))
}
pub open spec fn const_bad<T: VxElem>(v: T, s: ConstSchema<T>) -> nat { b2n(s.const_value is Some && !T::same(s.const_value->0, v)) + b2n(s.enum_ is Some && !among(v, s.enum_->0@)) }
pub open spec fn text_bad(v: Seq<char>, s: ConstSchema<String>) -> nat { b2n(s.const_value is Some && s.const_value->0@ != v) + b2n(s.enum_ is Some && !among_str(v, s.enum_->0@)) }
pub proof fn lemma_rem(a: i64, b: i64)
    requires b != 0, !(a == i64::MIN && b == -1) ensures true {}
""")
for n, t in list(SCALARS.items()) + [(d, None) for d in DATES]:
    ty = t or "String"
    LEAF += f"""
#[verifier::external_body] pub struct {n} {{ _x: () }}
#[verifier::external_body] pub struct {n}Rules {{ _x: () }}
{"" if n in ("Integer","Float","Boolean") else f"#[verifier::external_body] pub struct {n}CommonLintRules {{ _x: () }}"}
{"" if t else f"pub type {n}Schema = ConstSchema<String>;"}
impl {n} {{
    pub uninterp spec fn v(&self) -> {t or 'Seq<char>'};
    #[verifier::external_body] pub fn {'value' if t else 'vx_text'}(&self) -> (r: {ty}) ensures r{'' if t else '@'} == self.v() {{ unimplemented!() }}
}}
impl ValueImpl for {n} {{ uninterp spec fn vid(&self) -> int; #[verifier::external_body] fn range(&self) -> Range {{ unimplemented!() }} #[verifier::external_body] fn comment_directives(&self) -> Option<Vec<&TombiValueCommentDirective>> {{ unimplemented!() }} }}
impl Validate for {n} {{ #[verifier::external_body] fn validate(&self, accessors: &[Accessor], current_schema: Option<&CurrentSchema>, schema_context: &SchemaContext) -> (r: Result<Valid, Invalid>) {{ unimplemented!() }} }}
"""


def leaf(file, name, arg, bad, sch, extra=()):
    adj = f"{sch}.one_of, {sch}.any_of, {sch}.all_of, {sch}.not"
    return Fn(VV + file, "fn " + name, **I, rewrites=list(extra), attrs="#[verifier::spinoff_prover]", entry="broadcast use f64_obeys;",
              ensures=f"ok(r) == ({bad} == 0 && adj_b({arg}.vid(), {adj}, *current_schema)), lint_rules is None && {sch}.deprecation is None && bare({adj}) ==> (r is Ok) == ({bad} == 0) && told(r) == {bad}")


CHECKS = [Fn(V + "validate.rs", f"fn check_{n}", **I, ensures=f"T::obeys_partial_cmp_spec() ==> r == ({c})")
          for n, c in [(k, " || ".join(f"value.partial_cmp_spec({k.replace('check_', '')}) == Some(Ordering::{o})" for o in os))
                       for k, os in [("maximum", ("Less", "Equal")), ("minimum", ("Greater", "Equal")), ("exclusive_maximum", ("Less",)), ("exclusive_minimum", ("Greater",))]]]
FLT = [("value == *const_value", "vx_feq(value, const_value)"), ("integer_value.value() as f64", "vx_i2f(integer_value.value())")]
REM = [("if let Some($m) = &$s.$f && value % *$k != 0 { $$a }", "if (match &$s.$f { Some($m) => value % *$k != 0, None => false }) { let $m = vx_some(&$s.$f); $$a }"),
       ("if let Some($m) = &$s.$f && value.checked_rem(*$k).unwrap_or_default() != 0 { $$a }", "if (match &$s.$f { Some($m) => vx_or_zero(vx_checked_rem(value, *$k)) != 0, None => false }) { let $m = vx_some(&$s.$f); $$a }")]
TXT = [("value_string == *const_value", "vx_eq_string(&value_string, const_value)"), ("$x.value().to_string()", "$x.vx_text()"), ("const_value.clone()", "vx_text()")]
SNAKE = lambda n: re.sub(r"(?<!^)(?=[A-Z])", "_", n).lower()
MULT = [("if let Some($m) = &$s.$f && *$k > 0.0 && !$g($$c) { $$a }", "if (match &$s.$f { Some($m) => vx_positive($k) && !$g($$c), None => false }) { let $m = vx_some(&$s.$f); $$a }")]
LEAVES = [
    leaf("integer.rs", "validate_integer_schema", "integer_value", "int_bad(integer_value.v(), *integer_schema)", "integer_schema", REM),
    leaf("integer.rs", "validate_float_schema_for_integer", "integer_value", "float_bad(i2f(integer_value.v()), *float_schema, true)", "float_schema", FLT + MULT),
    leaf("float.rs", "validate_float", "float_value", "float_bad(float_value.v(), *float_schema, false)", "float_schema", FLT + MULT),
    leaf("boolean.rs", "validate_boolean", "boolean_value", "const_bad(boolean_value.v(), *boolean_schema)", "boolean_schema"),
] + [leaf(SNAKE(n) + ".rs", "validate_" + SNAKE(n), SNAKE(n) + "_value", f"text_bad({SNAKE(n)}_value.v(), *{SNAKE(n)}_schema)", SNAKE(n) + "_schema", TXT + [("enum_.contains(&value_string)", "vx_any_str(enum_, value_string.as_str())")]) for n in DATES]
UNIT = Unit("schema", [Text(TYPES), *INV, *COMB, Text(STUB), Text(LEAF), *CHECKS, *LEAVES], rewrites=RW)

# ---------------------------------------------------------------- strings
FMT = ["Email", "Hostname", "Uri", "UriReference", "Uuid", "Ipv4", "Ipv6", "DateTime", "DateTimeLocal", "Date", "Time", "TimeLocal", "Regex", "JsonPointer"]
FMOD = dict(DateTimeLocal="local_date_time", TimeLocal="local_time")
STRT = r"""
pub enum StringFormat { """ + ", ".join(FMT) + r""" }
impl Copy for StringFormat {}
impl Clone for StringFormat { fn clone(&self) -> (r: StringFormat) ensures r == *self { *self } }
pub uninterp spec fn glen(s: Seq<char>) -> nat;
pub uninterp spec fn format_ok(f: StringFormat, s: Seq<char>) -> bool;
pub uninterp spec fn regex_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn regex_hit(p: Seq<char>, s: Seq<char>) -> bool;
#[verifier::external_body] pub struct Regex { _x: () }
impl Regex { pub uninterp spec fn p(&self) -> Seq<char>; #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == regex_hit(self.p(), s@) { unimplemented!() } }
#[verifier::external_body] pub fn vx_regex(p: &String) -> (r: Result<Regex, Error>) ensures r is Ok == regex_of(p@) is Some, r is Ok ==> r->Ok_0.p() == p@ { unimplemented!() }
#[verifier::external_body] pub fn vx_graphemes(s: &str) -> (r: usize) ensures r == glen(s@) { unimplemented!() }
pub struct StringSchema { pub min_length: Option<usize>, pub max_length: Option<usize>, pub format: Option<StringFormat>, pub pattern: Option<String>, pub enum_: Option<Vec<String>>, pub const_value: Option<String>,
    pub deprecation: Option<Deprecation>, pub one_of: Option<Box<OneOfSchema>>, pub any_of: Option<Box<AnyOfSchema>>, pub all_of: Option<Box<AllOfSchema>>, pub not: Option<Box<NotSchema>> }
pub open spec fn string_bad(v: Seq<char>, s: StringSchema, formats: bool) -> nat {
    b2n(s.const_value is Some && s.const_value->0@ != v) + b2n(s.enum_ is Some && !among_str(v, s.enum_->0@)) + b2n(s.max_length is Some && glen(v) > s.max_length->0) + b2n(s.min_length is Some && glen(v) < s.min_length->0)
        + b2n(formats && s.format is Some && !format_ok(s.format->0, v)) + b2n(s.pattern is Some && regex_of(s.pattern->0@) is Some && !regex_hit(s.pattern->0@, v))
}
pub trait LikeString: Sized { spec fn sv(&self) -> Seq<char>; fn value(&self) -> (r: &str) ensures r@ == self.sv(); }
pub mod format {
    use super::*;
""" + "\n".join(f"    pub mod {FMOD.get(f, SNAKE(f))} {{ use super::*; #[verifier::external_body] pub fn validate_format(value: &str) -> (r: bool) ensures r == format_ok(StringFormat::{f}, value@) {{ unimplemented!() }} }}" for f in FMT) + r"""
}
"""
SRW = [
    ("Option<impl IntoIterator<Item = &'a TombiValueCommentDirective> + 'a>", "Option<&'a [TombiValueCommentDirective]>"), ("let comment_directives = comment_directives.map($$r);", ""),
    ("value == const_value.as_str()", "vx_eq_str(value, const_value.as_str())"), ("$x.iter().any(|item| item == value)", "vx_any_str($x, value)"),
    ("UnicodeSegmentation::graphemes(value, true).count()", "vx_graphemes(value)"),
    ("if let Some($m) = &$s.$f && $a > *$b { $$x }", "if (match &$s.$f { Some($m) => $a > *$b, None => false }) { let $m = vx_some(&$s.$f); $$x }"),
    ("if let Some($m) = &$s.$f && $a < *$b { $$x }", "if (match &$s.$f { Some($m) => $a < *$b, None => false }) { let $m = vx_some(&$s.$f); $$x }"),
    ("if format_assertion && let Some(format) = string_schema.format && !match format { $$c } { $$a }", "if (format_assertion && match string_schema.format { Some(format) => !(match format { $$c }), None => false }) { $$a }"),
    ("if let Some(pattern) = &string_schema.pattern && let Ok(regex) = Regex::new(pattern).inspect_err($$e) && !$$c(value) { $$a }", "if (match &string_schema.pattern { Some(pattern) => match vx_regex(pattern) { Ok(regex) => !$$c(value), Err(_) => false }, None => false }) { let pattern = vx_some(&string_schema.pattern); $$a }"),
    ("validate_raw_string(string_value.value(), &string_value.to_string(), ValueImpl::range(string_value), string_schema, format_assertion, lint_rules, $$c)", "validate_raw_string(string_value.value(), \"\", string_value.range(), string_schema, format_assertion, lint_rules, None)"),
    ("validate_fn: fn(&str) -> bool", "validate_fn: VxFormat"), ("validate_fn(string_value.value())", "vx_call(validate_fn, string_value.value())"),
    ("let mut diagnostics = vec![];", "let mut diagnostics: Vec<Diagnostic> = Vec::new();"),
]
STRS = [
    Fn(VV + "string.rs", "fn validate_raw_string", **I, rewrites=SRW, ensures="ok(r) == (string_bad(value@, *string_schema, format_assertion) == 0), lint_rules is None ==> (r is Ok) == (string_bad(value@, *string_schema, format_assertion) == 0) && told(r) == string_bad(value@, *string_schema, format_assertion)"),
    leaf("string.rs", "validate_string", "string_value", "string_bad(string_value.sv(), *string_schema, format_assertion)", "string_schema", SRW),
]

# ---------------------------------------------------------------- which validator answers: types, projections, branches
VARS = ["Boolean", "Integer", "Float", "String", "LocalDate", "LocalDateTime", "LocalTime", "OffsetDateTime", "Array", "Table"]
DISP = r"""
#[verifier::external_body] pub struct AnythingSchema { _x: () }
#[verifier::external_body] pub struct JsonValue { _x: () }
#[verifier::external_body] pub struct SemanticSchema { _x: () }
#[verifier::external_body] pub struct VxRest { _x: () }
pub struct ArraySchema { pub items: Option<SchemaItem>, pub prefix_items: Option<Vec<SchemaItem>>, pub additional_items: Option<bool>, pub additional_items_schema: Option<SchemaItem>, pub unevaluated_items: Option<bool>, pub unevaluated_items_schema: Option<SchemaItem>,
    pub contains: Option<SchemaItem>, pub min_contains: Option<usize>, pub max_contains: Option<usize>, pub min_items: Option<usize>, pub max_items: Option<usize>, pub unique_items: Option<bool>, pub enum_: Option<Vec<JsonValue>>, pub const_value: Option<JsonValue>,
    pub deprecation: Option<Deprecation>, pub one_of: Option<Box<OneOfSchema>>, pub any_of: Option<Box<AnyOfSchema>>, pub all_of: Option<Box<AllOfSchema>>, pub not: Option<Box<NotSchema>>, pub if_then_else: Option<Box<IfThenElseSchema>> }
pub enum SchemaView { """ + ", ".join(f"{v}({v}Schema)" for v in VARS) + r""", OneOf(OneOfSchema), AnyOf(AnyOfSchema), AllOf(AllOfSchema), Null, Anything(AnythingSchema), Nothing(Range) }
pub struct CurrentSchema { pub schema_view: SchemaView, pub semantic_schema: Option<SemanticSchema>, pub rest: VxRest }
pub enum ValueType { """ + ", ".join(VARS) + r""", Incomplete }
#[verifier::external_body] pub struct SchemaType { _x: () }
pub uninterp spec fn schema_type(t: ValueType) -> Option<SchemaType>;
impl SchemaType { #[verifier::external_body] pub fn from_value_type(t: ValueType) -> (r: Option<SchemaType>) ensures r == schema_type(t) { unimplemented!() } }
impl SemanticSchema {
    pub uninterp spec fn typed(&self) -> bool;
    pub uninterp spec fn literal(&self) -> bool;
    #[verifier::external_body] pub fn has_type_assertion(&self) -> (r: bool) ensures r == self.typed() { unimplemented!() }
    #[verifier::external_body] pub fn has_direct_literal_assertion(&self) -> (r: bool) ensures r == self.literal() { unimplemented!() }
    #[verifier::external_body] pub fn has_direct_type_assertion(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn has_direct_constraints_for_type(&self, t: SchemaType) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_boolean(&self) -> (r: bool) ensures r == sem_bool(*self) { unimplemented!() }
}
pub uninterp spec fn sem_bool(s: SemanticSchema) -> bool;
/// the schema's face for one type of value
pub uninterp spec fn face(c: CurrentSchema, t: SchemaType) -> Option<CurrentSchema>;
impl CurrentSchema { #[verifier::external_body] pub fn for_instance_type(&self, t: SchemaType, formats: Option<&[StringFormat]>) -> (r: Option<CurrentSchema>) ensures r == face(*self, t) { unimplemented!() } }
impl SchemaContext { #[verifier::external_body] pub fn string_formats(&self) -> Option<&[StringFormat]> { unimplemented!() } }
impl Copy for SchemaType {} impl Clone for SchemaType { #[verifier::external_body] fn clone(&self) -> (r: SchemaType) ensures r == *self { *self } }
pub uninterp spec fn cyclic(c: SchemaContext, s: CurrentSchema) -> bool;
#[verifier::external_body] pub fn vx_cycle(c: &SchemaContext, s: &CurrentSchema) -> (r: bool) ensures r == cyclic(*c, *s) { unimplemented!() }
/// a value of this type is judged by the keywords of this view
pub open spec fn suits(t: ValueType, s: SchemaView) -> bool {
    match s {
""" + "\n".join(f"        SchemaView::{v}(_) => t is {v}" + (" || t is Integer" if v == "Float" else "") + "," for v in VARS) + r"""
        _ => false,
    }
}
pub open spec fn sides(v: int, s: SchemaView, c: CurrentSchema) -> bool {
    match s {
""" + "\n".join(f"        SchemaView::{v}(x) => adj_b(v, x.one_of, x.any_of, x.all_of, x.not, c)," for v in VARS) + r"""
        _ => true,
    }
}
/// a value of another type: only the applicators next to the keywords speak, and only if the schema asserts no type
pub open spec fn mismatch_ok(v: int, c: CurrentSchema) -> bool { c.semantic_schema is Some && !c.semantic_schema->0.typed() && !c.semantic_schema->0.literal() && sides(v, c.schema_view, c) }
pub trait VxTyped: ValueImpl { spec fn vt(&self) -> ValueType; fn value_type(&self) -> (r: ValueType) ensures r == self.vt(); }
#[verifier::external_body] pub fn vx_directives<'x>() -> Option<&'x [TombiValueCommentDirective]> { unimplemented!() }
#[verifier::external_body] pub fn vx_key_rules<L>() -> (Option<L>, Vec<Diagnostic>) { unimplemented!() }
#[verifier::external_body] pub fn vx_no_projection() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vx_schema_value_type(s: &SchemaView) -> ValueType { unimplemented!() }
/// what projection gives: nothing when the view already suits the value
pub open spec fn projects(t: ValueType, c: CurrentSchema, r: Option<CurrentSchema>) -> bool { (suits_face(t, c.schema_view) ==> r is None) && (r is Some ==> schema_type(t) is Some && r == face(c, schema_type(t)->0)) }
pub open spec fn suits_face(t: ValueType, s: SchemaView) -> bool { suits(t, s) || t is Incomplete || (t is String && (s is LocalDate || s is LocalDateTime || s is LocalTime || s is OffsetDateTime)) }
""" + "".join(f"impl VxTyped for {n} {{ open spec fn vt(&self) -> ValueType {{ ValueType::{n} }} #[verifier::external_body] fn value_type(&self) -> (r: ValueType) {{ unimplemented!() }} }}\n" for n in list(SCALARS) + DATES)
TYPES = TYPES.replace("#[verifier::external_body] pub struct CurrentSchema { _x: () }\n", "")


def adjm(text):
    text = sync(text)
    m = re.search(r"macro_rules! adjacent \{\s*\(\$schema:expr\) => \{\s*(\(.*?\))\s*\};\s*\}", text, re.S)
    if not m:
        raise Lost("adjacent_applicators: no local macro `adjacent`")
    body = m.group(1).replace("$schema", "schema")
    text = text[:m.start()] + text[m.end():]
    return text.replace("adjacent!(schema)", body).replace("super::NotSchema", "NotSchema")


TW = [("T: Validate + ValueImpl", "T: Validate + VxTyped"), ("$s.schema_view.as_ref()", "&$s.schema_view"), ("ValueImpl::range($x)", "$x.range()"),
      ("$c.semantic_schema.as_deref().is_some_and(|schema| { $$b })", "(match $c.semantic_schema.as_ref() { Some(schema) => { $$b } None => false })"),
      ("$c.semantic_schema.as_deref().is_some_and(|schema| schema.has_direct_type_assertion())", "(match $c.semantic_schema.as_ref() { Some(schema) => schema.has_direct_type_assertion(), None => false })"),
      ("!$c.semantic_schema.as_deref().is_some_and(|schema| { $$b })", "!(match $c.semantic_schema.as_ref() { Some(schema) => { $$b } None => false })"),
      ("matches!(current_schema.semantic_schema.as_deref(), Some(SemanticSchema::Boolean(_)))", "(match current_schema.semantic_schema.as_ref() { Some(schema) => schema.vx_is_boolean(), None => false })"),
      ("let _cycle_guard = $$e?;", "if vx_cycle(schema_context, resolved_schema) { return None; }"),
      ("let current_schema = current_schema?;", "let current_schema = match current_schema { Some(x) => x, None => { return None; } };"),
      ("let instance_type = $$e?;", "let instance_type = match $$e { Some(x) => x, None => { return None; } };"),
      ("matches!($$e, $$p if is_boolean_schema)", "(matches!($$e, $$p) && is_boolean_schema)"),
      ("handle_type_mismatch($s.schema_view.value_type(), $$r)", "handle_type_mismatch(vx_schema_value_type(&$s.schema_view), $$r)"),
      ("value: &impl ValueImpl", "value: &impl VxTyped"),
      ]
EXACT = "exists|i: int| 0 <= i < 0"
RESOLVED = """cyclic(*schema_context, *resolved_schema) || resolved_schema.schema_view is Null ==> r is None,
       !cyclic(*schema_context, *resolved_schema) ==> match resolved_schema.schema_view {
           SchemaView::Null => r is None,
           SchemaView::Nothing(_) => r is Some && !ok(r->0),
           SchemaView::Anything(_) => r is Some && (ok(r->0) || (exists|p: CurrentSchema| projects(value.vt(), *resolved_schema, Some(p)) && !#[trigger] sat(value.vid(), Some(p)))),
           SchemaView::OneOf(s) => r is Some && ok(r->0) == one_of_ok(value.vid(), s, *resolved_schema),
           SchemaView::AnyOf(s) => r is Some && ok(r->0) == any_of_ok(value.vid(), s, *resolved_schema),
           SchemaView::AllOf(s) => r is Some && ok(r->0) == all_of_ok(value.vid(), s, *resolved_schema),
           _ => r is Some && ok(r->0) == if suits(value.vt(), resolved_schema.schema_view) { sat(value.vid(), Some(*resolved_schema)) } else { mismatch_ok(value.vid(), *resolved_schema) },
       }"""
BRANCH = [
    Fn("crates/tombi-schema-store/src/schema/schema_view.rs", "SchemaView::adjacent_applicators", pre=adjm, header="impl SchemaView", ensures="forall|v: int, c: CurrentSchema| #![trigger adj_ok(v, r.0, r.1, r.2, r.3, c)] adj_ok(v, r.0, r.1, r.2, r.3, c) == sides(v, *self, c)"),
    Fn(V + "validate.rs", "fn handle_type_mismatch", **I, ensures="!ok(r), common_rules is None ==> told(r) == 1", rewrites=[("let level = common_rules $$e;", "let level = vx_level(&common_rules);"), ("vx_evidence()", "vx_evidence()")]),
    Fn(V + "validate.rs", "fn mark_type_match", **I, ensures="ok(r) == ok(result), told(r) == told(result), r is Ok == result is Ok", rewrites=[("mut result: Result<Valid, Invalid>", "result: Result<Valid, Invalid>")], entry="let mut result = result;"),
    Fn(V + "validate.rs", "fn project_current_schema_for_value", **I, rewrites=TW, ensures="current_schema is None ==> r is None, current_schema is Some ==> projects(value.vt(), *current_schema->0, r)"),
    Fn(V + "validate.rs", "fn validate_mismatched_schema", **I, rewrites=TW, ensures="ok(r) == mismatch_ok(value.vid(), *current_schema)"),
    Fn(V + "validate.rs", "fn validate_resolved_schema", **I, rewrites=TW, rename="validate_branch", ensures=RESOLVED),
]
VIEW = {"Integer": ["SchemaView::Integer(s) => ok(r) == (int_bad(self.v(), s) == 0 && adj_b(self.vid(), s.one_of, s.any_of, s.all_of, s.not, c))", "SchemaView::Float(s) => ok(r) == (float_bad(i2f(self.v()), s, true) == 0 && adj_b(self.vid(), s.one_of, s.any_of, s.all_of, s.not, c))"],
        "Float": ["SchemaView::Float(s) => ok(r) == (float_bad(self.v(), s, false) == 0 && adj_b(self.vid(), s.one_of, s.any_of, s.all_of, s.not, c))"],
        "Boolean": ["SchemaView::Boolean(s) => ok(r) == (const_bad(self.v(), s) == 0 && adj_b(self.vid(), s.one_of, s.any_of, s.all_of, s.not, c))"]}
for n in DATES:
    VIEW[n] = [f"SchemaView::{n}(s) => ok(r) == (text_bad(self.v(), s) == 0 && adj_b(self.vid(), s.one_of, s.any_of, s.all_of, s.not, c))"]
COMMON = ["SchemaView::OneOf(s) => ok(r) == one_of_ok(self.vid(), s, c)", "SchemaView::AnyOf(s) => ok(r) == any_of_ok(self.vid(), s, c)", "SchemaView::AllOf(s) => ok(r) == all_of_ok(self.vid(), s, c)",
          "SchemaView::Null => !ok(r)", "SchemaView::Nothing(_) => !ok(r)", "SchemaView::Anything(_) => ok(r)", "_ => ok(r) == mismatch_ok(self.vid(), c)"]
DW = TW + [("self.comment_directives().map($$a).as_deref()", "vx_directives()"), ("let comment_directives = self.comment_directives().map($$a);", "let comment_directives = vx_directives();"), ("comment_directives.as_deref()", "comment_directives"), ("let (lint_rules, lint_rules_diagnostics) = get_tombi_key_table_value_rules_and_diagnostics::<$a, $b,>($$r);", "let (lint_rules, lint_rules_diagnostics) = vx_key_rules::<$b>();"),
           ("let (lint_rules, lint_rules_diagnostics) = get_tombi_key_table_value_rules_and_diagnostics::<$a, $b>($$r);", "let (lint_rules, lint_rules_diagnostics) = vx_key_rules::<$b>();"),
           ("lint_rules.as_ref().map($$c)", "vx_rules(lint_rules.as_ref())")]


def dispatch(n):
    m = ",\n ".join(VIEW[n] + COMMON)
    head = lambda t: re.sub(r"\bfn validate\b", "fn vx_validate", sync(t), count=1)
    return Fn(VV + SNAKE(n) + ".rs", f"Validate for {n if n.startswith(('Local', 'Offset')) else 'tombi_document_tree::' + n} :: validate", pre=head, header=f"impl {n}", rewrites=DW,
              ensures=f"""current_schema is None ==> ok(r), current_schema is Some ==> {{ let c = *current_schema->0;
                (exists|p: CurrentSchema| projects(ValueType::{n}, c, Some(p)) && ok(r) == #[trigger] sat(self.vid(), Some(p))) || match c.schema_view {{ {m} }} }}""")


DISPATCH = [dispatch(n) for n in list(SCALARS) + DATES]

# ---------------------------------------------------------------- arrays
ARR = r"""
#[verifier::external_body] pub struct Array { _x: () }
#[verifier::external_body] pub struct Value { _x: () }
#[verifier::external_body] pub struct ArrayCommonLintRules { _x: () }
impl Array { pub uninterp spec fn vals(&self) -> Seq<Value>; #[verifier::external_body] pub fn values(&self) -> (r: &Vec<Value>) ensures r@ == self.vals() { unimplemented!() } }
/// the JSON value of a TOML value
pub uninterp spec fn json(v: Value) -> JsonValue;
pub uninterp spec fn json_array(a: Array) -> JsonValue;
pub uninterp spec fn jeq(a: JsonValue, b: JsonValue) -> bool;
impl VxElem for JsonValue { open spec fn same(a: JsonValue, b: JsonValue) -> bool { jeq(b, a) } }
#[verifier::external_body] pub fn vx_json(a: &Array) -> (r: JsonValue) ensures r == json_array(*a) { unimplemented!() }
#[verifier::external_body] pub fn vx_jsons(a: &Array) -> (r: Vec<JsonValue>) ensures r@.len() == a.vals().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == json(a.vals()[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_jeq(a: &JsonValue, b: &JsonValue) -> (r: bool) ensures r == jeq(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_flags(n: usize) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> !(#[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_at(e: &Vec<bool>, i: usize) -> (r: bool) ensures r == (i < e@.len() && e@[i as int]) { unimplemented!() }
#[verifier::external_body] pub fn vx_first<'x>(a: &'x Option<SchemaItem>, b: &'x Option<SchemaItem>) -> (r: Option<&'x SchemaItem>) ensures match first_item(*a, *b) { Some(x) => r is Some && *r->0 == x, None => r is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_child(a: &[Accessor], i: usize) -> Vec<Accessor> { unimplemented!() }
#[verifier::external_body] pub fn vx_singleton() -> bool { unimplemented!() }
pub open spec fn first_item(a: Option<SchemaItem>, b: Option<SchemaItem>) -> Option<SchemaItem> { if a is Some { a } else { b } }
pub open spec fn got(i: Option<SchemaItem>, c: CurrentSchema) -> Option<CurrentSchema> { match i { Some(x) => match resolved(x, c) { Rs::Got(s) => Some(s), _ => None }, None => None } }
pub open spec fn overflow(s: ArraySchema, c: CurrentSchema) -> Option<CurrentSchema> { got(first_item(s.additional_items_schema, s.items), c) }
/// prefixItems, items, additionalItems: what is asked of the item at place i
pub open spec fn place_ok(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, i: int) -> bool {
    match s.prefix_items {
        Some(p) => if i < p@.len() { sub(vals[i].vid(), resolved(p@[i], c)) }
            else { match overflow(s, c) { Some(o) => sat(vals[i].vid(), Some(o)), None => s.additional_items != Some(false) } },
        None => match got(s.items, c) { Some(o) => sat(vals[i].vid(), Some(o)), None => true },
    }
}
pub open spec fn holds_at(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, i: int) -> bool { match got(s.contains, c) { Some(o) => sat(vals[i].vid(), Some(o)), None => false } }
pub open spec fn held(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, n: int) -> nat decreases n { if n <= 0 { 0 } else { held(vals, s, c, n - 1) + b2n(holds_at(vals, s, c, n - 1)) } }
pub proof fn lemma_held(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, i: int, n: int)
    requires 0 <= i <= n ensures held(vals, s, c, i) <= held(vals, s, c, n), held(vals, s, c, n) <= n decreases n
{ if i < n { lemma_held(vals, s, c, i, n - 1); } else if n > 0 { lemma_held(vals, s, c, n - 1, n - 1); } }
pub open spec fn contains_ok(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema) -> bool {
    got(s.contains, c) is Some ==> held(vals, s, c, vals.len() as int) >= (if s.min_contains is Some { s.min_contains->0 } else { 1 }) && (s.max_contains is Some ==> held(vals, s, c, vals.len() as int) <= s.max_contains->0)
}
/// the keywords next to unevaluatedItems that look at the item at place i
pub open spec fn placed(s: ArraySchema, c: CurrentSchema, i: int) -> bool {
    match s.prefix_items { Some(p) => i < p@.len() || overflow(s, c) is Some || s.additional_items == Some(false), None => got(s.items, c) is Some }
}
pub open spec fn seen(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, i: int) -> bool { placed(s, c, i) || holds_at(vals, s, c, i) }
pub open spec fn watches(s: ArraySchema) -> bool { s.unevaluated_items_schema is Some || s.unevaluated_items == Some(false) }
pub open spec fn rest_ok(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, i: int) -> bool {
    watches(s) && !seen(vals, s, c, i) ==> match got(s.unevaluated_items_schema, c) { Some(o) => sat(vals[i].vid(), Some(o)), None => s.unevaluated_items != Some(false) }
}
pub open spec fn twin(vals: Seq<Value>, i: int) -> bool { exists|j: int| 0 <= j < vals.len() && j != i && jeq(#[trigger] json(vals[j]), json(vals[i])) }
pub open spec fn unique(vals: Seq<Value>) -> bool { forall|i: int| 0 <= i < vals.len() ==> !#[trigger] twin(vals, i) }
pub open spec fn places_ok(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] place_ok(vals, s, c, i) }
pub open spec fn rests_ok(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] rest_ok(vals, s, c, i) }
pub proof fn lemma_places(vals: Seq<Value>, s: ArraySchema, c: CurrentSchema, n: int)
    requires n >= 0 ensures places_ok(vals, s, c, n + 1) == (places_ok(vals, s, c, n) && place_ok(vals, s, c, n)), rests_ok(vals, s, c, n + 1) == (rests_ok(vals, s, c, n) && rest_ok(vals, s, c, n))
{ assert forall|i: int| 0 <= i < n + 1 && places_ok(vals, s, c, n) && place_ok(vals, s, c, n) implies #[trigger] place_ok(vals, s, c, i) by { if i == n {} }
  assert forall|i: int| 0 <= i < n + 1 && rests_ok(vals, s, c, n) && rest_ok(vals, s, c, n) implies #[trigger] rest_ok(vals, s, c, i) by { if i == n {} }
  if places_ok(vals, s, c, n + 1) { assert(place_ok(vals, s, c, n)); } if rests_ok(vals, s, c, n + 1) { assert(rest_ok(vals, s, c, n)); } }
pub open spec fn lone(vals: Seq<Value>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !#[trigger] twin(vals, i) }
pub proof fn lemma_lone(vals: Seq<Value>, n: int) requires n >= 0 ensures lone(vals, n + 1) == (lone(vals, n) && !twin(vals, n))
{ if lone(vals, n + 1) { assert(!twin(vals, n)); } }
pub open spec fn array_ok(a: Array, s: ArraySchema, c: CurrentSchema) -> bool {
    let v = a.vals();
    places_ok(v, s, c, v.len() as int) && contains_ok(v, s, c) && rests_ok(v, s, c, v.len() as int)
    && (s.const_value is Some ==> jeq(json_array(a), s.const_value->0)) && (s.enum_ is Some ==> among(json_array(a), s.enum_->0@))
    && (s.max_items is Some ==> v.len() <= s.max_items->0) && (s.min_items is Some ==> v.len() >= s.min_items->0) && (s.unique_items == Some(true) ==> unique(v))
    && (s.if_then_else is Some ==> ite_ok(a.vid(), *s.if_then_else->0, c))
}
""" + "".join(f"""
impl ValueImpl for {n} {{ uninterp spec fn vid(&self) -> int; #[verifier::external_body] fn range(&self) -> Range {{ unimplemented!() }} #[verifier::external_body] fn comment_directives(&self) -> Option<Vec<&TombiValueCommentDirective>> {{ unimplemented!() }} }}
impl Validate for {n} {{ #[verifier::external_body] fn validate(&self, accessors: &[Accessor], current_schema: Option<&CurrentSchema>, schema_context: &SchemaContext) -> (r: Result<Valid, Invalid>) {{ unimplemented!() }} }}
""" for n in ("Array", "Value"))
EACH = ("for ($i, $x) in $a.iter().enumerate() { $$b }", "let vx_v = &$a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = &vx_v[vx_i]; vx_i += 1; $$b }")
EACHM = ("for ($i, $x) in $a.$m().iter().enumerate() { $$b }", "let vx_v = $a.$m(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $x = &vx_v[vx_i]; vx_i += 1; $$b }")
AW = [EACHM] * 5 + [EACH] * 3 + [
    ("validation_result.match_evidence.$m($$a);", ""), ("validation_result.merge_from($$a);", ""), ("validation_result.mark_index($i);", ""), ("let mut validation_result = Valid::new();", "let ghost c0 = *current_schema; let validation_result = vx_valid();"),
    ("let child_evidence = match_evidence(&result);", ""), ("child_evidence.root_singleton_matched()", "vx_singleton()"),
    ("accessors.iter().cloned().chain(std::iter::once(Accessor::Index($i))).collect_vec()", "vx_child(accessors, $i)"),
    ("$s.$a.as_ref().or($s.$b.as_ref())", "vx_first(&$s.$a, &$s.$b)"), ("vec![false; $$n]", "vx_flags($$n)"), ("evaluated.get(index).copied().unwrap_or_default()", "vx_at(&evaluated, index)"),
    ("if $s.$q == Some(true) && let Some($d) = $f($a) { $$x }", "let vx_d = if matches!($s.$q, Some(true)) { $f($a) } else { None }; if vx_d.is_some() { let $d = vx_d.unwrap(); $$x }"),
    ("$s.$f == Some(false)", "matches!($s.$f, Some(false))"), ("for range in duplicated_ranges { $$b }", "let mut vx_q = duplicated_ranges; while let Some(range) = vx_shift(&mut vx_q) { $$b }"),
    ("if let Some($m) = $s.$f && $$c { $$a }", "if (match $s.$f { Some($m) => $$c, None => false }) { let $m = $s.$f.unwrap(); $$a }"), ("if let Some($m) = $f && $$c { $$a }", "if (match $f { Some($m) => $$c, None => false }) { let $m = $f.unwrap(); $$a }"),
    ("let actual_value = tombi_json_value::Value::Array($$r);", "let actual_value = vx_json(array_value);"), ("actual_value == *const_value", "vx_jeq(&actual_value, const_value)"), ("enum_.contains(&actual_value)", "vx_contains(enum_, &actual_value)"),
]
VALS = "array_value.vals(), *array_schema, *current_schema"
AL = "vx_v@ == array_value.vals(), vx_i <= vx_v@.len(), evaluated@.len() == vx_v@.len(), "
WAT = "has_unevaluated_items == watches(*array_schema), "
ARRS = [
    Fn(VV + "array.rs", "fn get_duplicated_ranges", **I, ensures="r is None == unique(array_value.vals())", rewrites=[
        ("let values = $$e;", "let values = vx_jsons(array_value);"),
        ("let $d = $a.$m().iter().enumerate().filter_map(|($i, $v)| { $$b $c.then_some($$e) }).collect_vec();", "let mut $d: Vec<Range> = Vec::new(); let vx_v = $a.$m(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $i = vx_i; let $v = &vx_v[vx_i]; vx_i += 1; $$b if $c { $d.push($$e); } }"),
        ("let $r = $a.iter().enumerate().any(|($i, $x)| $$c);", "let mut $r = false; let mut vx_j: usize = 0; while vx_j < $a.len() { let $i = vx_j; let $x = &$a[vx_j]; vx_j += 1; if $$c { $r = true; } }"),
        ("other == current", "vx_jeq(other, current)"), ("(!duplicated_ranges.is_empty()).then_some(duplicated_ranges)", "if !duplicated_ranges.is_empty() { Some(duplicated_ranges) } else { None }")],
       loops={0: Loop("while", invariant="vx_v@ == array_value.vals(), vx_i <= vx_v@.len(), values@.len() == vx_v@.len(), forall|i: int| 0 <= i < values@.len() ==> #[trigger] values@[i] == json(vx_v@[i]), (duplicated_ranges@.len() == 0) == lone(array_value.vals(), vx_i as int)", start="proof { lemma_lone(array_value.vals(), vx_i as int); }",
                      ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              1: Loop("while", invariant="vx_j <= values@.len(), vx_v@ == array_value.vals(), index < vx_v@.len(), values@.len() == vx_v@.len(), forall|i: int| 0 <= i < values@.len() ==> #[trigger] values@[i] == json(vx_v@[i]), *current == values@[index as int], is_duplicated == (exists|j: int| 0 <= j < vx_j && j != index && jeq(#[trigger] json(vx_v@[j]), json(vx_v@[index as int])))",
                      ensures="vx_j == values@.len()", decreases="values@.len() - vx_j", start="proof { assert(values@[vx_j as int] == json(vx_v@[vx_j as int])); }")}),
    Fn(VV + "array.rs", "fn validate_array", **I, rewrites=AW, attrs="#[verifier::spinoff_prover]", entry="proof { lemma_held(array_value.vals(), *array_schema, *current_schema, 0, array_value.vals().len() as int); }",
       ensures="ok(r) == (array_ok(*array_value, *array_schema, *current_schema) && adj_b(array_value.vid(), array_schema.one_of, array_schema.any_of, array_schema.all_of, array_schema.not, *current_schema))",
       loops={0: Loop("while", before="let ghost a0 = assertion_failed;", invariant=AL + WAT + f"array_schema.prefix_items == Some(*prefix_items), prefix_items@.len() < vx_v@.len() ==> overflow_schema == overflow(*array_schema, *current_schema), assertion_failed == (a0 || !places_ok({VALS}, vx_i as int)), forall|i: int| 0 <= i < evaluated@.len() ==> (#[trigger] evaluated@[i] ==> i < vx_i) && (watches(*array_schema) ==> evaluated@[i] == (i < vx_i && placed(*array_schema, *current_schema, i)))", start="proof { lemma_places(array_value.vals(), *array_schema, *current_schema, vx_i as int); }", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              1: Loop("while", before="let ghost a1 = assertion_failed; let ghost cs = c0;", invariant=AL + f"array_schema.prefix_items is None, got(array_schema.items, c0) == Some(current_schema), assertion_failed == (a1 || !places_ok(array_value.vals(), *array_schema, c0, vx_i as int)), forall|i: int| 0 <= i < evaluated@.len() ==> #[trigger] evaluated@[i] == (i < vx_i)", start="proof { lemma_places(array_value.vals(), *array_schema, c0, vx_i as int); }", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              2: Loop("while", invariant=AL + f"got(array_schema.contains, *current_schema) == Some(contains_schema), contains_evaluated@.len() == vx_v@.len(), match_count == held({VALS}, vx_i as int), match_count <= vx_i, forall|i: int| 0 <= i < contains_evaluated@.len() ==> #[trigger] contains_evaluated@[i] == (i < vx_i && holds_at({VALS}, i))", ieb=f"needs_full_count ==> true",
                      ensures="vx_i == vx_v@.len() || (!needs_full_count && match_count >= min_contains)", decreases="vx_v@.len() - vx_i", after="proof { lemma_held(array_value.vals(), *array_schema, *current_schema, vx_i as int, array_value.vals().len() as int); } assert(assertion_failed == (!places_ok(array_value.vals(), *array_schema, *current_schema, array_value.vals().len() as int) || (array_schema.if_then_else is Some && !ite_ok(array_value.vid(), *array_schema.if_then_else->0, *current_schema))));"),
              3: Loop("while", before="let ghost e0 = evaluated@;", invariant="vx_i <= vx_v@.len(), vx_v@ == contains_evaluated@, evaluated@.len() == e0.len(), e0.len() == contains_evaluated@.len(), forall|i: int| 0 <= i < e0.len() ==> #[trigger] evaluated@[i] == (e0[i] || (i < vx_i && contains_evaluated@[i]))", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              4: Loop("while", before="let ghost a4 = assertion_failed;", invariant=AL + f"watches(*array_schema), unevaluated_schema == got(array_schema.unevaluated_items_schema, *current_schema), assertion_failed == (a4 || !rests_ok({VALS}, vx_i as int)), forall|i: int| vx_i <= i < evaluated@.len() ==> #[trigger] evaluated@[i] == seen({VALS}, i)", start="proof { lemma_places(array_value.vals(), *array_schema, *current_schema, vx_i as int); }", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              5: Loop("while let", invariant="assertion_failed", ensures="true", decreases="vx_q@.len()"),
              6: Loop("while", invariant="vx_i <= vx_v@.len()", ensures="true", decreases="vx_v@.len() - vx_i")}),
]

# ---------------------------------------------------------------- tables
def upto(name, params, args, item, doc=""):
    """a predicate for the first n places, one for a place, and the step from n to n + 1"""
    return f"""
{doc}
pub open spec fn {name}_at({params}, i: int) -> bool {{ {item} }}
pub open spec fn {name}({params}, n: int) -> bool {{ forall|i: int| 0 <= i < n ==> #[trigger] {name}_at({args}, i) }}
pub proof fn lemma_{name}({params}, n: int)
    requires n >= 0 ensures {name}({args}, n + 1) == ({name}({args}, n) && {name}_at({args}, n)), {name}({args}, 0)
{{ assert forall|i: int| 0 <= i < n + 1 && {name}({args}, n) && {name}_at({args}, n) implies #[trigger] {name}_at({args}, i) by {{ if i == n {{}} }}
  if {name}({args}, n + 1) {{ assert({name}_at({args}, n)); }} }}
"""


TAB = r"""
pub struct Key { pub value: String, pub rest: VxRest }
#[verifier::external_body] pub struct Table { _x: () }
#[verifier::external_body] pub struct TableCommonLintRules { _x: () }
#[verifier::external_body] pub struct VxKeyRules { _x: () }
#[verifier::external_body] pub struct VxSeen { _x: () }
#[verifier::external_body] pub struct SchemaProperties { _x: () }
#[verifier::external_body] pub struct SchemaPatternProperties { _x: () }
pub struct VxName { pub name: Ghost<Seq<char>> }
impl Table {
    pub uninterp spec fn pairs(&self) -> Seq<(Key, Value)>;
    #[verifier::external_body] pub fn key_values(&self) -> (r: &Vec<(Key, Value)>) ensures r@ == self.pairs() { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Vec<Key>) ensures r@.len() == self.pairs().len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.pairs()[i].0 { unimplemented!() }
    pub open spec fn has(&self, k: Seq<char>) -> bool { exists|i: int| 0 <= i < self.pairs().len() && (#[trigger] self.pairs()[i]).0.value@ == k }
}
pub struct VxNames { pub of: Ghost<Table> }
#[verifier::external_body] pub fn vx_names(t: &Table) -> (r: VxNames) ensures r.of@ == *t { unimplemented!() }
#[verifier::external_body] pub fn vx_has(n: &VxNames, k: &String) -> (r: bool) ensures r == n.of@.has(k@) { unimplemented!() }
#[verifier::external_body] pub fn vx_count(t: &Table) -> (r: usize) ensures r == t.pairs().len() { unimplemented!() }
pub enum Dependency { Property(Vec<String>), Schema(SchemaItem) }
pub struct TableSchema { pub properties: SchemaProperties, pub pattern_properties: Option<SchemaPatternProperties>, pub additional_properties: Option<bool>, pub additional_property_schema: Option<(Range, SchemaItem)>, pub unevaluated_properties: Option<bool>, pub unevaluated_property_schema: Option<SchemaItem>,
    pub property_names: Option<SchemaItem>, pub required: Option<Vec<String>>, pub dependencies: Option<Vec<(String, Dependency)>>, pub dependent_required: Option<Vec<(String, Vec<String>)>>, pub dependent_schemas: Option<Vec<(String, SchemaItem)>>,
    pub min_properties: Option<usize>, pub max_properties: Option<usize>, pub const_value: Option<JsonValue>, pub enum_: Option<Vec<JsonValue>>, pub deprecation: Option<Deprecation>,
    pub one_of: Option<Box<OneOfSchema>>, pub any_of: Option<Box<AnyOfSchema>>, pub all_of: Option<Box<AllOfSchema>>, pub not: Option<Box<NotSchema>>, pub if_then_else: Option<Box<IfThenElseSchema>> }
/// what `properties` says of a key
pub uninterp spec fn property(p: SchemaProperties, k: Seq<char>, c: CurrentSchema) -> Option<Rs>;
pub uninterp spec fn patterns(p: SchemaPatternProperties) -> Seq<String>;
pub uninterp spec fn pattern(p: SchemaPatternProperties, k: Seq<char>, c: CurrentSchema) -> Rs;
/// the keys the applicators next to the keywords look at
pub uninterp spec fn looked_at(t: Table, s: TableSchema, c: CurrentSchema, k: Seq<char>) -> bool;
pub uninterp spec fn strict_of(x: SchemaContext, c: CurrentSchema) -> bool;
pub uninterp spec fn json_table(t: Table) -> JsonValue;
impl SchemaContext { #[verifier::external_body] pub fn strict(&self, c: Option<&CurrentSchema>) -> (r: bool) ensures c is Some ==> r == strict_of(*self, *c->0) { unimplemented!() } }
#[verifier::external_body] pub fn vx_accessor(k: &String) -> (r: VxName) ensures r.name@ == k@ { unimplemented!() }
#[verifier::external_body] pub fn vx_schema_accessor(a: &VxName) -> (r: VxName) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn vx_declares(p: &SchemaProperties, a: &VxName) -> (r: bool) ensures forall|c: CurrentSchema| r == #[trigger] property(*p, a.name@, c) is Some { unimplemented!() }
#[verifier::external_body] pub fn vx_property(s: &TableSchema, a: &VxName, c: &CurrentSchema) -> (r: Result<Option<CurrentSchema>, Error>)
    ensures match property(s.properties, a.name@, *c) { Some(Rs::Got(x)) => r is Ok && r->Ok_0 == Some(x), Some(Rs::Failed) => r is Err, _ => r is Ok && r->Ok_0 is None } { unimplemented!() }
#[verifier::external_body] pub fn vx_patterns(p: &SchemaPatternProperties) -> (r: Vec<String>) ensures r@ == patterns(*p) { unimplemented!() }
#[verifier::external_body] pub fn vx_pattern(s: &TableSchema, k: &String, c: &CurrentSchema) -> (r: Result<Option<CurrentSchema>, Error>)
    ensures s.pattern_properties is Some ==> match pattern(s.pattern_properties->0, k@, *c) { Rs::Got(x) => r is Ok && r->Ok_0 == Some(x), Rs::Nothing => r is Ok && r->Ok_0 is None, Rs::Failed => r is Err } { unimplemented!() }
#[verifier::external_body] pub fn vx_key_lint() -> Option<VxKeyRules> { unimplemented!() }
#[verifier::external_body] pub fn vx_evaluated(t: &Table, s: &TableSchema, c: &CurrentSchema) -> (r: VxSeen) ensures forall|k: Seq<char>| #[trigger] vx_in(r, k) == looked_at(*t, *s, *c, k) { unimplemented!() }
pub uninterp spec fn vx_in(s: VxSeen, k: Seq<char>) -> bool;
#[verifier::external_body] pub fn vx_seen(s: &VxSeen, k: &String) -> (r: bool) ensures r == vx_in(*s, k@) { unimplemented!() }
#[verifier::external_body] pub fn vx_deprecation(c: &CurrentSchema) -> Option<Deprecation> { unimplemented!() }
#[verifier::external_body] pub fn vx_context(c: &SchemaContext) -> SchemaContext { unimplemented!() }
#[verifier::external_body] pub fn vx_json_table(a: &Table) -> (r: JsonValue) ensures r == json_table(*a) { unimplemented!() }
#[verifier::external_body] pub fn vx_some_level() -> VxLevel { unimplemented!() }
#[verifier::external_body] pub fn vx_retain(d: &mut Vec<Diagnostic>) { unimplemented!() }
pub open spec fn allows(s: TableSchema, strict: bool) -> bool { match s.additional_properties { Some(b) => b, None => !strict } }
pub open spec fn addl(s: TableSchema) -> Option<SchemaItem> { match s.additional_property_schema { Some(p) => Some(p.1), None => None } }
/// a pattern that is no regular expression matches nothing
pub open spec fn fits(p: String, k: Seq<char>) -> bool { regex_of(p@) is Some && regex_hit(p@, k) }
pub open spec fn pats(s: TableSchema) -> Seq<String> { match s.pattern_properties { Some(p) => patterns(p), None => seq![] } }
""" + upto("misses", "ps: Seq<String>, k: Seq<char>", "ps, k", "!fits(ps[i], k)", "/// no pattern fits the key") \
    + upto("pats_ok", "ps: Seq<String>, s: TableSchema, c: CurrentSchema, k: Key, v: Value", "ps, s, c, k, v", "fits(ps[i], k.value@) ==> sub(v.vid(), pattern(s.pattern_properties->0, ps[i]@, c))", "/// the value holds under every pattern that fits its key") + r"""
pub open spec fn known(s: TableSchema, c: CurrentSchema, k: Key) -> bool { property(s.properties, k.value@, c) is Some || !misses(pats(s), k.value@, pats(s).len() as int) }
/// what a key nobody declares must meet: additionalProperties, then unevaluatedProperties, and the strict mode
pub open spec fn stranger_ok(s: TableSchema, c: CurrentSchema, strict: bool, looked: bool, v: Value) -> bool {
    (s.pattern_properties is Some ==> allows(s, strict))
    && (match got(addl(s), c) { Some(o) => sat(v.vid(), Some(o)), None => true })
    && if !looked && got(addl(s), c) is None && s.additional_properties is None && (got(s.unevaluated_property_schema, c) is Some || s.unevaluated_properties == Some(false)) {
        match got(s.unevaluated_property_schema, c) { Some(o) => sat(v.vid(), Some(o)), None => false }
    } else if looked && s.additional_properties != Some(false) { true }
    else if strict && s.additional_properties is None && s.pattern_properties is None { true }
    else { allows(s, strict) || s.pattern_properties is Some }
}
pub open spec fn key_ok(t: Table, s: TableSchema, c: CurrentSchema, strict: bool, k: Key, v: Value) -> bool {
    (match property(s.properties, k.value@, c) { Some(r) => sub(v.vid(), r), None => true }) && pats_ok(pats(s), s, c, k, v, pats(s).len() as int)
    && (known(s, c, k) || stranger_ok(s, c, strict, looked_at(t, s, c, k.value@), v))
}
""" + upto("keys_ok", "t: Table, s: TableSchema, c: CurrentSchema, strict: bool", "t, s, c, strict", "key_ok(t, s, c, strict, t.pairs()[i].0, t.pairs()[i].1)") \
    + upto("has_all", "t: Table, ks: Seq<String>", "t, ks", "t.has(ks[i]@)") + r"""
pub open spec fn dep_ok(t: Table, d: Dependency, c: CurrentSchema) -> bool { match d { Dependency::Property(ks) => has_all(t, ks@, ks@.len() as int), Dependency::Schema(i) => sub(t.vid(), resolved(i, c)) } }
""" + upto("deps_ok", "t: Table, ds: Seq<(String, Dependency)>, c: CurrentSchema", "t, ds, c", "t.has(ds[i].0@) ==> dep_ok(t, ds[i].1, c)") \
    + upto("depreq_ok", "t: Table, ds: Seq<(String, Vec<String>)>", "t, ds", "t.has(ds[i].0@) ==> has_all(t, ds[i].1@, ds[i].1@.len() as int)") \
    + upto("depsch_ok", "t: Table, ds: Seq<(String, SchemaItem)>, c: CurrentSchema", "t, ds, c", "t.has(ds[i].0@) ==> sub(t.vid(), resolved(ds[i].1, c))") \
    + upto("names_ok", "t: Table, s: TableSchema, c: CurrentSchema", "t, s, c", "(s.property_names is Some && got(s.property_names, c) is None) || sat(t.pairs()[i].0.vid(), got(s.property_names, c))") + r"""
pub open spec fn table_ok(t: Table, s: TableSchema, c: CurrentSchema, strict: bool) -> bool {
    let n = t.pairs().len() as int;
    keys_ok(t, s, c, strict, n) && names_ok(t, s, c, n)
    && (s.required is Some ==> has_all(t, s.required->0@, s.required->0@.len() as int))
    && (s.dependencies is Some ==> deps_ok(t, s.dependencies->0@, c, s.dependencies->0@.len() as int))
    && (s.dependent_required is Some ==> depreq_ok(t, s.dependent_required->0@, s.dependent_required->0@.len() as int))
    && (s.dependent_schemas is Some ==> depsch_ok(t, s.dependent_schemas->0@, c, s.dependent_schemas->0@.len() as int))
    && (s.const_value is Some ==> jeq(json_table(t), s.const_value->0)) && (s.enum_ is Some ==> among(json_table(t), s.enum_->0@))
    && (s.max_properties is Some ==> n <= s.max_properties->0) && (s.min_properties is Some ==> n >= s.min_properties->0)
    && (s.if_then_else is Some ==> ite_ok(t.vid(), *s.if_then_else->0, c))
}
""" + "".join(f"""
impl ValueImpl for {n} {{ uninterp spec fn vid(&self) -> int; #[verifier::external_body] fn range(&self) -> Range {{ unimplemented!() }} #[verifier::external_body] fn comment_directives(&self) -> Option<Vec<&TombiValueCommentDirective>> {{ unimplemented!() }} }}
impl Validate for {n} {{ #[verifier::external_body] fn validate(&self, accessors: &[Accessor], current_schema: Option<&CurrentSchema>, schema_context: &SchemaContext) -> (r: Result<Valid, Invalid>) {{ unimplemented!() }} }}
""" for n in ("Table", "Key"))
WH = "let mut vx_i: usize = 0; while vx_i < vx_v.len() { "
TWR = [("for ($k, $v) in $a.$m() { $$b }", "let vx_v = $a.$m(); " + WH + "let $k = &vx_v[vx_i].0; let $v = &vx_v[vx_i].1; vx_i += 1; $$b }"), ("for $p in $a.$m() { $$b }", "let vx_v = $a.$m(); " + WH + "let $p = &vx_v[vx_i]; vx_i += 1; $$b }")] \
    + [("for ($k, $v) in $a { $$b }", "let vx_v = $a; " + WH + "let $k = &vx_v[vx_i].0; let $v = &vx_v[vx_i].1; vx_i += 1; $$b }")] * 3 \
    + [("for pattern_key in $a { $$b }", "let vx_w = $a; let mut vx_j: usize = 0; while vx_j < vx_w.len() { let pattern_key = &vx_w[vx_j]; vx_j += 1; $$b }")] \
    + [("for $p in $a { $$b }", "let vx_w = $a; let mut vx_j: usize = 0; while vx_j < vx_w.len() { let $p = &vx_w[vx_j]; vx_j += 1; $$b }")] * 3 + [
    ("let common_rules = table_rules.map($$c);", "let common_rules = vx_rules(table_rules);"), ("let mut evaluated_locations = { $$b };", "let evaluated_properties = vx_evaluated(table_value, table_schema, current_schema); let evaluated_locations = vx_valid();"),
    ("let evaluated_properties = &evaluated_locations.properties;", ""), ("evaluated_properties.contains($k)", "vx_seen(&evaluated_properties, $k)"), ("evaluated_locations.merge_from($$a);", ""), ("evaluated_locations.match_evidence = $$e;", ""),
    ("let key_rules = get_tombi_key_rules_and_diagnostics($$r).0;", "let key_rules = vx_key_lint();"), ("let key_common_rules = $$e;", "let key_common_rules = vx_rules(key_rules.as_ref());"), ("let key_rules = key_rules.as_ref().map($$c);", "let key_rules = key_rules.as_ref();"),
    ("let accessor = Accessor::Key(accessor_raw_text.to_owned());", "let accessor = vx_accessor(accessor_raw_text);"), ("SchemaAccessor::from(&accessor)", "vx_schema_accessor(&accessor)"),
    ("let new_accessors = $$e;", "let new_accessors = vx_child(accessors, 0);"), ("$s.properties.read().contains_key(&$a)", "vx_declares(&$s.properties, &$a)"),
    ("$s.resolve_property_schema(&$a, $$r)", "vx_property($s, &$a, current_schema)"), ("$s.resolve_pattern_property_schema(&pattern_key, $$r)", "vx_pattern($s, pattern_key, current_schema)"),
    ("$p.read().keys().cloned().collect_vec()", "vx_patterns($p)"), ("let Ok($p) = tombi_regex::Regex::new(&pattern_key) else { $$x };", "let $p = match vx_regex(pattern_key) { Ok(p) => p, Err(_) => { $$x } };"),
    ("declared_value_matched &= $$e;", ""), ("child_match_evidence.merge_from($$a);", ""), ("child_match_evidence.root_singleton_matched()", "vx_singleton()"), ("let mut child_match_evidence = $$e;", ""), ("let mut declared_value_matched = true;", "let declared_value_matched = true;"),
    ("if let Err(Invalid { assertion_failed: $c, mut diagnostics, .. }) = result { $$b }", "if let Err(vx_e) = result { let $c = vx_e.assertion_failed; let diagnostics = vx_e.diagnostics; $$b }"), ("convert_deprecated_diagnostics_range($$a);", ""),
    ("key.range() + value.range()", "value.range()"), ("let level = key_rules $$e;", "let level = vx_level(&key_rules);"), ("let level = table_rules $$e;", "let level = vx_level(&table_rules);"),
    ("key_rules.and_then($$a).and_then($$b) == Some(true)", "vx_disabled(&key_rules)"), ("table_rules.map($$m).and_then($$a).and_then($$b) == Some(true)", "vx_disabled(&table_rules)"), ("table_rules.and_then($$a).and_then($$b) == Some(true)", "vx_disabled(&table_rules)"),
    ("Diagnostic { $$k } .push_diagnostic_with_level(SeverityLevel::Warn, &mut $d);", "vx_push(vx_some_level(), &mut $d);"), ("match_evidence.merge_from($$a);", ""), ("match_evidence.mark_required(path);", ""), ("let path = $$e;", ""),
    ("match_evidence.$m($$a);", ""), ("current_schema.schema_view.deprecation()", "vx_deprecation(&current_schema)"), ("handle_deprecated_value(&mut $d, deprecation.as_ref(), $$r);", "vx_deprecated_ref(&mut $d, deprecation.as_ref(), &common_rules);"),
    ("let keys = table_value.keys().map($$c).collect_vec();", "let keys = vx_names(table_value);"), ("keys.contains(&$k)", "vx_has(&keys, $k)"), ("table_value.keys().count()", "vx_count(table_value)"),
    ("let dependency_schema_context = SchemaContext { $$f };", "let dependency_schema_context = vx_context(schema_context);"), ("let actual_object = table_to_json_object(table_value);", "let actual_object = vx_json_table(table_value);"), ("let actual_object = convert::table_to_json_object(table_value);", "let actual_object = vx_json_table(table_value);"),
    ("actual_object == *const_value", "vx_jeq(&actual_object, const_value)"), ("enum_.contains(&actual_object)", "vx_contains(enum_, &actual_object)"),
    ("let comment_directives = table_value.comment_directives().map($$a);", "let comment_directives = vx_directives();"), ("comment_directives.as_deref()", "comment_directives"), ("table_rules.map($$c)", "vx_rules(table_rules)"),
    ("validate_adjacent_applicators($$a).or_else(filter_table_strict_additional_diagnostics)", "match validate_adjacent_applicators($$a) { Ok(vx_x) => Ok(vx_x), Err(vx_e) => filter_table_strict_additional_diagnostics(vx_e) }"),
] + AW[8:]
TS = "*table_value, *table_schema, *current_schema"
STR = "strict_of(*schema_context, *current_schema)"


def pairs(n, field, ok, extra, lemma, inner=False):
    return Loop("while", before=f"let ghost b{n} = assertion_failed;", invariant=f"{extra}keys.of@ == *table_value, vx_i <= vx_v@.len(), assertion_failed == (b{n} || !{ok % 'vx_i as int'})", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i", start=f"proof {{ {lemma % 'vx_i as int'}; }}")


def names(n):
    return Loop("while", before=f"let ghost b{n} = assertion_failed; proof {{ lemma_has_all(*table_value, vx_w@, 0); }}", invariant=f"keys.of@ == *table_value, vx_j <= vx_w@.len(), assertion_failed == (b{n} || !has_all(*table_value, vx_w@, vx_j as int))", ensures="vx_j == vx_w@.len()", decreases="vx_w@.len() - vx_j", start="proof { lemma_has_all(*table_value, vx_w@, vx_j as int); }")


TABS = [
    Fn("crates/tombi-schema-store/src/schema/table_schema.rs", "TableSchema::additional_properties", header="impl TableSchema", ensures="r == self.additional_properties"),
    Fn("crates/tombi-schema-store/src/schema/table_schema.rs", "TableSchema::allows_any_additional_properties", header="impl TableSchema", ensures="r == (allows(*self, strict) || self.pattern_properties is Some)"),
    Fn("crates/tombi-schema-store/src/schema/table_schema.rs", "TableSchema::allows_additional_properties", header="impl TableSchema", ensures="r == allows(*self, strict)"),
    Fn("crates/tombi-schema-store/src/schema/table_schema.rs", "TableSchema::check_strict_additional_properties_violation", header="impl TableSchema", ensures="r == (strict && self.additional_properties is None && self.pattern_properties is None)"),
    Fn(V + "validate.rs", "fn filter_table_strict_additional_diagnostics", **I, rewrites=[("mut error: Invalid", "vx_error: Invalid"), ("error.diagnostics.retain($$c);", "vx_retain(&mut error.diagnostics);")], entry="let mut error = vx_error;", ensures="ok(r) == !vx_error.assertion_failed"),
    Fn(VV + "table.rs", "fn validate_table", **I, rewrites=TWR, attrs="#[verifier::spinoff_prover]",
       ensures=f"ok(r) == (table_ok({TS}, {STR}) && adj_b(table_value.vid(), table_schema.one_of, table_schema.any_of, table_schema.all_of, table_schema.not, *current_schema))",
       loops={0: Loop("while", before=f"let ghost b0 = assertion_failed; proof {{ lemma_keys_ok({TS}, {STR}, 0); }}", start=f"proof {{ lemma_keys_ok({TS}, {STR}, vx_i as int); lemma_misses(pats(*table_schema), table_value.pairs()[vx_i as int].0.value@, 0); lemma_pats_ok(pats(*table_schema), *table_schema, *current_schema, table_value.pairs()[vx_i as int].0, table_value.pairs()[vx_i as int].1, 0); }}",
                      invariant=f"vx_v@ == table_value.pairs(), vx_i <= vx_v@.len(), forall|k: Seq<char>| #[trigger] vx_in(evaluated_properties, k) == looked_at({TS}, k), assertion_failed == (b0 || !keys_ok({TS}, {STR}, vx_i as int))", ensures="vx_i == vx_v@.len()", decreases="vx_v@.len() - vx_i"),
              1: Loop("while", before="let ghost b1 = assertion_failed; let ghost m1 = matched_key;", start="proof { lemma_misses(vx_w@, key.value@, vx_j as int); lemma_pats_ok(vx_w@, *table_schema, *current_schema, *key, *value, vx_j as int); }",
                      invariant="accessor_raw_text@ == key.value@, table_schema.pattern_properties is Some, vx_w@ == patterns(table_schema.pattern_properties->0), vx_j <= vx_w@.len(), matched_key == (m1 || !misses(vx_w@, key.value@, vx_j as int)), assertion_failed == (b1 || !pats_ok(vx_w@, *table_schema, *current_schema, *key, *value, vx_j as int))", ensures="vx_j == vx_w@.len()", decreases="vx_w@.len() - vx_j"),
              2: names(2), 3: pairs(3, "", "deps_ok(*table_value, vx_v@, *current_schema, %s)", "", "lemma_deps_ok(*table_value, vx_v@, *current_schema, %s)"), 4: names(4),
              5: pairs(5, "", "depreq_ok(*table_value, vx_v@, %s)", "", "lemma_depreq_ok(*table_value, vx_v@, %s)"), 6: names(6),
              7: pairs(7, "", "depsch_ok(*table_value, vx_v@, *current_schema, %s)", "", "lemma_depsch_ok(*table_value, vx_v@, *current_schema, %s)"),
              8: pairs(8, "", f"names_ok({TS}, %s)", "vx_v@.len() == table_value.pairs().len(), forall|i: int| 0 <= i < vx_v@.len() ==> #[trigger] vx_v@[i] == table_value.pairs()[i].0, property_name_current_schema == got(table_schema.property_names, *current_schema), ", f"lemma_names_ok({TS}, %s)")}),
]
UNIT = Unit("schema", [Text(TYPES), *INV, *COMB, Text(STUB), Text(LEAF), *CHECKS, *LEAVES, Text(STRT), *STRS, Text(DISP), *BRANCH, *DISPATCH, Text(ARR), *ARRS, Text(TAB), *TABS], rewrites=RW)
