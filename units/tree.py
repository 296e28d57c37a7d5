"""C10: the document tree: merging the sections and dotted keys of a document loses nothing, overwrites nothing, and reports what cannot be merged."""
import re
from vgen import *
from shims import *

D = "crates/tombi-document-tree/src/"
TB, AR, RT, KY = D + "value/table.rs", D + "value/array.rs", D + "root.rs", D + "key.rs"

TYPES0 = Text(r"""
#[derive(Clone, Copy)]
pub struct Range { pub x: u64 }
#[verifier::external_body]
pub fn vx_radd(a: Range, b: Range) -> Range { unimplemented!() }
#[verifier::external_body]
pub fn vx_range() -> Range { unimplemented!() }
pub struct TombiValueCommentDirective { pub x: u64 }
pub type Dirs = Option<Vec<TombiValueCommentDirective>>;
#[verifier::external_body]
pub struct LeafData { x: u64 }
pub enum Error { ConflictTable { range1: Range, range2: Range }, ConflictArray { range1: Range, range2: Range }, DuplicateKey { key: String, range: Range }, IncompleteNode { range: Range }, Other }
#[verifier::external_body]
pub fn vx_extend(a: &mut Vec<Error>, b: Vec<Error>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }

/// IndexMap<Key, Value>: what is in it, in the order of insertion
pub struct IndexMap { pub entries: Vec<(Key, Value)> }
""")

SPEC = r"""
pub ghost enum G { Leaf(LeafData), Arr(ArrayKind, Seq<G>), Tab(TableKind, Seq<(Seq<char>, G)>), Gone }
pub type Es = Seq<(Seq<char>, G)>;

/// what a value says: keys, kinds, values and their order
pub open spec fn gv(v: Value) -> G decreases v {
    match v {
        Value::Array(a) => G::Arr(a.kind, Seq::new(a.values@.len(), |i: int| if 0 <= i < a.values@.len() { gv(a.values@[i]) } else { arbitrary() })),
        Value::Table(t) => G::Tab(t.kind, Seq::new(t.key_values.entries@.len(), |i: int| if 0 <= i < t.key_values.entries@.len() { (t.key_values.entries@[i].0.value@, gv(t.key_values.entries@[i].1)) } else { arbitrary() })),
        Value::Incomplete { .. } => G::Gone,
        Value::Boolean(x) => G::Leaf(x.d), Value::Integer(x) => G::Leaf(x.d), Value::Float(x) => G::Leaf(x.d), Value::String(x) => G::Leaf(x.d),
        Value::OffsetDateTime(x) => G::Leaf(x.d), Value::LocalDateTime(x) => G::Leaf(x.d), Value::LocalDate(x) => G::Leaf(x.d), Value::LocalTime(x) => G::Leaf(x.d),
    }
}
pub open spec fn es(s: Seq<(Key, Value)>) -> Es { Seq::new(s.len(), |i: int| (s[i].0.value@, gv(s[i].1))) }
pub open spec fn gs(s: Seq<Value>) -> Seq<G> { Seq::new(s.len(), |i: int| gv(s[i])) }
pub open spec fn gt(t: Table) -> Es { es(t.key_values.entries@) }
pub broadcast proof fn lemma_gv_table(t: Table)
    ensures #[trigger] gv(Value::Table(t)) == G::Tab(t.kind, gt(t)),
{ assert(gv(Value::Table(t))->Tab_1 =~= gt(t)); }
pub broadcast proof fn lemma_gv_array(a: Array)
    ensures #[trigger] gv(Value::Array(a)) == G::Arr(a.kind, gs(a.values@)),
{ assert(gv(Value::Array(a))->Arr_1 =~= gs(a.values@)); }

pub proof fn vx_gv(v: Value)
    ensures v is Table ==> gv(v) == G::Tab(v->Table_0.kind, gt(v->Table_0)) && wf(gv(v)) == (wfe(gt(v->Table_0)) && !(v->Table_0.kind is Root)), v is Array ==> gv(v) == G::Arr(v->Array_0.kind, gs(v->Array_0.values@)),
        !(v is Table) && !(v is Array) ==> !(gv(v) is Tab) && !(gv(v) is Arr),
{ match v { Value::Table(t) => lemma_gv_table(t), Value::Array(a) => lemma_gv_array(a), _ => {} } }
pub open spec fn keyed(s: Es, k: Seq<char>) -> bool { exists|i: int| #[trigger] at(s, k, i) }
pub open spec fn at(s: Es, k: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i].0 == k }
pub open spec fn idx(s: Es, k: Seq<char>) -> int { choose|i: int| at(s, k, i) }
pub open spec fn distinct(s: Es) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }

pub open spec fn is_inline(k: TableKind) -> bool { k is InlineTable }
/// the tables of two sections under the same key
pub open spec fn kinds_nested(k1: TableKind, k2: TableKind) -> bool { kinds(k1, k2) && !(k1 is Table && (k2 is ParentKey || k2 is KeyValue)) }
/// a table and what is added to it
pub open spec fn kinds(k1: TableKind, k2: TableKind) -> bool {
    !is_inline(k1) && !is_inline(k2) && match k1 {
        TableKind::Table => !(k2 is Table),
        TableKind::ParentTable => !(k2 is ParentKey),
        TableKind::ParentKey | TableKind::KeyValue => !(k2 is Table),
        _ => true,
    } || k1 is Root || k2 is Root
}
pub open spec fn kun(k1: TableKind, k2: TableKind) -> TableKind { if k1 is ParentTable && k2 is Table { k2 } else { k1 } }
pub open spec fn aot(k: ArrayKind) -> bool { !(k is Array) }

/// may `y` be merged into `x` under the same key
pub open spec fn vok(x: G, y: G) -> bool decreases y, 0int {
    match (x, y) {
        (G::Tab(k1, a), G::Tab(k2, b)) => kinds_nested(k1, k2) && okn(a, b, b.len() as int),
        (G::Arr(k1, a), G::Arr(k2, b)) => aot(k1) && aot(k2) && amo(a, k2, b),
        _ => false,
    }
}
/// the array that a header stands in (`k2` a parent): its last element and the one of `b` are merged
pub open spec fn joins(a: Seq<G>, k2: ArrayKind, b: Seq<G>) -> bool { k2 is ParentArrayOfTable && b.len() > 0 && b.last() is Tab && a.len() > 0 && a.last() is Tab }
pub open spec fn amk(k1: ArrayKind, k2: ArrayKind) -> bool { aot(k1) == aot(k2) }
pub open spec fn amo(a: Seq<G>, k2: ArrayKind, b: Seq<G>) -> bool decreases b, 1int {
    joins(a, k2, b) ==> kinds(a.last()->Tab_0, b[b.len() - 1]->Tab_0) && okn(a.last()->Tab_1, b[b.len() - 1]->Tab_1, b[b.len() - 1]->Tab_1.len() as int)
}
pub open spec fn amu(a: Seq<G>, k2: ArrayKind, b: Seq<G>) -> Seq<G> decreases b, 1int {
    if joins(a, k2, b) { a.update(a.len() - 1, G::Tab(kun(a.last()->Tab_0, b[b.len() - 1]->Tab_0), un(a.last()->Tab_1, b[b.len() - 1]->Tab_1, b[b.len() - 1]->Tab_1.len() as int))) }
    else { a + b }
}
pub open spec fn okn(a: Es, b: Es, n: int) -> bool decreases b, n {
    if n <= 0 || n > b.len() { true } else { okn(a, b, n - 1) && (keyed(un(a, b, n - 1), b[n - 1].0) ==> vok(un(a, b, n - 1)[idx(un(a, b, n - 1), b[n - 1].0)].1, b[n - 1].1)) }
}
pub open spec fn vun(x: G, y: G) -> G decreases y, 0int {
    match (x, y) {
        (G::Tab(k1, a), G::Tab(k2, b)) => G::Tab(kun(k1, k2), un(a, b, b.len() as int)),
        (G::Arr(k1, a), G::Arr(k2, b)) => G::Arr(k1, amu(a, k2, b)),
        _ => x,
    }
}
pub open spec fn un(a: Es, b: Es, n: int) -> Es decreases b, n {
    if n <= 0 || n > b.len() { a } else {
        let p = un(a, b, n - 1);
        if keyed(p, b[n - 1].0) { let i = idx(p, b[n - 1].0); p.update(i, (p[i].0, vun(p[i].1, b[n - 1].1))) } else { p.push(b[n - 1]) }
    }
}
/// every table has each key once; the root is no value; an array of tables has at least one element, and every element is a table
pub open spec fn wf(x: G) -> bool decreases x {
    match x {
        G::Tab(k, a) => !(k is Root) && distinct(a) && forall|i: int| 0 <= i < a.len() ==> wf((#[trigger] a[i]).1),
        G::Arr(k, a) => (aot(k) ==> a.len() > 0 && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] is Tab) && (forall|i: int| 0 <= i < a.len() ==> wf(#[trigger] a[i])),
        _ => true,
    }
}
pub open spec fn wfe(a: Es) -> bool { distinct(a) && forall|i: int| 0 <= i < a.len() ==> wf((#[trigger] a[i]).1) }
"""
LEM = r"""
pub proof fn lemma_idx(s: Es, k: Seq<char>, i: int)
    requires distinct(s), at(s, k, i),
    ensures keyed(s, k), idx(s, k) == i,
{ let j = idx(s, k); assert(at(s, k, j)); if i < j { assert(s[i].0 != s[j].0); } else if j < i { assert(s[j].0 != s[i].0); } }
/// what was there stays where it was, under its key, and changes only if the other side has the key too
pub proof fn lemma_un_keys(a: Es, b: Es, n: int)
    requires distinct(a), distinct(b), 0 <= n <= b.len(),
    ensures
        un(a, b, n).len() >= a.len(), distinct(un(a, b, n)),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] un(a, b, n)[i]).0 == a[i].0,
        forall|i: int| 0 <= i < a.len() && !keyed(b.take(n), a[i].0) ==> (#[trigger] un(a, b, n)[i]) == a[i],
        forall|i: int| a.len() <= i < un(a, b, n).len() ==> keyed(b.take(n), (#[trigger] un(a, b, n)[i]).0),
    decreases n,
{
    if n > 0 {
        lemma_un_keys(a, b, n - 1);
        let p = un(a, b, n - 1); let q = un(a, b, n); let k = b[n - 1].0;
        assert forall|x: Seq<char>| keyed(b.take(n), x) == (keyed(b.take(n - 1), x) || x == k) by {
            if keyed(b.take(n - 1), x) { let j = idx(b.take(n - 1), x); assert(at(b.take(n - 1), x, j)); assert(at(b.take(n), x, j)); }
            if x == k { assert(at(b.take(n), x, n - 1)); }
            if keyed(b.take(n), x) { let j = idx(b.take(n), x); assert(at(b.take(n), x, j)); if j < n - 1 { assert(at(b.take(n - 1), x, j)); } }
        }
        if keyed(p, k) {
            let i = idx(p, k); assert(at(p, k, i));
        } else {
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { if j == p.len() { assert(!at(p, k, i)); } }
        }
    } else { assert(b.take(0).len() == 0); assert forall|x: Seq<char>| !keyed(b.take(0), x) by { if keyed(b.take(0), x) { assert(at(b.take(0), x, idx(b.take(0), x))); } } }
}
/// a key on both sides: its values are merged, or cannot be
pub proof fn lemma_okn_point(a: Es, b: Es, n: int, i: int, j: int)
    requires distinct(a), distinct(b), 0 <= j < n <= b.len(), 0 <= i < a.len(), a[i].0 == b[j].0, okn(a, b, n),
    ensures vok(a[i].1, b[j].1),
    decreases n,
{
    if j == n - 1 {
        let p = un(a, b, n - 1);
        lemma_un_keys(a, b, n - 1);
        assert(at(p, b[j].0, i)); lemma_idx(p, b[j].0, i);
        if keyed(b.take(n - 1), a[i].0) { let z = idx(b.take(n - 1), a[i].0); assert(at(b.take(n - 1), a[i].0, z)); assert(b[z].0 != b[j].0); }
    } else { lemma_okn_point(a, b, n - 1, i, j); }
}
pub proof fn lemma_okn_prefix(a: Es, b: Es, m: int, n: int)
    requires 0 <= m <= n <= b.len(), okn(a, b, n),
    ensures okn(a, b, m),
    decreases n,
{ if m < n { lemma_okn_prefix(a, b, m, n - 1); } }
"""
KIND = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"
TYPES = [
    Raw(TB, "enum TableKind", attrs=KIND), Raw(AR, "enum ArrayKind", attrs=KIND), Raw(KY, "enum KeyKind", attrs=KIND),
    Raw(KY, "struct Key", rewrites=[("kind: KeyKind", "pub kind: KeyKind"), ("range: ", "pub range: ")]),
    Raw(TB, "struct Table", rewrites=[("kind: TableKind", "pub kind: TableKind"), ("key_values: ", "pub key_values: "), ("{ pub kind: TableKind, range:", "{ pub kind: TableKind, pub range:"), (", symbol_range:", ", pub symbol_range:")]),
    Raw(AR, "struct Array", rewrites=[("kind: ArrayKind", "pub kind: ArrayKind"), ("values: ", "pub values: "), ("{ pub kind: ArrayKind, range:", "{ pub kind: ArrayKind, pub range:"), (", symbol_range:", ", pub symbol_range:")]),
    Text("".join(f"pub struct {n} {{ pub d: LeafData, pub comment_directives: Dirs }}\n" for n in ["Boolean", "Integer", "Float", "StringV", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime"])),
    Raw(D + "value.rs", "enum Value", rewrites=[("String(String)", "String(StringV)")]),
]
MAP = Text(r"""
pub enum Entry<'a> { Occupied(OccupiedEntry<'a>), Vacant(VacantEntry<'a>) }
pub struct OccupiedEntry<'a> { pub k: Key, pub v: &'a mut Value }
pub struct VacantEntry<'a> { pub k: Key, pub m: &'a mut IndexMap }
impl IndexMap {
    pub open spec fn view(&self) -> Es { es(self.entries@) }
    #[verifier::external_body]
    pub fn entry<'a>(&'a mut self, key: Key) -> (r: Entry<'a>)
        ensures match r {
            Entry::Occupied(o) => keyed(old(self)@, key.value@) && 0 <= idx(old(self)@, key.value@) < old(self).entries@.len() && o.k.value@ == key.value@ && *o.v == old(self).entries@[idx(old(self)@, key.value@)].1
                && final(self).entries@ == old(self).entries@.update(idx(old(self)@, key.value@), (old(self).entries@[idx(old(self)@, key.value@)].0, *final(o.v))),
            Entry::Vacant(e) => !keyed(old(self)@, key.value@) && e.k == key && *e.m == *old(self) && *final(e.m) == *final(self),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, key: &Key) -> (r: Option<&Value>)
        ensures r is Some == keyed(self@, key.value@), r is Some ==> 0 <= idx(self@, key.value@) < self.entries@.len() && *(r->0) == self.entries@[idx(self@, key.value@)].1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self.entries@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_at(&self, i: usize) -> (r: (&Key, &Value)) requires i < self.entries@.len() ensures *r.0 == self.entries@[i as int].0, *r.1 == self.entries@[i as int].1 { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: MapIter) ensures r.all() == self.entries@, r.pos() == 0 { unimplemented!() }
}
impl<'a> OccupiedEntry<'a> {
    #[verifier::external_body]
    pub fn key(&self) -> (r: &Key) ensures *r == self.k { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self) -> (r: &mut Value)
        ensures *r == *old(self).v, final(self).k == old(self).k, *final(self).v == *final(r), *final(final(self).v) == *final(old(self).v)
    { unimplemented!() }
}
impl<'a> VacantEntry<'a> {
    #[verifier::external_body]
    pub fn insert(self, v: Value) ensures final(self.m).entries@ == old(self.m).entries@.push((self.k, v)) { unimplemented!() }
}
#[verifier::external_body]
pub struct MapIter { x: u64 }
impl MapIter {
    pub uninterp spec fn all(&self) -> Seq<(Key, Value)>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(Key, Value)>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(), r is Some == (old(self).pos() < old(self).all().len()),
            r is Some ==> r->0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_last_mut(v: &mut Vec<Value>) -> (r: Option<&mut Value>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@,
        old(v)@.len() > 0 ==> r is Some && *(r->0) == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r->0)),
{ v.last_mut() }
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub struct VecIter { x: u64 }
impl VecIter {
    pub uninterp spec fn all(&self) -> Seq<Value>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Value>)
        ensures final(self).all() == old(self).all(), 0 <= old(self).pos() <= old(self).all().len(), r is Some == (old(self).pos() < old(self).all().len()),
            r is Some ==> r->0 == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1,
            r is None ==> final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_iter(v: Vec<Value>) -> (r: VecIter) ensures r.all() == v@, r.pos() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_key_clone(k: &Key) -> (r: Key) ensures r == *k { unimplemented!() }
""")
RW = [
    ("if let Some($x) = $$e && match $t { $$m } { $$b }", "if let Some($x) = $$e { if match $t { $$m } { $$b } }"),
    ("if let Some($x) = $$e && $$c { $$b }", "if let Some($x) = $$e { if $$c { $$b } }"),
    ("tombi_hashmap::IndexMap<Key, Value>", "IndexMap"), ("tombi_hashmap::map::Entry", "Entry"), ("tombi_text::Range", "Range"), ("crate::Error", "Error"), ("crate::$x", "$x"), ("pub(crate)", "pub"),
    ("self.range += $$e;", "self.range = vx_radd(self.range, $$e);"), ("self.symbol_range += $$e;", "self.symbol_range = vx_radd(self.symbol_range, $$e);"),
    ("errors.extend($$e)", "vx_extend(&mut errors, $$e)"), ("key.clone()", "vx_key_clone(&key)"),
    ("if $f($$a) => { $$x } _ => { $$y }", "=> { if $f($$a) { $$x } else { $$y } } _ => { $$y }"),
    ("for ($k, $v) in other.key_values { $$b }", "let mut vx_it = other.key_values.into_iter(); let ghost vx_b = vx_it.all(); while let Some(($k, $v)) = vx_it.next() { $$b }"),
    ("for $v in values { $$b }", "let mut vx_it = vx_vec_iter(values); let ghost vx_b = vx_it.all(); while let Some($v) = vx_it.next() { $$b }"),
    ("$x.values.last_mut()", "vx_last_mut(&mut $x.values)"), ("unreachable!($$a)", "vx_unreachable()"), ("mut other: Self", "vx_other: Self"),
    ("for ($k, $v) in self.key_values() { $$b }", "let vx_m = self.key_values(); let mut vx_i: usize = 0; while vx_i < vx_m.vx_len() { let ($k, $v) = vx_m.vx_at(vx_i); vx_i += 1; $$b }"),
]
RECURSIVE = "#[verifier::exec_allows_no_decreases_clause]"
I = dict(header="impl Table")
IA = dict(header="impl Array")
BODY = "gt(*final(self))"
MERGE = [
    Fn(TB, "Table::key_values", **I, ensures="*r == self.key_values"),
    Fn(TB, "Table::kind", **I, ensures="r == self.kind"),
    Fn(TB, "Table::merge", **I, attrs=RECURSIVE, entry="let ghost a0 = gt(*self); let ghost b0 = gt(other); let ghost k0 = self.kind;", requires="wfe(gt(*old(self))), wfe(gt(other))",
       ensures="""r is Ok <==> kinds(old(self).kind, other.kind) && okn(gt(*old(self)), gt(other), gt(other).len() as int),
            r is Err ==> r->Err_0@.len() > 0, wfe(gt(*final(self))), final(self).kind == old(self).kind || final(self).kind == other.kind,
            r is Ok ==> gt(*final(self)) == un(gt(*old(self)), gt(other), gt(other).len() as int) && final(self).kind == kun(old(self).kind, other.kind)""",
       loops={0: Loop("while", invariant="a0 == vx_m@, b0 == gt(other), wfe(a0), wfe(b0), vx_i <= vx_m.entries@.len()", ieb="!is_conflict", start="""proof {
            let i = vx_i as int; let k = a0[i].0;
            if keyed(b0, k) {
                let j = idx(b0, k); assert(at(b0, k, j));
                vx_gv(vx_m.entries@[i].1); vx_gv(other.key_values.entries@[j].1);
                if okn(a0, b0, b0.len() as int) { lemma_okn_point(a0, b0, b0.len() as int, i, j); }
            }
        }""", ensures="is_conflict ==> !okn(a0, b0, b0.len() as int)", decreases="vx_m.entries@.len() - vx_i"),
              1: Loop("while let", invariant="vx_it.all() == vx_b, es(vx_b) == b0, wfe(b0), 0 <= vx_it.pos() <= vx_b.len(), wfe(gt(*self)), errors@.len() == 0 <==> okn(a0, b0, vx_it.pos()), errors@.len() == 0 ==> gt(*self) == un(a0, b0, vx_it.pos())",
                      ensures="vx_it.pos() == vx_b.len()", decreases="vx_b.len() - vx_it.pos()",
                      start="let ghost p = gt(*self); let ghost s1 = self.key_values.entries@; let ghost g2 = value2; let ghost n = vx_it.pos(); let ghost kk = key.value@; proof { assert(es(vx_b)[n - 1] == b0[n - 1]); assert(b0[n - 1] == (kk, gv(g2))); assert(wf(b0[n - 1].1)); vx_gv(value2); if keyed(p, kk) { assert(at(p, kk, idx(p, kk))); vx_gv(s1[idx(p, kk)].1); assert(wf(p[idx(p, kk)].1)); } }",
                      end="""proof {
            let q = gt(*self);
            if keyed(p, kk) {
                let i = idx(p, kk);
                let v = self.key_values.entries@[i].1;
                vx_gv(v);
                assert(q =~= p.update(i, (p[i].0, gv(v))));
            } else { assert(q =~= p.push((kk, gv(g2)))); assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { if j == p.len() { assert(!at(p, kk, i)); } } }
            assert(wfe(q));
            assert(un(a0, b0, n) == (if keyed(un(a0, b0, n - 1), kk) { let i = idx(un(a0, b0, n - 1), kk); un(a0, b0, n - 1).update(i, (un(a0, b0, n - 1)[i].0, vun(un(a0, b0, n - 1)[i].1, gv(g2)))) } else { un(a0, b0, n - 1).push((kk, gv(g2))) }));
            if errors@.len() == 0 && keyed(p, kk) { assert(gv(self.key_values.entries@[idx(p, kk)].1) == vun(p[idx(p, kk)].1, gv(g2))); }
            assert(okn(a0, b0, n) == (okn(a0, b0, n - 1) && (keyed(un(a0, b0, n - 1), kk) ==> vok(un(a0, b0, n - 1)[idx(un(a0, b0, n - 1), kk)].1, gv(g2)))));
        }""")}),
    Fn(TB, "Table::merge_same_key", **I, attrs=RECURSIVE, requires="wfe(gt(*old(self))), wfe(gt(other))",
       ensures="""r is Ok <==> vok(G::Tab(old(self).kind, gt(*old(self))), G::Tab(other.kind, gt(other))),
            r is Err ==> r->Err_0@.len() > 0, wfe(gt(*final(self))), final(self).kind == old(self).kind || final(self).kind == other.kind,
            r is Ok ==> G::Tab(final(self).kind, gt(*final(self))) == vun(G::Tab(old(self).kind, gt(*old(self))), G::Tab(other.kind, gt(other)))"""),
    Fn(TB, "fn can_merge_arrays", ensures="r == (aot(array1.kind) && aot(array2.kind))"),
    Fn(AR, "Array::kind", **IA, ensures="r == self.kind"),
    Fn(KY, "Key::range", header="impl Key"),
    Fn(D + "value.rs", "Value::range", header="impl Value"),
    Fn(D + "value.rs", "Value::symbol_range", header="impl Value"),
    Fn(AR, "Array::range", **IA), Fn(AR, "Array::symbol_range", **IA), Fn(TB, "Table::range", **I), Fn(TB, "Table::symbol_range", **I),
    Fn(AR, "Array::push", **IA, ensures="final(self).kind == old(self).kind, final(self).values@ == old(self).values@.push(value)"),
    Fn(AR, "Array::extend", **IA, ensures="final(self).kind == old(self).kind, final(self).values@ == old(self).values@ + values@",
       loops={0: Loop("while let", invariant="vx_it.all() == vx_b, vx_b == values@, 0 <= vx_it.pos() <= vx_b.len(), self.kind == old(self).kind, self.values@ == old(self).values@ + vx_b.take(vx_it.pos())", ensures="vx_it.pos() == vx_b.len()", decreases="vx_b.len() - vx_it.pos()",
             end="proof { let n = vx_it.pos(); assert(vx_b.take(n) =~= vx_b.take(n - 1).push(vx_b[n - 1])); assert(self.values@ =~= old(self).values@ + vx_b.take(n)); }", after="proof { assert(vx_b.take(vx_b.len() as int) =~= vx_b); }",
             before="proof { assert(self.values@ =~= old(self).values@ + vx_b.take(0)); }")}),
    Fn(AR, "Array::merge", **IA, attrs=RECURSIVE, entry="""let mut other = vx_other; let ghost a0 = gs(self.values@); let ghost b0 = gs(other.values@); let ghost joined = joins(a0, other.kind, b0);
        proof { if other.values@.len() > 0 { vx_gv(other.values@.last()); assert(b0.last() == gv(other.values@.last())); assert(wf(b0[b0.len() - 1])); } if self.values@.len() > 0 { vx_gv(self.values@.last()); assert(a0.last() == gv(self.values@.last())); assert(wf(a0[a0.len() - 1])); } }""", requires="wf(G::Arr(old(self).kind, gs(old(self).values@))), wf(G::Arr(vx_other.kind, gs(vx_other.values@)))",
       ensures="""r is Ok <==> amk(old(self).kind, vx_other.kind) && amo(gs(old(self).values@), vx_other.kind, gs(vx_other.values@)),
            r is Err ==> r->Err_0@.len() > 0,
            r is Ok ==> final(self).kind == old(self).kind && gs(final(self).values@) == amu(gs(old(self).values@), vx_other.kind, gs(vx_other.values@)), wf(G::Arr(final(self).kind, gs(final(self).values@)))""",
       ghost=[("before", "if errors.is_empty() { Ok(()) }", """proof {
            let q = gs(self.values@);
            if joined { vx_gv(self.values@[a0.len() - 1]); assert(q =~= a0.update(a0.len() - 1, q[a0.len() - 1])); assert(wf(q[a0.len() - 1])); }
            else if errors@.len() == 0 { assert(q =~= a0 + b0); assert forall|i: int| 0 <= i < q.len() implies wf(#[trigger] q[i]) by { if i < a0.len() { assert(wf(a0[i])); } else { assert(wf(b0[i - a0.len()])); } } }
            else { assert(q =~= a0); }
        }""")]),
]

LITK = ["BasicString", "LiteralString", "MultiLineBasicString", "MultiLineLiteralString", "IntegerBin", "IntegerOct", "IntegerDec", "IntegerHex", "Float", "Boolean", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime"]
SEQC, OPTC = "Seq<AComment>", "Option<AComment>"


def node(name, fields, methods):
    out = [f"pub struct {name} {{ " + ", ".join(f"pub {k}: {v}" for k, v in fields) + " }", f"impl {name} {{"]
    for sig, ens in methods:
        out.append(f"    #[verifier::external_body]\n    pub fn {sig} ensures {ens} {{ unimplemented!() }}")
    return "\n".join(out) + "\n}\n"


def sq(n, f, t, extra=""):
    return (f"{n}(&self) -> (r: Vs<{t}>)", f"r@ == self.{f}{extra}")


def oc(n, f):
    return (f"{n}(&self) -> (r: Option<AComment>)", f"r == self.{f}")


SECF = [("header", "Option<AKeys>"), ("lead", SEQC), ("trail", OPTC), ("dang", "Seq<AGroup>"), ("groups", "Seq<Or<AKvGroup>>"), ("prev", "Seq<APrev>")]
SECM = [("header(&self) -> (r: Option<AKeys>)", "r == self.header"), sq("header_leading_comments", "lead", "AComment"), oc("header_trailing_comment", "trail"), sq("dangling_comment_groups", "dang", "AGroup"),
        sq("key_value_groups", "groups", "Or<AKvGroup>"), sq("vx_prev", "prev", "APrev")]
NODES = r"""
pub struct Vs<T> { pub v: Vec<T> }
impl<T> Vs<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn count(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn clone(&self) -> (r: &Self) ensures *r == *self { self }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: Self) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vs<T>(v: Vec<T>) -> (r: Vs<T>) ensures r@ == v@ { Vs { v } }
/// take_while / filter / ... results handed to a caller one by one
#[verifier::external_body]
pub fn vx_append<T>(a: &mut Vec<T>, b: Option<Vs<T>>) ensures final(a)@ == (if b is Some { old(a)@ + (b->0)@ } else { old(a)@ }) { unimplemented!() }
pub uninterp spec fn cok(c: AComment) -> bool;
#[verifier::external_body]
pub struct AComment { x: u64 }
impl AComment {
    #[verifier::external_body]
    pub fn get_tombi_value_directive(&self) -> Option<TombiValueCommentDirective> { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_try_comment(c: &AComment) -> (r: Result<(), Error>) ensures r is Ok == cok(*c) { unimplemented!() }
pub open spec fn coms(s: Seq<AComment>, n: int) -> bool { forall|i: int| 0 <= i < n && i < s.len() ==> cok(#[trigger] s[i]) }
pub open spec fn ocok(c: Option<AComment>) -> bool { c is Some ==> cok(c->0) }
pub open spec fn grps(s: Seq<AGroup>, n: int) -> bool { forall|i: int| 0 <= i < n && i < s.len() ==> coms((#[trigger] s[i]).coms, s[i].coms.len() as int) }
pub enum Or<T> { DanglingCommentGroup(AGroup), ItemGroup(T) }

// ---------------------------------------------------------------- keys
#[verifier::external_body]
pub struct KeyTok { x: u64 }
pub uninterp spec fn kt(k: KeyTok, t: TomlVersion) -> Option<Seq<char>>;
pub uninterp spec fn tok_text(k: KeyTok) -> Seq<char>;
pub struct AToken { pub text: Ghost<Seq<char>> }
impl AToken {
    #[verifier::external_body]
    pub fn text(&self) -> (r: &str) ensures r@ == self.text@ { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> Range { unimplemented!() }
}
pub enum AKey { BareKey(KeyTok), BasicString(KeyTok), LiteralString(KeyTok) }
impl AKey {
    pub open spec fn k(&self) -> KeyTok { match *self { AKey::BareKey(k) => k, AKey::BasicString(k) => k, AKey::LiteralString(k) => k } }
    #[verifier::external_body]
    pub fn token(&self) -> (r: Option<AToken>) ensures r is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn try_to_raw_text(&self, t: TomlVersion) -> (r: Result<String, u8>) ensures r is Ok == kt(self.k(), t) is Some, r is Ok ==> r->Ok_0@ == kt(self.k(), t)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn range(&self) -> Range { unimplemented!() }
}
pub open spec fn kx(k: AKey, t: TomlVersion) -> Seq<char> { kt(k.k(), t)->0 }
pub open spec fn keys_ok(s: Seq<AKey>, t: TomlVersion, n: int) -> bool { forall|i: int| 0 <= i < n && i < s.len() ==> kt((#[trigger] s[i]).k(), t) is Some }
pub open spec fn kxs(s: Seq<AKey>, t: TomlVersion) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| kx(s[i], t)) }
pub open spec fn ktx(s: Seq<Key>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].value@) }
""" + node("AKeys", [("ks", "Seq<AKey>")], [("keys(&self) -> (r: Vs<AKey>)", "r@ == self.ks, r@.len() > 0")]) + node("APrev", [("header", "Option<AKeys>")], [("header(&self) -> (r: Option<AKeys>)", "r == self.header")]) + \
    node("AGroup", [("coms", SEQC)], [sq("comments", "coms", "AComment")]) + node("AComma", [("lead", SEQC), ("trail", OPTC)], [sq("leading_comments", "lead", "AComment"), oc("trailing_comment", "trail")]) + \
    node("AKvGroup", [("items", "Seq<(AKeyValue, Option<AComma>)>")], [("into_key_values(self) -> (r: Vs<AKeyValue>)", "r@.len() == self.items.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.items[i].0"),
                                                                      sq("key_values_with_comma", "items", "(AKeyValue, Option<AComma>)")]) + \
    node("AKeyValue", [("lead", SEQC), ("ks", "Option<AKeys>"), ("val", "Option<AValue>")], [sq("leading_comments", "lead", "AComment"), ("keys(&self) -> (r: Option<AKeys>)", "r == self.ks"), ("value(&self) -> (r: Option<AValue>)", "r == self.val"), ("range(&self) -> (r: Range)", "true")]) + \
    node("AValGroup", [("items", "Seq<(AVoK, Option<AComma>)>")], [sq("value_or_key_values_with_comma", "items", "(AVoK, Option<AComma>)")]) + \
    node("AArray", [("lead", SEQC), ("start", OPTC), ("dang", "Seq<AGroup>"), ("groups", "Seq<Or<AValGroup>>"), ("items", "Seq<(AVoK, Option<AComma>)>"), ("trail", OPTC)],
         [sq("leading_comments", "lead", "AComment"), oc("bracket_start_trailing_comment", "start"), oc("trailing_comment", "trail"), sq("dangling_comment_groups", "dang", "AGroup"), sq("value_with_comma_groups", "groups", "Or<AValGroup>", ", self.items == flat(self.groups, self.groups.len() as int)")]) + \
    node("AInlineTable", [("lead", SEQC), ("start", OPTC), ("dang", "Seq<AGroup>"), ("groups", "Seq<Or<AKvGroup>>"), ("trail", OPTC)],
         [sq("leading_comments", "lead", "AComment"), oc("brace_start_trailing_comment", "start"), oc("trailing_comment", "trail"), sq("dangling_comment_groups", "dang", "AGroup"), sq("key_value_with_comma_groups", "groups", "Or<AKvGroup>")]) + \
    node("ATable", SECF, SECM + [("range(&self) -> (r: Range)", "true")]) + node("AArrayOfTable", SECF, SECM + [("range(&self) -> (r: Range)", "true")]) + \
    node("ARoot", [("dang", "Seq<AGroup>"), ("groups", "Seq<Or<AKvGroup>>"), ("secs", "Seq<ASec>")], [sq("dangling_comment_groups", "dang", "AGroup"), sq("key_value_groups", "groups", "Or<AKvGroup>"), sq("table_or_array_of_tables", "secs", "ASec")]) + \
    "pub enum ASec { Table(ATable), ArrayOfTable(AArrayOfTable) }\npub enum AVoK { Value(AValue), KeyValue(AKeyValue) }\npub enum AValue { " + ", ".join(f"{n}(Lit)" for n in LITK) + ", Array(AArray), InlineTable(AInlineTable) }\n" + r"""
impl AValue {
    #[verifier::external_body]
    pub fn leading_comments(&self) -> Vs<AComment> { unimplemented!() }
    #[verifier::external_body]
    pub fn trailing_comment(&self) -> Option<AComment> { unimplemented!() }
}
/// a string, number, boolean, date or time: what it says and whether it and its comments can be read
#[verifier::external_body]
pub struct Lit { x: u64 }
pub uninterp spec fn lit_g(l: Lit, t: TomlVersion) -> LeafData;
pub uninterp spec fn lit_ok(l: Lit, t: TomlVersion) -> bool;
impl Lit {
    #[verifier::external_body]
    pub fn into_document_tree_and_errors(self, t: TomlVersion) -> (r: DocumentTreeAndErrors<Value>)
        ensures !(r.tree is Table), !(r.tree is Array), (r.errors@.len() == 0) == lit_ok(self, t), lit_ok(self, t) ==> gv(r.tree) == G::Leaf(lit_g(self, t)),
    { unimplemented!() }
}
pub struct DocumentTreeAndErrors<T> { pub tree: T, pub errors: Vec<Error> }
pub fn vx_parts<T>(d: DocumentTreeAndErrors<T>) -> (r: (T, Vec<Error>)) ensures r.0 == d.tree, r.1 == d.errors { (d.tree, d.errors) }
pub open spec fn flat(g: Seq<Or<AValGroup>>, n: int) -> Seq<(AVoK, Option<AComma>)> decreases n {
    if n <= 0 || n > g.len() { Seq::empty() } else { match g[n - 1] { Or::ItemGroup(x) => flat(g, n - 1) + x.items, _ => flat(g, n - 1) } }
}

// ---------------------------------------------------------------- what a document says
/// `a.b.c = v` as a table
pub open spec fn nest_kv(ks: Seq<Seq<char>>, j: int, v: G) -> G decreases ks.len() - j {
    if j >= ks.len() - 1 { G::Tab(TableKind::KeyValue, seq![(ks[ks.len() - 1], v)]) } else { G::Tab(TableKind::ParentKey, seq![(ks[j], nest_kv(ks, j + 1, v))]) }
}
pub open spec fn gval(v: AValue, t: TomlVersion) -> G decreases v {
    match v {
        AValue::Array(a) => G::Arr(ArrayKind::Array, gitems(a.items, a.items.len() as int, t)),
        AValue::InlineTable(x) => G::Tab(TableKind::InlineTable { has_comment: itc(x) }, fg(Seq::empty(), x.groups, x.groups.len() as int, t)),
        LITPAT
    }
}
pub uninterp spec fn itc(x: AInlineTable) -> bool;
pub open spec fn gitem(x: AVoK, t: TomlVersion) -> G decreases x { match x { AVoK::Value(v) => gval(v, t), AVoK::KeyValue(k) => gkv(k, t) } }
pub open spec fn gitems(s: Seq<(AVoK, Option<AComma>)>, n: int, t: TomlVersion) -> Seq<G> decreases s, n {
    if n <= 0 || n > s.len() { Seq::empty() } else { gitems(s, n - 1, t).push(gitem(s[n - 1].0, t)) }
}
pub open spec fn gkv(k: AKeyValue, t: TomlVersion) -> G decreases k { match k.val { Some(v) => nest_kv(kxs(k.ks->0.ks, t), 0, gval(v, t)), None => G::Gone } }
pub open spec fn ents(x: G) -> Es { x->Tab_1 }
pub open spec fn un_(a: Es, x: G) -> Es { un(a, ents(x), ents(x).len() as int) }
pub open spec fn ok_(k: TableKind, a: Es, x: G) -> bool { kinds(k, x->Tab_0) && okn(a, ents(x), ents(x).len() as int) }
/// key-values added one after the other
pub open spec fn fk(base: Es, s: Seq<(AKeyValue, Option<AComma>)>, n: int, t: TomlVersion) -> Es decreases s, n { if n <= 0 || n > s.len() { base } else { un_(fk(base, s, n - 1, t), gkv(s[n - 1].0, t)) } }
pub open spec fn fg(base: Es, g: Seq<Or<AKvGroup>>, n: int, t: TomlVersion) -> Es decreases g, n {
    if n <= 0 || n > g.len() { base } else { match g[n - 1] { Or::ItemGroup(x) => fk(fg(base, g, n - 1, t), x.items, x.items.len() as int, t), _ => fg(base, g, n - 1, t) } }
}
pub open spec fn comma_ok(c: Option<AComma>) -> bool { c is Some ==> coms(c->0.lead, c->0.lead.len() as int) && ocok(c->0.trail) }
pub open spec fn val_ok(v: AValue, t: TomlVersion) -> bool decreases v {
    match v {
        AValue::Array(a) => coms(a.lead, a.lead.len() as int) && ocok(a.start) && grps(a.dang, a.dang.len() as int) && ocok(a.trail) && items_ok(a.items, a.items.len() as int, t),
        AValue::InlineTable(x) => coms(x.lead, x.lead.len() as int) && ocok(x.start) && grps(x.dang, x.dang.len() as int) && ocok(x.trail) && okg(TableKind::Table, Seq::empty(), x.groups, x.groups.len() as int, t, true),
        LITOK
    }
}
pub open spec fn items_ok(s: Seq<(AVoK, Option<AComma>)>, n: int, t: TomlVersion) -> bool decreases s, n {
    if n <= 0 || n > s.len() { true } else { items_ok(s, n - 1, t) && comma_ok(s[n - 1].1) && (match s[n - 1].0 { AVoK::Value(v) => val_ok(v, t), AVoK::KeyValue(k) => kv_ok(k, t) }) }
}
pub open spec fn kv_ok(k: AKeyValue, t: TomlVersion) -> bool decreases k {
    coms(k.lead, k.lead.len() as int) && k.ks is Some && keys_ok(k.ks->0.ks, t, k.ks->0.ks.len() as int) && (match k.val { Some(v) => val_ok(v, t), None => false })
}
/// each can be added to what is there (`c`: the comments next to commas are read as well)
pub open spec fn okk(kind: TableKind, base: Es, s: Seq<(AKeyValue, Option<AComma>)>, n: int, t: TomlVersion, c: bool) -> bool decreases s, n {
    if n <= 0 || n > s.len() { true } else { okk(kind, base, s, n - 1, t, c) && kv_ok(s[n - 1].0, t) && (c ==> comma_ok(s[n - 1].1)) && ok_(kind, fk(base, s, n - 1, t), gkv(s[n - 1].0, t)) }
}
pub open spec fn okg(kind: TableKind, base: Es, g: Seq<Or<AKvGroup>>, n: int, t: TomlVersion, c: bool) -> bool decreases g, n {
    if n <= 0 || n > g.len() { true } else { okg(kind, base, g, n - 1, t, c) && (match g[n - 1] { Or::ItemGroup(x) => okk(kind, fg(base, g, n - 1, t), x.items, x.items.len() as int, t, c), _ => true }) }
}
/// the header `h` starts with the keys `k` (as the newest TOML version reads them)
pub open spec fn starts(h: Seq<AKey>, k: Seq<AKey>) -> bool { k.len() <= h.len() && forall|i: int| 0 <= i < k.len() ==> kt((#[trigger] k[i]).k(), latest()) is Some && kt(h[i].k(), latest()) == kt(k[i].k(), latest()) }
pub uninterp spec fn latest() -> TomlVersion;
pub open spec fn cand(h: Seq<AKey>, prev: Seq<APrev>, i: int) -> bool { 0 <= i < prev.len() && prev[i].header is Some && starts(h, prev[i].header->0.ks) }
/// prev[i] (the closest first) is an array of tables whose current element the section with the header `h` stands in:
/// no array of tables further out was opened in between
pub open spec fn in_elem(h: Seq<AKey>, prev: Seq<APrev>, i: int) -> bool { cand(h, prev, i) && forall|j: int| 0 <= j < i && #[trigger] cand(h, prev, j) ==> prev[i].header->0.ks.len() <= prev[j].header->0.ks.len() }
pub open spec fn par_at(h: Seq<AKey>, prev: Seq<APrev>, t: TomlVersion, x: Seq<Seq<char>>, i: int) -> bool { in_elem(h, prev, i) && kxs(prev[i].header->0.ks, t) == x }
pub open spec fn par(h: Seq<AKey>, prev: Seq<APrev>, t: TomlVersion, x: Seq<Seq<char>>) -> bool { exists|i: int| par_at(h, prev, t, x, i) }
pub open spec fn par_ok(h: Seq<AKey>, prev: Seq<APrev>, t: TomlVersion) -> bool { forall|i: int| #[trigger] in_elem(h, prev, i) ==> keys_ok(prev[i].header->0.ks, t, prev[i].header->0.ks.len() as int) }
/// the table `x` at the first j keys of the header `h`, from the root
pub open spec fn wrap(h: Seq<AKey>, prev: Seq<APrev>, t: TomlVersion, j: int, x: G) -> G decreases j {
    if j <= 0 { x } else {
        let ks = kxs(h, t);
        let v = if j < h.len() && par(h, prev, t, ks.take(j)) { G::Arr(ArrayKind::ParentArrayOfTable, seq![x]) } else { x };
        wrap(h, prev, t, j - 1, G::Tab(TableKind::ParentTable, seq![(ks[j - 1], v)]))
    }
}
pub open spec fn gbody(g: Seq<Or<AKvGroup>>, t: TomlVersion) -> G { G::Tab(TableKind::Table, fg(Seq::empty(), g, g.len() as int, t)) }
pub open spec fn gsec(s: ASec, t: TomlVersion) -> G {
    match s {
        ASec::Table(s) => wrap(s.header->0.ks, s.prev, t, s.header->0.ks.len() as int, gbody(s.groups, t)),
        ASec::ArrayOfTable(s) => { let h = s.header->0.ks; let n = h.len() as int; wrap(h, s.prev, t, n - 1, G::Tab(TableKind::ParentTable, seq![(kxs(h, t)[n - 1], G::Arr(ArrayKind::ArrayOfTable, seq![gbody(s.groups, t)]))])) },
    }
}
pub open spec fn head_ok(header: Option<AKeys>, lead: Seq<AComment>, trail: Option<AComment>, dang: Seq<AGroup>, g: Seq<Or<AKvGroup>>, prev: Seq<APrev>, t: TomlVersion) -> bool {
    coms(lead, lead.len() as int) && ocok(trail) && grps(dang, dang.len() as int) && header is Some && keys_ok(header->0.ks, t, header->0.ks.len() as int) && okg(TableKind::Table, Seq::empty(), g, g.len() as int, t, false) && par_ok(header->0.ks, prev, t)
}
pub open spec fn sec_ok(s: ASec, t: TomlVersion) -> bool { match s { ASec::Table(s) => head_ok(s.header, s.lead, s.trail, s.dang, s.groups, s.prev, t), ASec::ArrayOfTable(s) => head_ok(s.header, s.lead, s.trail, s.dang, s.groups, s.prev, t) } }
/// the document after its key-values and the first n sections
pub open spec fn gdoc(r: ARoot, n: int, t: TomlVersion) -> Es decreases n { if n <= 0 || n > r.secs.len() { fg(Seq::empty(), r.groups, r.groups.len() as int, t) } else { un_(gdoc(r, n - 1, t), gsec(r.secs[n - 1], t)) } }
pub open spec fn doc_ok(r: ARoot, n: int, t: TomlVersion) -> bool decreases n {
    if n <= 0 || n > r.secs.len() { grps(r.dang, r.dang.len() as int) && okg(TableKind::Root, Seq::empty(), r.groups, r.groups.len() as int, t, false) }
    else { doc_ok(r, n - 1, t) && sec_ok(r.secs[n - 1], t) && ok_(TableKind::Root, gdoc(r, n - 1, t), gsec(r.secs[n - 1], t)) }
}
"""
NODES = NODES.replace("LITPAT", ", ".join(f"AValue::{n}(l) => G::Leaf(lit_g(l, t))" for n in LITK)).replace("LITOK", ", ".join(f"AValue::{n}(l) => lit_ok(l, t)" for n in LITK))
LEAFS = Text("".join(f"impl {n} {{ #[verifier::external_body] pub fn range(&self) -> Range {{ unimplemented!() }} #[verifier::external_body] pub fn symbol_range(&self) -> Range {{ unimplemented!() }} }}\n" for n in ["Boolean", "Integer", "Float", "StringV", "OffsetDateTime", "LocalDateTime", "LocalDate", "LocalTime"]))

REST = Text(r"""
#[verifier::external_body]
pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vx_replace<T>(a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b { unimplemented!() }
#[verifier::external_body]
pub fn vx_err() -> Error { unimplemented!() }
#[verifier::external_body]
pub fn vx_bool() -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_has_comment(x: &AInlineTable) -> (r: bool) ensures r == itc(*x) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ext<T>(a: &mut Vec<T>, b: Vec<T>) { unimplemented!() }
#[verifier::external_body]
pub struct DirIter { x: u64 }
#[verifier::external_body]
pub fn vx_ext_dirs(a: &mut Vec<TombiValueCommentDirective>, b: DirIter) { unimplemented!() }
impl Value { #[verifier::external_body] pub fn comment_directives(&self) -> Option<DirIter> { unimplemented!() } }
impl IndexMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.entries@.len() == 0, r@ == Seq::<(Seq<char>, G)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, key: Key, value: Value) ensures !keyed(old(self)@, key.value@) ==> final(self).entries@ == old(self).entries@.push((key, value)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_starts_with(h: &Vs<AKey>, k: &Vs<AKey>) -> (r: bool) ensures r == starts(h@, k@) { unimplemented!() }
pub open spec fn kin(v: Seq<Vec<Key>>, x: Seq<Seq<char>>, i: int) -> bool { 0 <= i < v.len() && ktx(v[i]@) == x }
pub open spec fn inl(v: Seq<Vec<Key>>, x: Seq<Seq<char>>) -> bool { exists|i: int| kin(v, x, i) }
#[verifier::external_body]
pub fn vx_contains(v: &Vec<Vec<Key>>, x: &Vec<Key>) -> (r: bool) ensures r == inl(v@, ktx(x@)) { unimplemented!() }
/// Itertools::unique keeps the first of equal lists
#[verifier::external_body]
pub fn vx_push_unique(v: &mut Vec<Vec<Key>>, x: Option<Vec<Key>>)
    ensures x is None ==> final(v)@ == old(v)@, x is Some ==> final(v)@ == (if inl(old(v)@, ktx((x->0)@)) { old(v)@ } else { old(v)@.push(x->0) })
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_touch(a: &mut Dirs) { unimplemented!() }
#[verifier::external_body]
pub fn vx_keys(h: Option<AKeys>) -> (r: Option<Vs<AKey>>) ensures r is Some == h is Some, r is Some ==> (r->0)@ == (h->0).ks && (r->0)@.len() > 0 { unimplemented!() }
#[verifier::external_body]
pub struct KeyIter { x: u64 }
impl KeyIter {
    pub uninterp spec fn left(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<AKey>) ensures r is Some == (old(self).left() > 0), r is Some ==> final(self).left() == old(self).left() - 1 { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_key_iter(k: Vs<AKey>) -> (r: KeyIter) ensures r.left() == k@.len() { unimplemented!() }
#[verifier::external_body]
pub fn vx_key_eq(k: &Key, a: &AKey) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn vx_first(m: IndexMap) -> (r: Option<(Key, Value)>) ensures r is Some == (m.entries@.len() > 0), r is Some ==> r->0 == m.entries@[0] { unimplemented!() }
/// one entry after the other, d levels deep
pub open spec fn chain(x: G, d: nat) -> bool decreases d { d == 0 || match x { G::Tab(_, a) => a.len() <= 1 && (a.len() == 1 && a[0].1 is Tab ==> chain(a[0].1, (d - 1) as nat)), _ => true } }
pub open spec fn tab(t: Table) -> G { G::Tab(t.kind, gt(t)) }
pub open spec fn klist(v: Seq<Vs<AKey>>, t: TomlVersion, x: Seq<Seq<char>>, i: int) -> bool { 0 <= i < v.len() && kxs(v[i]@, t) == x }
pub open spec fn klists_ok(v: Seq<Vs<AKey>>, t: TomlVersion, n: int) -> bool { forall|i: int| 0 <= i < n && i < v.len() ==> keys_ok((#[trigger] v[i])@, t, v[i]@.len() as int) }
pub open spec fn klisted(v: Seq<Vs<AKey>>, t: TomlVersion, x: Seq<Seq<char>>, n: int) -> bool { exists|i: int| i < n && #[trigger] klist(v, t, x, i) }
pub open spec fn par_of(h: Seq<AKey>, prev: Seq<APrev>, k: Seq<AKey>, i: int) -> bool { in_elem(h, prev, i) && k == prev[i].header->0.ks }
pub open spec fn par_list(h: Seq<AKey>, prev: Seq<APrev>, v: Seq<Vs<AKey>>, n: int) -> bool {
    par_src(h, prev, v, n) && par_all(h, prev, v, n)
}
pub open spec fn par_src(h: Seq<AKey>, prev: Seq<APrev>, v: Seq<Vs<AKey>>, n: int) -> bool {
    forall|j: int| 0 <= j < v.len() ==> src(h, prev, (#[trigger] v[j])@, n)
}
pub open spec fn src(h: Seq<AKey>, prev: Seq<APrev>, k: Seq<AKey>, n: int) -> bool { exists|i: int| i < n && par_of(h, prev, k, i) }
pub open spec fn par_all(h: Seq<AKey>, prev: Seq<APrev>, v: Seq<Vs<AKey>>, n: int) -> bool {
    (forall|i: int| #[trigger] mark(i) && i < n && in_elem(h, prev, i) ==> exists|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == prev[i].header->0.ks)
}
pub open spec fn mark(i: int) -> bool { true }
pub proof fn lemma_par_step(h: Seq<AKey>, prev: Seq<APrev>, ps: Seq<Vs<AKey>>, v: Seq<Vs<AKey>>, n: int)
    requires par_list(h, prev, ps, n), 0 <= n < prev.len(), v == ps && !in_elem(h, prev, n) || in_elem(h, prev, n) && v.len() == ps.len() + 1 && (forall|j: int| 0 <= j < ps.len() ==> v[j] == ps[j]) && v.last()@ == prev[n].header->0.ks,
    ensures par_src(h, prev, v, n + 1), par_all(h, prev, v, n + 1),
{
    assert forall|j: int| 0 <= j < v.len() implies src(h, prev, (#[trigger] v[j])@, n + 1) by { if j < ps.len() { assert(src(h, prev, ps[j]@, n)); let i = choose|i: int| i < n && par_of(h, prev, ps[j]@, i); assert(par_of(h, prev, v[j]@, i)); } else { assert(par_of(h, prev, v[j]@, n)); } }
    assert forall|i: int| #[trigger] mark(i) && i < n + 1 && in_elem(h, prev, i) implies exists|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == prev[i].header->0.ks by {
        if i < n { let j = choose|j: int| 0 <= j < ps.len() && (#[trigger] ps[j])@ == prev[i].header->0.ks; assert(v[j]@ == prev[i].header->0.ks); } else { assert(v[v.len() - 1]@ == prev[i].header->0.ks); }
    }
}
pub proof fn lemma_par(h: Seq<AKey>, prev: Seq<APrev>, v: Seq<Vs<AKey>>, t: TomlVersion)
    requires par_list(h, prev, v, prev.len() as int),
    ensures klists_ok(v, t, v.len() as int) == par_ok(h, prev, t), forall|x: Seq<Seq<char>>| #[trigger] par(h, prev, t, x) == klisted(v, t, x, v.len() as int),
{
    if klists_ok(v, t, v.len() as int) { assert forall|i: int| #[trigger] in_elem(h, prev, i) implies keys_ok(prev[i].header->0.ks, t, prev[i].header->0.ks.len() as int) by { assert(mark(i)); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == prev[i].header->0.ks; assert(v[j]@ == prev[i].header->0.ks); } }
    if par_ok(h, prev, t) { assert forall|j: int| 0 <= j < v.len() implies keys_ok((#[trigger] v[j])@, t, v[j]@.len() as int) by { let i = choose|i: int| i < prev.len() && par_of(h, prev, v[j]@, i); assert(in_elem(h, prev, i)); } }
    assert forall|x: Seq<Seq<char>>| #[trigger] par(h, prev, t, x) == klisted(v, t, x, v.len() as int) by {
        if par(h, prev, t, x) { let i = choose|i: int| par_at(h, prev, t, x, i); assert(in_elem(h, prev, i)); assert(mark(i)); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j])@ == prev[i].header->0.ks; assert(klist(v, t, x, j)); }
        if klisted(v, t, x, v.len() as int) { let j = choose|j: int| j < v.len() && #[trigger] klist(v, t, x, j); let i = choose|i: int| i < prev.len() && par_of(h, prev, v[j]@, i); assert(par_at(h, prev, t, x, i)); }
    }
}
pub broadcast proof fn lemma_par_b(h: Seq<AKey>, prev: Seq<APrev>, v: Seq<Vs<AKey>>, n: int, t: TomlVersion)
    requires n == prev.len(), par_list(h, prev, v, n),
    ensures #![trigger par_list(h, prev, v, n), klists_ok(v, t, v.len() as int)] klists_ok(v, t, v.len() as int) == par_ok(h, prev, t), forall|x: Seq<Seq<char>>| #[trigger] par(h, prev, t, x) == klisted(v, t, x, v.len() as int),
{ lemma_par(h, prev, v, t); }
pub struct DocumentTree(pub Table);
pub broadcast proof fn lemma_es_one(s: Seq<(Key, Value)>)
    ensures s.len() == 0 ==> #[trigger] es(s) == Seq::<(Seq<char>, G)>::empty(), s.len() == 1 ==> es(s) == seq![(s[0].0.value@, gv(s[0].1))],
{ if s.len() == 0 { assert(es(s) =~= Seq::<(Seq<char>, G)>::empty()); } if s.len() == 1 { assert(es(s) =~= seq![(s[0].0.value@, gv(s[0].1))]); } }
""")
NOR = ("range: $$a, symbol_range: $$b, header_comment_directives", "range: vx_range(), symbol_range: vx_range(), header_comment_directives")
RW2 = [
    ("tombi_ast::DanglingCommentGroupOr", "Or"), ("tombi_ast::TableOrArrayOfTable", "ASec"), ("tombi_ast::ValueOrKeyValue", "AVoK"), ("tombi_ast::$x", "A$x"), ("AstChildren<AKey>", "Vs<AKey>"), ("tombi_toml_version::TomlVersion", "TomlVersion"),
    ("crate::support::comment::try_new_comment(&$c)", "vx_try_comment(&$c)"), ("support::node::prev_siblings_nodes(self)", "self.vx_prev()"), ("std::mem::replace", "vx_replace"), ("Default::default()", "IndexMap::new()"), ("tombi_hashmap::IndexMap::new()", "IndexMap::new()"),
    ("$a.$b.clone()", "vx_clone(&$a.$b)"), ("table.clone()", "vx_clone(&table)"), ("header_comment_directives.clone()", "vx_clone(&header_comment_directives)"), ("body_comment_directives.clone()", "vx_clone(&body_comment_directives)"), ("combined_comment_directives.clone()", "vx_clone(&combined_comment_directives)"),
    ("combined_comment_directives.extend($$e)", "vx_ext(&mut combined_comment_directives, $$e)"), ("body_comment_directives.extend($d.cloned())", "vx_ext_dirs(&mut body_comment_directives, $d)"),
    ("$x.contains(&$y)", "vx_contains(&$x, &$y)"),
    ("let ($a, $b) = $$e.into();", "let ($a, $b) = vx_parts($$e);"), ("let (mut $a, $b) = $$e.into();", "let (vx_m, $b) = vx_parts($$e); let mut $a = vx_m;"),
    ("if let Some(mut $k) = $$e { $$b }", "if let Some(vx_k) = $$e { let mut $k = vx_k; $$b }"), ("while let Some(mut $k) = $$e { $$b }", "while let Some(vx_k) = $$e { let mut $k = vx_k; $$b }"),
    ("for mut $k in $a.into_iter().rev() { $$b }", "let mut vx_ks = $a; while let Some(vx_k) = vx_ks.pop() { let mut $k = vx_k; $$b }"),
    ("for $p in $a { $$b }", "let vx_v = $a; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $p = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
    ("for $p in $a.$m() { $$b }", "let vx_v = $a.$m(); let mut vx_i: usize = 0; while vx_i < vx_v.len() { let $p = vx_v.vx_nth(vx_i); vx_i += 1; $$b }"),
] * 3
RW3 = [r for r in RW if not r[0].startswith("for ")]
RW = [r for r in RW if r[0].startswith("for ")] + RW2 + RW3
DEC = "vx_v@.len() - vx_i"
E0 = "let ghost e0 = errors@.len() == 0;"
NOE = Loop("while", invariant="vx_i <= vx_v@.len()", decreases=DEC)


def coml(extra=""):
    return Loop("while", before=E0, invariant="vx_i <= vx_v@.len(), (errors@.len() == 0) == (e0 && coms(vx_v@, vx_i as int))" + extra, ensures="vx_i == vx_v@.len()", decreases=DEC)


def grpl():
    return [Loop("while", before="let ghost e1 = errors@.len() == 0;", invariant="vx_i <= vx_v@.len(), (errors@.len() == 0) == (e1 && grps(vx_v@, vx_i as int))", ensures="vx_i == vx_v@.len()", decreases=DEC), coml()]


ONE = "gt(r).len() == 0, gt(r) == Seq::<(Seq<char>, G)>::empty()"
CONV = [
    Fn(KY, "IntoDocumentTreeAndErrors for tombi_ast::Key :: into_document_tree_and_errors", header="impl AKey", ensures="r.tree is Some, (r.errors@.len() == 0) == (kt(self.k(), toml_version) is Some), kt(self.k(), toml_version) is Some ==> r.tree->0.value@ == kx(self, toml_version)",
       rewrites=[("self.syntax().range()", "vx_range()"), ("token.text().to_string()", "vx_to_string(token.text())"), ("$$a ParseStringError { $$b }", "vx_err()")]),
    Fn(KY, "IntoDocumentTreeAndErrors for tombi_ast::Keys :: into_document_tree_and_errors", header="impl AKeys", ensures="(r.errors@.len() == 0) == keys_ok(self.ks, toml_version, self.ks.len() as int), r.errors@.len() == 0 ==> ktx(r.tree@) == kxs(self.ks, toml_version), r.tree@.len() == self.ks.len(), self.ks.len() > 0", rewrites=[("let mut keys = Vec::new();", "let mut keys: Vec<Key> = Vec::new();")],
       loops={0: Loop("while", invariant="vx_i <= vx_v@.len(), vx_v@ == self.ks, keys@.len() == vx_i, (errors@.len() == 0) == keys_ok(self.ks, toml_version, vx_i as int), errors@.len() == 0 ==> forall|i: int| 0 <= i < vx_i ==> (#[trigger] keys@[i]).value@ == kx(self.ks[i], toml_version)", ensures="vx_i == vx_v@.len()", decreases=DEC, after="proof { if errors@.len() == 0 { assert(ktx(keys@) =~= kxs(self.ks, toml_version)); } }")}),
] + [
    Fn(TB, "Table::" + n, **I, rewrites=[NOR, ("let has_comment = $$e;", "let has_comment = vx_has_comment(node);"), ("let symbol_range = $$e;", "let symbol_range = vx_range();"), (", range: node.syntax().range(), symbol_range,", ", range: vx_range(), symbol_range,")], ensures=f"r.kind == ({k}), {ONE}")
    for n, k in [("new_empty", "TableKind::Table"), ("new_root", "TableKind::Root"), ("new_table", "TableKind::Table"), ("new_array_of_table", "TableKind::Table"), ("new_inline_table", "TableKind::InlineTable { has_comment: itc(*node) }"), ("new_key_value", "TableKind::KeyValue"),
                 ("new_parent_table", "TableKind::ParentTable"), ("new_parent_key", "TableKind::ParentKey")]
] + [
    Fn(AR, "Array::" + n, **IA, rewrites=[NOR], ensures=f"r.kind == ArrayKind::{k}, r.values@.len() == 0, gs(r.values@) == Seq::<G>::empty()")
    for n, k in [("new_array", "Array"), ("new_array_of_tables", "ArrayOfTable"), ("new_parent_array_of_tables", "ParentArrayOfTable")]
]

ASN = "crates/tombi-ast/src/"
BC = "broadcast use {lemma_gv_table, lemma_gv_array, lemma_es_one};"
CNV = "IntoDocumentTreeAndErrors for tombi_ast::%s :: into_document_tree_and_errors"
RTAB = [("Vec<tombi_ast::Key>", "Vec<AKey>")]
ERRS = [("let mut errors = vec![];", "let mut errors: Vec<Error> = Vec::new();"), ("let mut errors = Vec::new();", "let mut errors: Vec<Error> = Vec::new();"),
        ("let mut $v = vec![];", "let mut $v: Vec<TombiValueCommentDirective> = Vec::new();"), ("let mut group_boundary_comment_directives = Vec::new();", "let mut group_boundary_comment_directives: Vec<TombiValueCommentDirective> = Vec::new();"),
        ("let mut header_comment_directives = Vec::new();", "let mut header_comment_directives: Vec<TombiValueCommentDirective> = Vec::new();"), ("let mut body_comment_directives = Vec::new();", "let mut body_comment_directives: Vec<TombiValueCommentDirective> = Vec::new();")]


def groups(kind, c, first, tv="toml_version", tab="table", items="key_value_group"):
    """the loop over the groups of key-values, the one over a group, and the one over the comments of a dangling group"""
    return [
        Loop("while", before=BC + f"let ghost e2 = errors@.len() == 0;", invariant=f"vx_i <= vx_v@.len(), wfe(gt({tab})), {KIN(kind, tab)}, (errors@.len() == 0) == (e2 && okg({kind}, Seq::empty(), vx_v@, vx_i as int, {tv}, {c})), errors@.len() == 0 ==> {tab}.kind == ({kind}) && gt({tab}) == fg(Seq::empty(), vx_v@, vx_i as int, {tv})",
             ensures="vx_i == vx_v@.len()", decreases=DEC, start="let ghost gv0 = vx_v@; let ghost gi0 = vx_i as int;"),
        Loop("while", before=f"let ghost e3 = errors@.len() == 0; let ghost b3 = gt({tab}); let ghost its = {items}.items;",
             invariant=f"vx_i <= vx_v@.len(), vx_v@.len() == its.len(), {'vx_v@ == its' if c == 'true' else 'forall|i: int| 0 <= i < its.len() ==> #[trigger] vx_v@[i] == its[i].0'}, wfe(gt({tab})), {KIN(kind, tab)}, (errors@.len() == 0) == (e3 && okk({kind}, b3, its, vx_i as int, {tv}, {c})), errors@.len() == 0 ==> {tab}.kind == ({kind}) && gt({tab}) == fk(b3, its, vx_i as int, {tv})",
             ensures="vx_i == vx_v@.len()", decreases=DEC, start=f"{BC} let ghost kn = vx_i + 1; proof {{ assert(vx_v@[kn - 1] == vx_v@[kn - 1]); {'' if c == 'true' else 'assert(vx_v@[kn - 1] == its[kn - 1].0);'} }}"),
    ]


def KIN(kind, tab):
    return f"!({tab}.kind is Root)" if "Root" not in kind else "true"


KVR = [("table.range = $$e;", "table.range = vx_range();"), ("table.symbol_range = $$e;", "table.symbol_range = vx_range();"), ("tombi_text::Range::at($$e)", "vx_range()")]
COMPLETE = "r.tree.kind"
PRE_GAK = lambda text: text
HEADE = "head_ok(self.header, self.lead, self.trail, self.dang, self.groups, self.prev, toml_version)"


def section(file, name, extra):
    pre = [coml(), *grpl(), groups("TableKind::Table", "false", 0)[0], groups("TableKind::Table", "false", 0)[1], Loop("while", invariant="vx_i <= vx_v@.len()", decreases=DEC),
           Loop("while let", before="let ghost e5 = errors@.len() == 0; let ghost hs = self.header->0.ks; let ghost pv = self.prev; let ghost w = gsec(ASec::%s(self), toml_version); proof { if e5 { assert(ktx(header_keys@) =~= kxs(hs, toml_version).take(header_keys@.len() as int)); } }" % name,
                invariant="""(errors@.len() == 0) == e5, wfe(gt(table)), !(table.kind is Root), e5 ==> header_keys@.len() <= hs.len() && ktx(header_keys@) == kxs(hs, toml_version).take(header_keys@.len() as int),
                    e5 ==> forall|x: Seq<Seq<char>>| #[trigger] par(hs, pv, toml_version, x) == inl(array_of_table_keys@, x),
                    e5 ==> is_array_of_table == (header_keys@.len() < hs.len() && par(hs, pv, toml_version, kxs(hs, toml_version).take(header_keys@.len() as int))),
                    e5 ==> wrap(hs, pv, toml_version, header_keys@.len() as int, tab(table)) == w""", ensures="header_keys@.len() == 0", decreases="header_keys@.len()",
                start=BC + "let ghost j = header_keys@.len() + 1; let ghost old_tab = tab(table); let ghost fl = is_array_of_table; proof { if e5 { let q = ktx(header_keys@.push(vx_k)); assert(q =~= kxs(hs, toml_version).take(j as int)); assert(q[j - 1] == vx_k.value@); assert(ktx(header_keys@) =~= kxs(hs, toml_version).take(j - 1)); } }",
                end="proof { if e5 { let ks = kxs(hs, toml_version); let v = if fl { G::Arr(ArrayKind::ParentArrayOfTable, seq![old_tab]) } else { old_tab }; assert(gt(table) =~= seq![(ks[j - 1], v)]); assert(tab(table) == G::Tab(TableKind::ParentTable, seq![(ks[j - 1], v)])); assert(par(hs, pv, toml_version, ks.take(j - 1)) == inl(array_of_table_keys@, ks.take(j - 1))); } }")]
    return Fn(file, CNV % name, header=f"impl A{name}", attrs=RECURSIVE, entry=BC.replace("}", ", lemma_par_b}"), rewrites=ERRS + [("insert_array_of_tables($$a, $$b, Array::new_parent_array_of_tables)", "insert_array_of_tables($$a, $$b, true)"), ("while let Some($k) = $a.pop() { $$b }", "while let Some(vx_k) = $a.pop() { let $k = vx_k; $$b }"), ("insert_array_of_tables($$a, $$b, Array::new_array_of_tables)", "insert_array_of_tables($$a, $$b, false)")], loops=dict(enumerate(pre)), **extra,
              ensures=f"(r.errors@.len() == 0) == {HEADE}, r.errors@.len() == 0 ==> tab(r.tree) == gsec(ASec::{name}(self), toml_version), wfe(gt(r.tree)), !(r.tree.kind is Root)")


CONV += [
    Fn(TB, "Table::insert", **I, rewrites=[("mut self,", "self,"), ("self.key_values.entry(key)", "vx_self.key_values.entry(key)"), ("Ok(self)", "Ok(vx_self)")], entry="let mut vx_self = self; " + BC, requires="wfe(gt(self)), wf(gv(value)), gt(self).len() == 0",
       ensures="r is Ok, r->Ok_0.kind == self.kind, gt(r->Ok_0) == seq![(key.value@, gv(value))]", ghost=[("before", "if errors.is_empty() { Ok(vx_self) }", "proof { assert(gt(vx_self) =~= seq![(key.value@, gv(value))]); }")]),
    Fn(TB, "fn insert_table", entry=BC, requires="wfe(gt(*old(table))), !(old(table).kind is Root)", ensures="r is Ok, final(table).kind is ParentTable, gt(*final(table)) == seq![(key.value@, tab(*old(table)))], wfe(gt(*final(table)))", tail="proof { assert(wf(tab(*old(table)))); }"),
    Fn(TB, "fn insert_array_of_tables", entry=BC, rewrites=[("new_array_of_tables_fn: impl Fn(&Table) -> Array", "parent: bool"), ("new_array_of_tables_fn(table)", "(if parent { Array::new_parent_array_of_tables(table) } else { Array::new_array_of_tables(table) })")],
       requires="wfe(gt(*old(table))), !(old(table).kind is Root)", ensures="r is Ok, final(table).kind is ParentTable, gt(*final(table)) == seq![(key.value@, G::Arr(if parent { ArrayKind::ParentArrayOfTable } else { ArrayKind::ArrayOfTable }, seq![tab(*old(table))]))], wfe(gt(*final(table)))",
       ghost=[("before", "match table", "proof { assert(gs(array.values@) =~= seq![tab(*old(table))]); assert(wf(tab(*old(table)))); assert(wf(gs(array.values@)[0])); }")]),
]

def one_closure(text):
    """get_array_of_tables_keys: the closure of filter_map as a function of its own"""
    m = re.search(r"\.filter_map\(\s*\|keys\|\s*\{", text)
    if not m:
        raise Lost("get_array_of_tables_keys: no `.filter_map(|keys| { .. })`")
    i = m.end(); d = 1
    while d:
        d += {"{": 1, "}": -1}.get(text[i], 0); i += 1
    return text, text[m.end():i - 1], (m.start(), i + 1)


def closure_fn(text):
    t, body, _ = one_closure(text)
    return "fn vx_keys_of(keys: Vs<AKey>, toml_version: TomlVersion, errors: &mut Vec<Error>) -> Option<Vec<Key>> {" + body + "}"


def loop_fn(text):
    t, body, (a, b) = one_closure(text)
    i = t.index("{"); m = re.match(r"\s*keys_iter\s*$", t[i + 1:a]); n = re.match(r"\s*\.unique\(\)\s*\.collect_vec\(\)\s*\}\s*$", t[b:])
    if not (m and n):
        raise Lost("get_array_of_tables_keys: not `keys_iter.filter_map(..).unique().collect_vec()`")
    return t[:i] + "{ let mut vx_out: Vec<Vec<Key>> = Vec::new(); for keys in keys_iter { vx_push_unique(&mut vx_out, vx_keys_of(keys, toml_version, errors)); } vx_out }"


CONV += [
    Fn(ASN + "support/node.rs", "fn parent_array_of_tables_keys", ghost=[("before", "continue", "proof { lemma_par_step(hd, vx_v@, ps, parents@, n); }")], entry="let ghost hh = header;", rewrites=[("crate::Keys", "AKeys"), ("impl Iterator<Item = crate::ArrayOfTable>", "Vs<APrev>"), ("impl Iterator<Item = AstChildren<crate::Key>>", "Vs<Vs<AKey>>"), ("let mut parents = Vec::new();", "let mut parents: Vec<Vs<AKey>> = Vec::new();"),
       ("$a.header().map(|$h| $h.keys())", "vx_keys($a.header())"), ("header_keys.starts_with(&keys)", "vx_starts_with(&header_keys, &keys)"), ("parents.into_iter()", "vx_vs(parents)")],
       ensures="header is Some ==> par_list((header->0).ks, prev_array_of_tables@, r@, prev_array_of_tables@.len() as int)",
       loops={0: Loop("while", invariant="""vx_i <= vx_v@.len(), hh is Some, header_keys@ == (hh->0).ks, vx_v@ == prev_array_of_tables@, par_list(header_keys@, vx_v@, parents@, vx_i as int),
            forall|j: int| 0 <= j < vx_i && #[trigger] cand(header_keys@, vx_v@, j) ==> parent_depth <= vx_v@[j].header->0.ks.len(), parent_depth == usize::MAX || exists|j: int| 0 <= j < vx_i && #[trigger] cand(header_keys@, vx_v@, j) && parent_depth == vx_v@[j].header->0.ks.len()""",
            ensures="vx_i == vx_v@.len()", decreases=DEC, start="let ghost n = vx_i as int; let ghost ps = parents@; let ghost hd = header_keys@;",
            end="""proof { assert(cand(hd, vx_v@, n) == (vx_v@[n].header is Some && starts(hd, vx_v@[n].header->0.ks))); lemma_par_step(hd, vx_v@, ps, parents@, n); }""")}),
    Fn(ASN + "impls/table.rs", "Table::parent_array_of_tables_keys", header="impl ATable", rewrites=[("impl Iterator<Item = AstChildren<crate::Key>> + '_", "Vs<Vs<AKey>>"), ("support::node::parent_array_of_tables_keys", "parent_array_of_tables_keys")],
       ensures="self.header is Some ==> par_list((self.header->0).ks, self.prev, r@, self.prev.len() as int)"),
    Fn(ASN + "impls/array_of_table.rs", "ArrayOfTable::parrent_array_of_tables_keys", header="impl AArrayOfTable", rewrites=[("impl Iterator<Item = AstChildren<crate::Key>> + '_", "Vs<Vs<AKey>>"), ("support::node::parent_array_of_tables_keys", "parent_array_of_tables_keys")],
       ensures="self.header is Some ==> par_list((self.header->0).ks, self.prev, r@, self.prev.len() as int)"),
    Fn(TB, "fn get_array_of_tables_keys", pre=closure_fn, rename="vx_keys_of", rewrites=[("let mut new_keys = vec![];", "let mut new_keys: Vec<Key> = Vec::new();"), ("errors.extend($$e)", "vx_extend(errors, $$e)")],
       ensures="r is Some == keys_ok(keys@, toml_version, keys@.len() as int), r is Some ==> final(errors)@ == old(errors)@ && ktx((r->0)@) == kxs(keys@, toml_version), r is None ==> final(errors)@.len() > 0",
       loops={0: Loop("while", invariant="vx_i <= vx_v@.len(), vx_v@ == keys@, new_keys@.len() == vx_i, keys_ok(keys@, toml_version, vx_i as int), errors@ == old(errors)@, forall|i: int| 0 <= i < vx_i ==> (#[trigger] new_keys@[i]).value@ == kx(keys@[i], toml_version)", ensures="vx_i == vx_v@.len()", decreases=DEC,
                     after="proof { assert(ktx(new_keys@) =~= kxs(keys@, toml_version)); }")}),
    Fn(TB, "fn get_array_of_tables_keys", pre=loop_fn, rewrites=[("impl Iterator<Item = AstChildren<tombi_ast::Key>>", "Vs<Vs<AKey>>")],
       ensures="(final(errors)@.len() == 0) == (old(errors)@.len() == 0 && klists_ok(keys_iter@, toml_version, keys_iter@.len() as int)), final(errors)@.len() == 0 ==> forall|x: Seq<Seq<char>>| inl(r@, x) == klisted(keys_iter@, toml_version, x, keys_iter@.len() as int)",
       loops={0: Loop("while", invariant="vx_i <= vx_v@.len(), vx_v@ == keys_iter@, (errors@.len() == 0) == (old(errors)@.len() == 0 && klists_ok(keys_iter@, toml_version, vx_i as int)), errors@.len() == 0 ==> forall|x: Seq<Seq<char>>| inl(vx_out@, x) == klisted(keys_iter@, toml_version, x, vx_i as int)",
                      ensures="vx_i == vx_v@.len()", decreases=DEC, start="let ghost o0 = vx_out@; let ghost n = vx_i + 1;",
                      end="""proof { if errors@.len() == 0 { assert forall|x: Seq<Seq<char>>| inl(vx_out@, x) == klisted(keys_iter@, toml_version, x, n) by {
                if klist(keys_iter@, toml_version, x, n - 1) { assert(inl(vx_out@, x)) by { if vx_out@.len() > o0.len() { assert(kin(vx_out@, x, o0.len() as int)); } } }
                if inl(o0, x) { let j = choose|j: int| kin(o0, x, j); assert(kin(vx_out@, x, j)); let i = choose|i: int| i < n - 1 && #[trigger] klist(keys_iter@, toml_version, x, i); assert(klist(keys_iter@, toml_version, x, i)); }
                if klisted(keys_iter@, toml_version, x, n) { let i = choose|i: int| i < n && #[trigger] klist(keys_iter@, toml_version, x, i); if i < n - 1 { assert(klist(keys_iter@, toml_version, x, i)); assert(inl(o0, x)); } else { } }
                if inl(vx_out@, x) && !inl(o0, x) { let j = choose|j: int| kin(vx_out@, x, j); if j < o0.len() { assert(kin(o0, x, j)); } else { assert(klist(keys_iter@, toml_version, x, n - 1)); } }
            } } }""")}),
]

EXTD = [("$x.extend(header_comment_directives.iter().cloned())", "vx_ext(&mut $x, vx_clone(header_comment_directives))")]
DIRS = [("if let Some($x) = $a.$b.as_mut() { $$c } else { $$d }", "vx_touch(&mut $a.$b);")]
VT = "header='impl Value'"
PLAIN = lambda n: [Loop("while", invariant="vx_i <= vx_v@.len()", decreases=DEC)] * n
CONV += [
    Fn(D + "value.rs", "Value::set_comment_directives", header="impl Value", entry="proof { vx_gv(*self); }", tail="proof { vx_gv(*self); }", ensures="gv(*final(self)) == gv(*old(self))"),
    Fn(D + "value.rs", "Value::extend_comment_directives", header="impl Value", entry="proof { vx_gv(*self); }", rewrites=[("if let Some(value_comment_directives) = value_comment_directives { $$a } else { $$b }", "vx_touch(value_comment_directives);")], ensures="gv(*final(self)) == gv(*old(self))"),
    Fn(TB, "fn append_header_comment_directives", attrs=RECURSIVE, entry=BC, rewrites=DIRS + [("mut keys: impl Iterator<Item = tombi_ast::Key>", "vx_keys0: KeyIter"), ("let Some(ast_key) = keys.next()", "let mut keys = vx_keys0; let Some(ast_key) = keys.next()"),
        ("let Some((mut key, value)) = temp_key_values.into_iter().next() else $$b;", "let Some((vx_k0, value)) = vx_first(temp_key_values) else $$b; let mut key = vx_k0;"), ("key == ast_key", "vx_key_eq(&key, &ast_key)"), ("if let Value::Table(mut nested_table) = value {", "if let Value::Table(vx_t) = value { let mut nested_table = vx_t;")],
       requires="chain(tab(*old(table)), vx_keys0.left())", ensures="tab(*final(table)) == tab(*old(table))"),
    Fn(TB, CNV % "KeyValue", header="impl AKeyValue", attrs=RECURSIVE, entry=BC, rewrites=ERRS + KVR,
       ensures="""(r.errors@.len() == 0) == kv_ok(self, toml_version), r.errors@.len() == 0 ==> tab(r.tree) == gkv(self, toml_version), wfe(gt(r.tree)), r.tree.kind is KeyValue || r.tree.kind is ParentKey,
            self.ks is Some ==> chain(tab(r.tree), (self.ks->0).ks.len())""",
       loops={0: coml(), 1: Loop("while let", before="let ghost e4 = errors@.len() == 0; let ghost ks = self.ks->0.ks; let ghost vv = gval(self.val->0, toml_version); proof { assert(chain(gt(table)[0].1, 0)); assert(kxs(ks, toml_version).len() == ks.len()); }",
            invariant="""(errors@.len() == 0) == e4, wfe(gt(table)), table.kind is KeyValue || table.kind is ParentKey, vx_ks@.len() < ks.len(), chain(tab(table), (ks.len() - vx_ks@.len()) as nat),
                e4 ==> ktx(vx_ks@) == kxs(ks, toml_version).take(vx_ks@.len() as int) && tab(table) == nest_kv(kxs(ks, toml_version), vx_ks@.len() as int, vv)""", ensures="vx_ks@.len() == 0", decreases="vx_ks@.len()",
            start=BC + "let ghost j = vx_ks@.len() as int; let ghost tb = tab(table); proof { if e4 { let q = ktx(vx_ks@.push(vx_k)); assert(q =~= kxs(ks, toml_version).take(j + 1)); assert(q[j] == vx_k.value@); assert(ktx(vx_ks@) =~= kxs(ks, toml_version).take(j)); } }", end="proof { assert(gt(table).len() == 1); assert(gt(table)[0].1 == tb); assert(wf(tb)); if e4 { assert(gt(table) =~= seq![(kxs(ks, toml_version)[j], tb)]); } }")}),
    section(TB, "Table", {}),
]

CHAIN2 = ("if let Some($x) = $$e && let Some($y) = $$f { $$b }", "if let Some($x) = $$e { if let Some($y) = $$f { $$b } }")
VALR = "(r.errors@.len() == 0) == val_ok(AValue::%s(self), toml_version), r.errors@.len() == 0 ==> gv(r.tree) == gval(AValue::%s(self), toml_version), wf(gv(r.tree))"
CONV += [
    section(TB, "ArrayOfTable", {}),
    Fn(D + "value.rs", CNV % "Value", header="impl AValue", attrs=RECURSIVE, entry=BC, rewrites=ERRS + [CHAIN2, ("let mut comment_directives = vec![];", "let mut comment_directives: Vec<TombiValueCommentDirective> = Vec::new();")], loops=dict(enumerate(PLAIN(1))),
       ensures="(r.errors@.len() == 0) == val_ok(self, toml_version), r.errors@.len() == 0 ==> gv(r.tree) == gval(self, toml_version), wf(gv(r.tree))"),
    Fn(AR, CNV % "Array", header="impl AArray", attrs=RECURSIVE, entry=BC, rewrites=ERRS + [("let $v = $x.$m().filter_map(|$g| match $h { $$b }).flatten().collect_vec();", "let mut vx_acc: Vec<(AVoK, Option<AComma>)> = Vec::new(); for $g in $x.$m() { let vx_o = match $h { $$b }; vx_append(&mut vx_acc, vx_o); } let $v = vx_vs(vx_acc);"), (".collect_vec()", "")],
       ensures=VALR % ("Array", "Array"),
       loops=dict(enumerate([coml(), *grpl(), Loop("while", invariant="vx_i <= vx_v@.len(), vx_acc@ == flat(vx_v@, vx_i as int)", ensures="vx_i == vx_v@.len()", decreases=DEC), *PLAIN(1),
            Loop("while", before="let ghost e5 = errors@.len() == 0;", invariant="vx_i <= vx_v@.len(), vx_v@ == self.items, array.kind is Array, forall|i: int| 0 <= i < array.values@.len() ==> wf(#[trigger] gs(array.values@)[i]), (errors@.len() == 0) == (e5 && items_ok(self.items, vx_i as int, toml_version)), errors@.len() == 0 ==> gs(array.values@) == gitems(self.items, vx_i as int, toml_version)",
                 ensures="vx_i == vx_v@.len()", decreases=DEC, start=BC + "let ghost a0 = array.values@; let ghost kn = vx_i + 1;", end="proof { assert(gs(array.values@) =~= gs(a0).push(gv(array.values@.last()))); assert forall|i: int| 0 <= i < array.values@.len() implies wf(#[trigger] gs(array.values@)[i]) by { if i < a0.len() { assert(wf(gs(a0)[i])); } } if errors@.len() == 0 { assert(gv(array.values@.last()) == gitem(self.items[kn - 1].0, toml_version)); assert(items_ok(self.items, kn, toml_version)); } }"),
            coml(), coml()]))),
    Fn(TB, CNV % "InlineTable", header="impl AInlineTable", attrs=RECURSIVE, entry=BC, rewrites=ERRS + [("$a.keys().map(|$h| $h.keys())", "vx_keys($a.keys())"), ("keys.into_iter()", "vx_key_iter(keys)")], ensures=VALR % ("InlineTable", "InlineTable"),
       loops=dict(enumerate([coml(), *grpl(), groups("TableKind::Table", "true", 0, items="item_group")[0], *PLAIN(1), groups("TableKind::Table", "true", 0, items="item_group")[1], coml()]))),
    Fn(TB, CNV % "TableOrArrayOfTable", header="impl ASec", attrs=RECURSIVE, ensures="(r.errors@.len() == 0) == sec_ok(self, toml_version), r.errors@.len() == 0 ==> tab(r.tree) == gsec(self, toml_version), wfe(gt(r.tree)), !(r.tree.kind is Root)"),
    Fn(RT, CNV % "Root", header="impl ARoot", entry=BC, rewrites=ERRS, ensures="(r.errors@.len() == 0) == doc_ok(self, self.secs.len() as int, toml_version), r.errors@.len() == 0 ==> tab(r.tree.0) == G::Tab(TableKind::Root, gdoc(self, self.secs.len() as int, toml_version)), wfe(gt(r.tree.0)), r.errors@.len() == 0 ==> forall|i: int| 0 <= i < self.secs.len() ==> sub(gsec(#[trigger] self.secs[i], toml_version), tab(r.tree.0))",
       ghost=[("before", "DocumentTreeAndErrors { tree, errors }", "proof { if errors@.len() == 0 { lemma_doc(self, self.secs.len() as int, toml_version); } }")],
       loops=dict(enumerate([*grpl(), *groups("TableKind::Root", "false", 0, tab="tree.0"), *PLAIN(1),
            Loop("while", invariant="vx_i <= vx_v@.len(), vx_v@ == self.secs, wfe(gt(tree.0)), (errors@.len() == 0) == doc_ok(self, vx_i as int, toml_version), errors@.len() == 0 ==> tree.0.kind is Root && gt(tree.0) == gdoc(self, vx_i as int, toml_version)", ensures="vx_i == vx_v@.len()", decreases=DEC, start=BC)]))),
]

SUB = r"""
// ---------------------------------------------------------------- nothing is lost, nothing is overwritten
/// everything `x` says is in `y`: under the same keys, in the same order within arrays
pub open spec fn sub(x: G, y: G) -> bool decreases x {
    match (x, y) {
        (G::Tab(_, a), G::Tab(_, b)) => forall|i: int| 0 <= i < a.len() ==> keyed(b, (#[trigger] a[i]).0) && sub(a[i].1, b[idx(b, a[i].0)].1),
        (G::Arr(_, a), G::Arr(_, b)) => exists|o: int| #[trigger] fits(a, b, o) && forall|i: int| 0 <= i < a.len() ==> sub(#[trigger] a[i], b[o + i]),
        _ => x == y,
    }
}
pub open spec fn fits(a: Seq<G>, b: Seq<G>, o: int) -> bool { 0 <= o && o + a.len() <= b.len() }
pub open spec fn sub_at(a: Es, b: Es, i: int) -> bool { 0 <= i < a.len() && keyed(b, a[i].0) && sub(a[i].1, b[idx(b, a[i].0)].1) }
pub open spec fn sub_off(a: Seq<G>, b: Seq<G>, o: int) -> bool { fits(a, b, o) && forall|i: int| 0 <= i < a.len() ==> sub(#[trigger] a[i], b[o + i]) }
/// an array of tables that a header only passes through has one element there
pub open spec fn one(x: G) -> bool decreases x {
    match x {
        G::Tab(_, a) => forall|i: int| 0 <= i < a.len() ==> one((#[trigger] a[i]).1),
        G::Arr(k, a) => (k is ParentArrayOfTable ==> a.len() == 1) && forall|i: int| 0 <= i < a.len() ==> one(#[trigger] a[i]),
        _ => true,
    }
}
/// no array of tables at all
pub open spec fn np(x: G) -> bool decreases x {
    match x {
        G::Tab(_, a) => forall|i: int| 0 <= i < a.len() ==> np((#[trigger] a[i]).1),
        G::Arr(k, a) => k is Array && forall|i: int| 0 <= i < a.len() ==> np(#[trigger] a[i]),
        _ => true,
    }
}
pub open spec fn npe(a: Es) -> bool { forall|i: int| 0 <= i < a.len() ==> np((#[trigger] a[i]).1) }
pub open spec fn onee(a: Es) -> bool { forall|i: int| 0 <= i < a.len() ==> one((#[trigger] a[i]).1) }
pub proof fn lemma_np_one(x: G)
    requires np(x), ensures one(x), decreases x,
{
    match x {
        G::Tab(_, a) => { assert forall|i: int| 0 <= i < a.len() implies one((#[trigger] a[i]).1) by { lemma_np_one(a[i].1); } }
        G::Arr(_, a) => { assert forall|i: int| 0 <= i < a.len() implies one(#[trigger] a[i]) by { lemma_np_one(a[i]); } }
        _ => {}
    }
}
pub proof fn lemma_refl(x: G)
    requires wf(x), ensures sub(x, x), decreases x,
{
    match x {
        G::Tab(_, a) => { assert forall|i: int| 0 <= i < a.len() implies keyed(a, (#[trigger] a[i]).0) && sub(a[i].1, a[idx(a, a[i].0)].1) by { lemma_refl(a[i].1); assert(at(a, a[i].0, i)); lemma_idx(a, a[i].0, i); } }
        G::Arr(_, a) => { assert forall|i: int| 0 <= i < a.len() implies sub(#[trigger] a[i], a[0 + i]) by { lemma_refl(a[i]); } assert(fits(a, a, 0)); }
        _ => {}
    }
}
pub proof fn lemma_trans(x: G, y: G, z: G)
    requires sub(x, y), sub(y, z), ensures sub(x, z), decreases x,
{
    match (x, y, z) {
        (G::Tab(_, a), G::Tab(_, b), G::Tab(_, c)) => { assert forall|i: int| 0 <= i < a.len() implies keyed(c, (#[trigger] a[i]).0) && sub(a[i].1, c[idx(c, a[i].0)].1) by {
            let j = idx(b, a[i].0); assert(at(b, a[i].0, j)); assert(b[j].0 == a[i].0); lemma_trans(a[i].1, b[j].1, c[idx(c, a[i].0)].1);
        } }
        (G::Arr(_, a), G::Arr(_, b), G::Arr(_, c)) => {
            let o = choose|o: int| #[trigger] fits(a, b, o) && sub_off(a, b, o); let q = choose|q: int| #[trigger] fits(b, c, q) && sub_off(b, c, q);
            assert forall|i: int| 0 <= i < a.len() implies sub(#[trigger] a[i], c[o + q + i]) by { assert(sub(a[i], b[o + i])); assert(sub(b[o + i], c[q + (o + i)])); lemma_trans(a[i], b[o + i], c[q + (o + i)]); }
            assert(fits(a, c, o + q));
        }
        _ => {}
    }
}
/// what is merged is there afterwards, and so is what was there before
pub proof fn lemma_vun(x: G, y: G)
    requires vok(x, y), wf(x), wf(y), one(y),
    ensures wf(vun(x, y)), sub(x, vun(x, y)), sub(y, vun(x, y)),
    decreases y, 0int,
{
    match (x, y) {
        (G::Tab(k1, a), G::Tab(k2, b)) => { lemma_un(a, b, b.len() as int); lemma_un_sub(a, b, k1, k2, kun(k1, k2)); }
        (G::Arr(k1, a), G::Arr(k2, b)) => {
            let c = amu(a, k2, b);
            if joins(a, k2, b) {
                let l = a.len() - 1; let m = c[l]; let e = a.last()->Tab_1; let f = b[b.len() - 1]->Tab_1;
                assert(wf(a[l])); assert(wf(b[0])); assert(one(b[0]));
                lemma_un(e, f, f.len() as int); lemma_un_sub(e, f, a.last()->Tab_0, b[0]->Tab_0, m->Tab_0);
                assert(sub(a[l], m)); assert(sub(b[0], m));
                assert forall|i: int| 0 <= i < a.len() implies sub(#[trigger] a[i], c[0 + i]) by { assert(wf(a[i])); if i < l { lemma_refl(a[i]); } }
                assert(sub_off(a, c, 0)); assert(sub_off(b, c, l));
                assert forall|i: int| 0 <= i < c.len() implies wf(#[trigger] c[i]) by { if i < l { assert(wf(a[i])); } }
            } else {
                assert forall|i: int| 0 <= i < a.len() implies sub(#[trigger] a[i], c[0 + i]) by { assert(wf(a[i])); lemma_refl(a[i]); }
                assert(sub_off(a, c, 0));
                assert forall|i: int| 0 <= i < b.len() implies sub(#[trigger] b[i], c[a.len() + i]) by { assert(wf(b[i])); lemma_refl(b[i]); }
                assert(sub_off(b, c, a.len() as int));
                assert forall|i: int| 0 <= i < c.len() implies wf(#[trigger] c[i]) && (aot(k1) ==> c[i] is Tab) by { if i < a.len() { assert(wf(a[i])); } else { assert(wf(b[i - a.len()])); } }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_un_sub(a: Es, b: Es, k: TableKind, m: TableKind, l: TableKind)
    requires ({ let q = un(a, b, b.len() as int); wfe(q) && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] q[i]).0 == a[i].0 && sub(a[i].1, q[i].1)) && q.len() >= a.len() && forall|j: int| 0 <= j < b.len() ==> #[trigger] sub_at(b, q, j) }),
    ensures sub(G::Tab(k, a), G::Tab(l, un(a, b, b.len() as int))), sub(G::Tab(m, b), G::Tab(l, un(a, b, b.len() as int))),
{
    let q = un(a, b, b.len() as int);
    assert forall|i: int| 0 <= i < a.len() implies keyed(q, (#[trigger] a[i]).0) && sub(a[i].1, q[idx(q, a[i].0)].1) by { assert(q[i].0 == a[i].0); assert(at(q, a[i].0, i)); lemma_idx(q, a[i].0, i); }
    assert forall|i: int| 0 <= i < b.len() implies keyed(q, (#[trigger] b[i]).0) && sub(b[i].1, q[idx(q, b[i].0)].1) by { assert(sub_at(b, q, i)); }
}
pub proof fn lemma_un(a: Es, b: Es, n: int)
    requires okn(a, b, n), wfe(a), wfe(b), onee(b), 0 <= n <= b.len(),
    ensures ({ let q = un(a, b, n); wfe(q) && q.len() >= a.len() && (forall|i: int| 0 <= i < a.len() ==> (#[trigger] q[i]).0 == a[i].0 && sub(a[i].1, q[i].1)) && forall|j: int| 0 <= j < n ==> #[trigger] sub_at(b, q, j) }),
    decreases b, n,
{
    lemma_un_keys(a, b, n);
    let q = un(a, b, n);
    if n > 0 {
        lemma_un(a, b, n - 1);
        lemma_un_keys(a, b, n - 1);
        let p = un(a, b, n - 1); let k = b[n - 1].0; let y = b[n - 1].1;
        assert(wf(y) && one(y));
        if keyed(p, k) {
            let z = idx(p, k); assert(at(p, k, z)); assert(wf(p[z].1));
            lemma_vun(p[z].1, y);
            assert(at(q, k, z)); lemma_idx(q, k, z); assert(sub_at(b, q, n - 1));
        } else { assert(at(q, k, p.len() as int)); lemma_idx(q, k, p.len() as int); lemma_refl(y); assert(sub_at(b, q, n - 1)); }
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] q[i]).0 == p[i].0 && sub(p[i].1, q[i].1) && wf(q[i].1) by { assert(wf(p[i].1)); if keyed(p, k) && i == idx(p, k) {} else { lemma_refl(p[i].1); } }
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] q[i]).0 == a[i].0 && sub(a[i].1, q[i].1) by { assert(p[i].0 == a[i].0); lemma_trans(a[i].1, p[i].1, q[i].1); }
        assert forall|j: int| 0 <= j < n implies #[trigger] sub_at(b, q, j) by {
            if j < n - 1 { assert(sub_at(b, p, j)); let i = idx(p, b[j].0); assert(at(p, b[j].0, i)); assert(q[i].0 == p[i].0); lemma_trans(b[j].1, p[i].1, q[i].1); assert(at(q, b[j].0, i)); lemma_idx(q, b[j].0, i); }
        }
        assert forall|i: int| 0 <= i < q.len() implies wf((#[trigger] q[i]).1) by { if i < p.len() { assert(q[i].0 == p[i].0); } }
    } else { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] q[i]).0 == a[i].0 && sub(a[i].1, q[i].1) by { assert(wf(a[i].1)); lemma_refl(a[i].1); } }
}
/// the value under the keys ks[j..]: the way there leads through tables only
pub open spec fn under(a: Es, ks: Seq<Seq<char>>, j: int) -> Option<G> decreases ks.len() - j {
    if !(0 <= j < ks.len()) || !keyed(a, ks[j]) { None } else if j == ks.len() - 1 { Some(a[idx(a, ks[j])].1) } else { match a[idx(a, ks[j])].1 { G::Tab(_, b) => under(b, ks, j + 1), _ => None } }
}
/// two definitions of the same path: they can be merged, or the document is rejected
pub proof fn lemma_twice(a: Es, b: Es, ks: Seq<Seq<char>>, j: int)
    requires wfe(a), wfe(b), under(a, ks, j) is Some, under(b, ks, j) is Some, okn(a, b, b.len() as int),
    ensures vok(under(a, ks, j)->0, under(b, ks, j)->0),
    decreases ks.len() - j,
{
    let i = idx(a, ks[j]); let k = idx(b, ks[j]);
    assert(at(a, ks[j], i)); assert(at(b, ks[j], k)); assert(wf(a[i].1)); assert(wf(b[k].1));
    lemma_okn_point(a, b, b.len() as int, i, k);
    if j < ks.len() - 1 { lemma_twice(a[i].1->Tab_1, b[k].1->Tab_1, ks, j + 1); }
}
/// ... so no value, no array and no inline table is ever extended or replaced, and no [table] is opened twice
pub proof fn lemma_closed(x: G, y: G)
    ensures
        x is Leaf || y is Leaf || x is Gone || y is Gone ==> !vok(x, y),
        x is Arr && x->Arr_0 is Array || y is Arr && y->Arr_0 is Array ==> !vok(x, y),
        x is Tab && x->Tab_0 is InlineTable && !(y is Tab && y->Tab_0 is Root) || y is Tab && y->Tab_0 is InlineTable && !(x is Tab && x->Tab_0 is Root) ==> !vok(x, y),
        x is Tab && x->Tab_0 is Table && y is Tab && y->Tab_0 is Table ==> !vok(x, y),
        x is Tab != y is Tab ==> !vok(x, y),
{}
"""

DOC = r"""
pub proof fn lemma_np_vun(x: G, y: G)
    requires np(x), np(y), ensures np(vun(x, y)), decreases y, 0int,
{
    match (x, y) {
        (G::Tab(_, a), G::Tab(_, b)) => { lemma_np_un(a, b, b.len() as int); }
        (G::Arr(_, a), G::Arr(k2, b)) => { let c = amu(a, k2, b); assert forall|i: int| 0 <= i < c.len() implies np(#[trigger] c[i]) by { if i < a.len() { assert(np(a[i])); } else { assert(np(b[i - a.len()])); } } }
        _ => {}
    }
}
pub proof fn lemma_np_un(a: Es, b: Es, n: int)
    requires npe(a), npe(b), ensures npe(un(a, b, n)), decreases b, n,
{
    if 0 < n <= b.len() {
        lemma_np_un(a, b, n - 1);
        let p = un(a, b, n - 1);
        assert(np(b[n - 1].1));
        if keyed(p, b[n - 1].0) { let z = idx(p, b[n - 1].0); assert(at(p, b[n - 1].0, z)); assert(np(p[z].1)); lemma_np_vun(p[z].1, b[n - 1].1); }
    }
}
pub proof fn lemma_np_onee(a: Es)
    requires npe(a), ensures onee(a),
{ assert forall|i: int| 0 <= i < a.len() implies one((#[trigger] a[i]).1) by { lemma_np_one(a[i].1); } }
/// a value or key-value that is accepted is a proper tree without arrays of tables
pub proof fn lemma_val(v: AValue, t: TomlVersion)
    requires val_ok(v, t), ensures wf(gval(v, t)), np(gval(v, t)), decreases v,
{
    match v {
        AValue::Array(a) => { lemma_items(a.items, a.items.len() as int, t); assert(gval(v, t) == G::Arr(ArrayKind::Array, gitems(a.items, a.items.len() as int, t))); }
        AValue::InlineTable(x) => { lemma_fg(TableKind::Table, Seq::empty(), x.groups, x.groups.len() as int, t, true); assert(gval(v, t) == G::Tab(TableKind::InlineTable { has_comment: itc(x) }, fg(Seq::empty(), x.groups, x.groups.len() as int, t))); }
        _ => {}
    }
}
pub proof fn lemma_items(s: Seq<(AVoK, Option<AComma>)>, n: int, t: TomlVersion)
    requires items_ok(s, n, t), ensures forall|i: int| 0 <= i < gitems(s, n, t).len() ==> wf(#[trigger] gitems(s, n, t)[i]) && np(gitems(s, n, t)[i]), decreases s, n,
{
    if 0 < n <= s.len() {
        lemma_items(s, n - 1, t);
        match s[n - 1].0 { AVoK::Value(v) => { lemma_val(v, t); assert(gitem(s[n - 1].0, t) == gval(v, t)); }, AVoK::KeyValue(k) => { lemma_kv(k, t); assert(gitem(s[n - 1].0, t) == gkv(k, t)); } }
        let g = gitems(s, n - 1, t); let h = gitems(s, n, t);
        assert(h == g.push(gitem(s[n - 1].0, t)));
        assert forall|i: int| 0 <= i < h.len() implies wf(#[trigger] h[i]) && np(h[i]) by { if i < g.len() { assert(h[i] == g[i]); } }
    }
}
pub proof fn lemma_nest(ks: Seq<Seq<char>>, j: int, v: G)
    requires wf(v), np(v), ensures wf(nest_kv(ks, j, v)), np(nest_kv(ks, j, v)), nest_kv(ks, j, v) is Tab, decreases ks.len() - j,
{ if j < ks.len() - 1 { lemma_nest(ks, j + 1, v); } }
pub proof fn lemma_kv(k: AKeyValue, t: TomlVersion)
    requires kv_ok(k, t), ensures wf(gkv(k, t)), np(gkv(k, t)), gkv(k, t) is Tab, decreases k,
{ lemma_val(k.val->0, t); lemma_nest(kxs(k.ks->0.ks, t), 0, gval(k.val->0, t)); }
/// every key-value is in the table it is added to, and what was there stays
pub proof fn lemma_fk(kind: TableKind, base: Es, s: Seq<(AKeyValue, Option<AComma>)>, n: int, t: TomlVersion, c: bool)
    requires okk(kind, base, s, n, t, c), wfe(base), npe(base), 0 <= n <= s.len(),
    ensures wfe(fk(base, s, n, t)), npe(fk(base, s, n, t)),
    decreases s, n,
{
    if n > 0 {
        lemma_fk(kind, base, s, n - 1, t, c);
        let p = fk(base, s, n - 1, t); let b = ents(gkv(s[n - 1].0, t));
        lemma_kv(s[n - 1].0, t); lemma_np_onee(b); lemma_un(p, b, b.len() as int); lemma_np_un(p, b, b.len() as int);
    }
}
pub proof fn lemma_fg(kind: TableKind, base: Es, g: Seq<Or<AKvGroup>>, n: int, t: TomlVersion, c: bool)
    requires okg(kind, base, g, n, t, c), wfe(base), npe(base), 0 <= n <= g.len(),
    ensures wfe(fg(base, g, n, t)), npe(fg(base, g, n, t)),
    decreases g, n,
{
    if n > 0 {
        lemma_fg(kind, base, g, n - 1, t, c);
        match g[n - 1] { Or::ItemGroup(x) => { lemma_fk(kind, fg(base, g, n - 1, t), x.items, x.items.len() as int, t, c); }, _ => {} }
    }
}
pub open spec fn tb(a: Es) -> G { G::Tab(TableKind::Root, a) }
pub proof fn lemma_step(p: Es, x: G)
    requires wfe(p), wf(x), one(x), x is Tab, okn(p, ents(x), ents(x).len() as int),
    ensures wfe(un_(p, x)), sub(tb(p), tb(un_(p, x))), sub(x, tb(un_(p, x))),
{ lemma_un(p, ents(x), ents(x).len() as int); lemma_un_sub(p, ents(x), TableKind::Root, x->Tab_0, TableKind::Root); }
pub proof fn lemma_fk_sub(kind: TableKind, base: Es, s: Seq<(AKeyValue, Option<AComma>)>, n: int, t: TomlVersion, c: bool)
    requires okk(kind, base, s, n, t, c), wfe(base), npe(base), 0 <= n <= s.len(),
    ensures sub(tb(base), tb(fk(base, s, n, t))), forall|i: int| 0 <= i < n ==> sub(gkv((#[trigger] s[i]).0, t), tb(fk(base, s, n, t))),
    decreases n,
{
    if n > 0 {
        lemma_fk_sub(kind, base, s, n - 1, t, c); lemma_fk(kind, base, s, n - 1, t, c);
        let p = fk(base, s, n - 1, t); let x = gkv(s[n - 1].0, t);
        lemma_kv(s[n - 1].0, t); lemma_np_one(x); lemma_step(p, x);
        lemma_trans(tb(base), tb(p), tb(fk(base, s, n, t)));
        assert forall|i: int| 0 <= i < n implies sub(gkv((#[trigger] s[i]).0, t), tb(fk(base, s, n, t))) by { if i < n - 1 { lemma_trans(gkv(s[i].0, t), tb(p), tb(fk(base, s, n, t))); } }
    } else { lemma_wfe_refl(base); }
}
pub proof fn lemma_wfe_refl(a: Es)
    requires wfe(a), ensures sub(tb(a), tb(a)),
{ let x = G::Tab(TableKind::Table, a); assert(wf(x)); lemma_refl(x); assert(sub(x, x)); assert forall|i: int| 0 <= i < a.len() implies keyed(a, (#[trigger] a[i]).0) && sub(a[i].1, a[idx(a, a[i].0)].1) by {} }
pub proof fn lemma_fg_sub(kind: TableKind, base: Es, g: Seq<Or<AKvGroup>>, n: int, t: TomlVersion, c: bool, j: int, i: int)
    requires okg(kind, base, g, n, t, c), wfe(base), npe(base), 0 <= n <= g.len(), 0 <= j < n, g[j] is ItemGroup, 0 <= i < g[j]->ItemGroup_0.items.len(),
    ensures sub(gkv(g[j]->ItemGroup_0.items[i].0, t), tb(fg(base, g, n, t))),
    decreases n,
{
    lemma_fg(kind, base, g, n - 1, t, c);
    let p = fg(base, g, n - 1, t); let q = fg(base, g, n, t);
    match g[n - 1] { Or::ItemGroup(x) => { lemma_fk_sub(kind, p, x.items, x.items.len() as int, t, c); }, _ => { lemma_wfe_refl(p); } }
    if j < n - 1 { lemma_fg_sub(kind, base, g, n - 1, t, c, j, i); lemma_trans(gkv(g[j]->ItemGroup_0.items[i].0, t), tb(p), tb(q)); }
}
pub proof fn lemma_wrap(h: Seq<AKey>, prev: Seq<APrev>, t: TomlVersion, j: int, x: G)
    requires wf(x), one(x), x is Tab, ensures wf(wrap(h, prev, t, j, x)), one(wrap(h, prev, t, j, x)), wrap(h, prev, t, j, x) is Tab, decreases j,
{
    if j > 0 {
        let ks = kxs(h, t);
        let v = if j < h.len() && par(h, prev, t, ks.take(j)) { G::Arr(ArrayKind::ParentArrayOfTable, seq![x]) } else { x };
        assert(wf(v) && one(v));
        lemma_wrap(h, prev, t, j - 1, G::Tab(TableKind::ParentTable, seq![(ks[j - 1], v)]));
    }
}
pub proof fn lemma_sec(s: ASec, t: TomlVersion)
    requires sec_ok(s, t), ensures wf(gsec(s, t)), one(gsec(s, t)), gsec(s, t) is Tab,
{
    match s {
        ASec::Table(s) => { lemma_fg(TableKind::Table, Seq::empty(), s.groups, s.groups.len() as int, t, false); lemma_np_one(gbody(s.groups, t)); lemma_wrap(s.header->0.ks, s.prev, t, s.header->0.ks.len() as int, gbody(s.groups, t)); }
        ASec::ArrayOfTable(s) => {
            lemma_fg(TableKind::Table, Seq::empty(), s.groups, s.groups.len() as int, t, false); let b = gbody(s.groups, t); lemma_np_one(b);
            let h = s.header->0.ks; let n = h.len() as int; let a = G::Arr(ArrayKind::ArrayOfTable, seq![b]); assert(a->Arr_1[0] == b); assert(wf(b) && one(b) && b is Tab); assert(wf(a)); assert(one(a));
            lemma_wrap(h, s.prev, t, n - 1, G::Tab(TableKind::ParentTable, seq![(kxs(h, t)[n - 1], a)]));
        }
    }
}
/// an accepted document: everything its key-values and its sections say is in the tree
pub proof fn lemma_doc(r: ARoot, n: int, t: TomlVersion)
    requires doc_ok(r, n, t), 0 <= n <= r.secs.len(),
    ensures wfe(gdoc(r, n, t)), sub(tb(gdoc(r, 0, t)), tb(gdoc(r, n, t))), forall|i: int| 0 <= i < n ==> sub(gsec(#[trigger] r.secs[i], t), tb(gdoc(r, n, t))),
    decreases n,
{
    if n > 0 {
        lemma_doc(r, n - 1, t);
        let p = gdoc(r, n - 1, t); let x = gsec(r.secs[n - 1], t); let q = gdoc(r, n, t);
        lemma_sec(r.secs[n - 1], t); lemma_step(p, x); lemma_trans(tb(gdoc(r, 0, t)), tb(p), tb(q));
        assert forall|i: int| 0 <= i < n implies sub(gsec(#[trigger] r.secs[i], t), tb(q)) by { if i < n - 1 { lemma_trans(gsec(r.secs[i], t), tb(p), tb(q)); } }
    } else { lemma_fg(TableKind::Root, Seq::empty(), r.groups, r.groups.len() as int, t, false); lemma_wfe_refl(gdoc(r, 0, t)); }
}
/// what a merge leaves under a key of `b`
pub proof fn lemma_un_val(a: Es, b: Es, n: int, i: int)
    requires distinct(a), distinct(b), 0 <= i < n <= b.len(),
    ensures keyed(un(a, b, n), b[i].0), un(a, b, n)[idx(un(a, b, n), b[i].0)].1 == (if keyed(a, b[i].0) { vun(a[idx(a, b[i].0)].1, b[i].1) } else { b[i].1 }),
    decreases n,
{
    lemma_un_keys(a, b, n); lemma_un_keys(a, b, n - 1);
    let p = un(a, b, n - 1); let q = un(a, b, n); let k = b[i].0;
    if i == n - 1 {
        assert(!keyed(b.take(n - 1), k)) by { if keyed(b.take(n - 1), k) { let z = idx(b.take(n - 1), k); assert(at(b.take(n - 1), k, z)); assert(b[z].0 != b[i].0); } }
        if keyed(a, k) { let z = idx(a, k); assert(at(a, k, z)); assert(p[z] == a[z]); assert(at(p, k, z)); lemma_idx(p, k, z); assert(at(q, k, z)); lemma_idx(q, k, z); }
        else {
            if keyed(p, k) { let z = idx(p, k); assert(at(p, k, z)); if z < a.len() { assert(p[z].0 == a[z].0); assert(at(a, k, z)); } else { assert(keyed(b.take(n - 1), p[z].0)); } }
            assert(at(q, k, p.len() as int)); lemma_idx(q, k, p.len() as int);
        }
    } else {
        lemma_un_val(a, b, n - 1, i);
        let z = idx(p, k); assert(at(p, k, z)); assert(b[n - 1].0 != k);
        if keyed(p, b[n - 1].0) { assert(at(p, b[n - 1].0, idx(p, b[n - 1].0))); }
        assert(q[z] == p[z]); assert(at(q, k, z)); lemma_idx(q, k, z);
    }
}
pub proof fn lemma_un_keep(a: Es, b: Es, k: Seq<char>)
    requires distinct(a), distinct(b), keyed(a, k), !keyed(b, k),
    ensures keyed(un(a, b, b.len() as int), k), un(a, b, b.len() as int)[idx(un(a, b, b.len() as int), k)] == a[idx(a, k)],
{
    let n = b.len() as int; lemma_un_keys(a, b, n); let q = un(a, b, n); let z = idx(a, k); assert(at(a, k, z));
    assert(!keyed(b.take(n), k)) by { if keyed(b.take(n), k) { let y = idx(b.take(n), k); assert(at(b.take(n), k, y)); assert(at(b, k, y)); } }
    assert(q[z] == a[z]); assert(at(q, k, z)); lemma_idx(q, k, z);
}
/// the value at a path after a merge: what was there, or what was there with what came
pub proof fn lemma_keep(a: Es, b: Es, ks: Seq<Seq<char>>, j: int)
    requires wfe(a), wfe(b), under(a, ks, j) is Some, okn(a, b, b.len() as int),
    ensures ({ let z = under(un(a, b, b.len() as int), ks, j); z is Some && (z == under(a, ks, j) || under(b, ks, j) is Some && vok(under(a, ks, j)->0, under(b, ks, j)->0) && z->0 == vun(under(a, ks, j)->0, under(b, ks, j)->0)) }),
    decreases ks.len() - j,
{
    let k = ks[j]; let i = idx(a, k); assert(at(a, k, i)); assert(wf(a[i].1));
    if keyed(b, k) {
        let y = idx(b, k); assert(at(b, k, y)); assert(wf(b[y].1));
        lemma_un_val(a, b, b.len() as int, y); lemma_okn_point(a, b, b.len() as int, i, y);
        if j < ks.len() - 1 { lemma_keep(a[i].1->Tab_1, b[y].1->Tab_1, ks, j + 1); }
    } else { lemma_un_keep(a, b, k); }
}
pub proof fn lemma_gain(a: Es, b: Es, ks: Seq<Seq<char>>, j: int)
    requires wfe(a), wfe(b), under(b, ks, j) is Some, okn(a, b, b.len() as int),
    ensures ({ let z = under(un(a, b, b.len() as int), ks, j); z is Some && (z == under(b, ks, j) || under(a, ks, j) is Some && vok(under(a, ks, j)->0, under(b, ks, j)->0) && z->0 == vun(under(a, ks, j)->0, under(b, ks, j)->0)) }),
    decreases ks.len() - j,
{
    let k = ks[j]; let y = idx(b, k); assert(at(b, k, y)); assert(wf(b[y].1));
    lemma_un_val(a, b, b.len() as int, y);
    if keyed(a, k) {
        let i = idx(a, k); assert(at(a, k, i)); assert(wf(a[i].1));
        lemma_okn_point(a, b, b.len() as int, i, y);
        if j < ks.len() - 1 { lemma_gain(a[i].1->Tab_1, b[y].1->Tab_1, ks, j + 1); }
    }
}
pub proof fn lemma_under_wf(a: Es, ks: Seq<Seq<char>>, j: int)
    requires wfe(a), under(a, ks, j) is Some, ensures wf(under(a, ks, j)->0), decreases ks.len() - j,
{ let i = idx(a, ks[j]); assert(at(a, ks[j], i)); assert(wf(a[i].1)); if j < ks.len() - 1 { lemma_under_wf(a[i].1->Tab_1, ks, j + 1); } }
/// a definition that is complete: a value, an array, an inline table, a [table]
pub open spec fn closed_(x: G) -> bool { match x { G::Leaf(_) => true, G::Arr(k, _) => k is Array, G::Tab(k, _) => k is InlineTable || k is Table, G::Gone => true } }
pub proof fn lemma_doc_path(r: ARoot, i: int, n: int, t: TomlVersion, ks: Seq<Seq<char>>)
    requires doc_ok(r, n, t), 0 <= i < n <= r.secs.len(), under(ents(gsec(r.secs[i], t)), ks, 0) is Some, closed_(under(ents(gsec(r.secs[i], t)), ks, 0)->0),
    ensures under(gdoc(r, n, t), ks, 0) is Some, closed_(under(gdoc(r, n, t), ks, 0)->0),
    decreases n,
{
    let p = gdoc(r, n - 1, t); let x = gsec(r.secs[n - 1], t);
    lemma_doc(r, n - 1, t); lemma_sec(r.secs[n - 1], t);
    if under(p, ks, 0) is Some { lemma_under_wf(p, ks, 0); } if under(ents(x), ks, 0) is Some { lemma_under_wf(ents(x), ks, 0); }
    if i == n - 1 { lemma_gain(p, ents(x), ks, 0); } else { lemma_doc_path(r, i, n - 1, t, ks); lemma_keep(p, ents(x), ks, 0); }
}
/// the same path defined by two sections: the document is not accepted
pub proof fn lemma_defined_twice(r: ARoot, i: int, j: int, n: int, t: TomlVersion, ks: Seq<Seq<char>>)
    requires 0 <= i < j < n <= r.secs.len(), sec_ok(r.secs[i], t), sec_ok(r.secs[j], t),
        under(ents(gsec(r.secs[i], t)), ks, 0) is Some, closed_(under(ents(gsec(r.secs[i], t)), ks, 0)->0), under(ents(gsec(r.secs[j], t)), ks, 0) is Some, closed_(under(ents(gsec(r.secs[j], t)), ks, 0)->0),
    ensures !doc_ok(r, n, t),
    decreases n,
{
    if doc_ok(r, n, t) {
        if n > j + 1 { lemma_defined_twice(r, i, j, n - 1, t, ks); }
        else {
            let p = gdoc(r, j, t); let x = gsec(r.secs[j], t);
            lemma_doc(r, j, t); lemma_doc_path(r, i, j, t, ks); lemma_sec(r.secs[j], t);
            lemma_twice(p, ents(x), ks, 0);
        }
    }
}
"""
TV = Raw("crates/tombi-toml-version/src/lib.rs", "macro define_toml_version / enum TomlVersion", rewrites=[("=> $v,", ",")], attrs=KIND)
UNIT = Unit("tree", [TYPES0, TV] + TYPES + [Text(STR), Text(SPEC), Text(LEM), MAP, LEAFS, Text(NODES), REST, Text(SUB), Text(DOC)] + MERGE + CONV, rewrites=RW, flags=["--edition=2024"])
