//! C11: the verdict of schema validation. Random JSON Schemas over random TOML values, judged by the linter and by a
//! small JSON Schema evaluator written from the specification; they must agree, and the linter must not panic.
use itertools::Either;
use serde_json::{Value as J, json};
use tombi_config::TomlVersion;
use tombi_linter::{LintOptions, Linter};
use tombi_schema_store::{AssociateSchemaOptions, Options, SchemaStore, SchemaUri};
use wit::*;

const PATTERNS: [&str; 4] = ["^a", "b$", "^[a-c]*$", "x"];
fn pattern(p: &str, s: &str) -> bool {
    match p {
        "^a" => s.starts_with('a'),
        "b$" => s.ends_with('b'),
        "^[a-c]*$" => s.chars().all(|c| ('a'..='c').contains(&c)),
        _ => s.contains(p),
    }
}
fn num(v: &J) -> Option<f64> {
    v.as_f64()
}
fn same(a: &J, b: &J) -> bool {
    match (num(a), num(b)) {
        (Some(x), Some(y)) => match (a.as_i64(), b.as_i64()) {
            (Some(i), Some(j)) => i == j,
            _ => x == y,
        },
        _ => match (a, b) {
            (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
            (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same(p, q))),
            _ => a == b,
        },
    }
}
/// does the instance hold under the schema
fn holds(s: &J, v: &J) -> bool {
    let J::Object(o) = s else { return *s != J::Bool(false) };
    let get = |k: &str| o.get(k);
    let n = |k: &str| get(k).and_then(|x| x.as_u64()).map(|x| x as usize);
    if let Some(t) = get("type").and_then(|x| x.as_str()) {
        let fits = match t {
            "integer" => v.is_i64(),
            "number" => v.is_number(),
            "string" => v.is_string(),
            "boolean" => v.is_boolean(),
            "array" => v.is_array(),
            "object" => v.is_object(),
            _ => false,
        };
        if !fits {
            return false;
        }
    }
    if get("const").is_some_and(|c| !same(c, v)) || get("enum").is_some_and(|e| !e.as_array().unwrap().iter().any(|c| same(c, v))) {
        return false;
    }
    if v.is_number() {
        // all bounds are whole numbers or halves: compare exactly in i128
        let half = |x: &J| x.as_i64().map(|i| i as i128 * 2).unwrap_or_else(|| (x.as_f64().unwrap() * 2.0) as i128);
        let x = half(v);
        let b = |k: &str| get(k).map(half);
        if b("minimum").is_some_and(|m| x < m) || b("maximum").is_some_and(|m| x > m) || b("exclusiveMinimum").is_some_and(|m| x <= m) || b("exclusiveMaximum").is_some_and(|m| x >= m) || b("multipleOf").is_some_and(|m| m != 0 && x % m != 0) {
            return false;
        }
    }
    if let J::String(x) = v {
        let l = unicode_segmentation::UnicodeSegmentation::graphemes(x.as_str(), true).count();
        if n("minLength").is_some_and(|m| l < m) || n("maxLength").is_some_and(|m| l > m) || get("pattern").is_some_and(|p| !pattern(p.as_str().unwrap(), x)) || get("format").is_some_and(|f| !format_holds(f.as_str().unwrap(), x)) {
            return false;
        }
    }
    if let J::Array(x) = v {
        let l = x.len();
        if n("minItems").is_some_and(|m| l < m) || n("maxItems").is_some_and(|m| l > m) || (get("uniqueItems") == Some(&J::Bool(true)) && (0..l).any(|i| (0..i).any(|j| same(&x[i], &x[j])))) {
            return false;
        }
        let mut seen = vec![false; l];
        let pre = get("prefixItems").map(|p| p.as_array().unwrap().clone()).unwrap_or_default();
        for i in 0..l {
            let s = if i < pre.len() { Some(&pre[i]) } else { get("items") };
            if let Some(s) = s {
                seen[i] = true;
                if !holds(s, &x[i]) {
                    return false;
                }
            }
        }
        if let Some(c) = get("contains") {
            let mut k = 0;
            for i in 0..l {
                if holds(c, &x[i]) {
                    seen[i] = true;
                    k += 1;
                }
            }
            if k < n("minContains").unwrap_or(1) || n("maxContains").is_some_and(|m| k > m) {
                return false;
            }
        }
        if let Some(u) = get("unevaluatedItems")
            && (0..l).any(|i| !seen[i] && !holds(u, &x[i]))
        {
            return false;
        }
    }
    if let J::Object(x) = v {
        if n("minProperties").is_some_and(|m| x.len() < m) || n("maxProperties").is_some_and(|m| x.len() > m) {
            return false;
        }
        let has = |k: &J| x.contains_key(k.as_str().unwrap());
        if get("required").is_some_and(|r| !r.as_array().unwrap().iter().all(&has)) {
            return false;
        }
        if let Some(J::Object(d)) = get("dependentRequired")
            && d.iter().any(|(k, r)| x.contains_key(k) && !r.as_array().unwrap().iter().all(&has))
        {
            return false;
        }
        if let Some(J::Object(d)) = get("dependentSchemas")
            && d.iter().any(|(k, s)| x.contains_key(k) && !holds(s, v))
        {
            return false;
        }
        if let Some(J::Object(d)) = get("dependencies")
            && d.iter().any(|(k, s)| x.contains_key(k) && !match s { J::Array(r) => r.iter().all(&has), s => holds(s, v) })
        {
            return false;
        }
        for (k, y) in x {
            if get("propertyNames").is_some_and(|s| !holds(s, &J::String(k.clone()))) {
                return false;
            }
            let mut known = false;
            if let Some(s) = get("properties").and_then(|p| p.get(k)) {
                known = true;
                if !holds(s, y) {
                    return false;
                }
            }
            if let Some(J::Object(p)) = get("patternProperties") {
                for (r, s) in p {
                    if pattern(r, k) {
                        known = true;
                        if !holds(s, y) {
                            return false;
                        }
                    }
                }
            }
            if !known && let Some(s) = get("additionalProperties").or(get("unevaluatedProperties")) && !holds(s, y) {
                return false;
            }
        }
    }
    let many = |k: &str| get(k).map(|a| (a.as_array().unwrap().iter().filter(|s| holds(s, v)).count(), a.as_array().unwrap().len()));
    if many("allOf").is_some_and(|(k, m)| k != m) || many("anyOf").is_some_and(|(k, _)| k == 0) || many("oneOf").is_some_and(|(k, _)| k != 1) {
        return false;
    }
    if get("not").is_some_and(|s| holds(s, v)) {
        return false;
    }
    if let Some(i) = get("if") {
        let branch = if holds(i, v) { get("then") } else { get("else") };
        return branch.is_none_or(|s| holds(s, v));
    }
    true
}

const INTS: [i64; 8] = [0, 1, 2, 3, 4, -1, i64::MAX, i64::MIN];
const FLOATS: [f64; 5] = [0.5, 1.5, 2.5, -0.5, 3.5];
const STRS: [&str; 7] = ["", "a", "ab", "abc", "b", "x", "axb"];
const KEYS: [&str; 5] = ["a", "b", "ab", "x", "c"];
fn value(r: &mut Rng, t: &str, d: usize) -> J {
    match t {
        "integer" => json!(INTS[r.below(8)]),
        "number" => {
            if r.below(3) == 0 {
                json!(INTS[r.below(6)])
            } else {
                json!(FLOATS[r.below(5)])
            }
        }
        "string" => json!(STRS[r.below(7)]),
        "boolean" => json!(r.below(2) == 0),
        "array" => {
            let n = if r.below(12) == 0 { r.below(90) } else { r.below(4) };
            let d = if n > 4 { 0 } else { d };
            let t = TYPES[r.below(if d == 0 { 4 } else { 6 })];
            if n > 4 && r.below(2) == 0 {
                // many different values, or all but two different
                let mut v: Vec<J> = (0..n).map(|i| json!(i as i64)).collect();
                if r.below(2) == 0 {
                    let (i, j) = (r.below(n), r.below(n));
                    v[i] = v[j].clone();
                }
                return J::Array(v);
            }
            J::Array((0..n).map(|_| { let t = if r.below(3) == 0 { TYPES[r.below(4)] } else { t }; value(r, t, d.saturating_sub(1)) }).collect())
        }
        _ => {
            let mut m = serde_json::Map::new();
            for _ in 0..r.below(4) {
                let t = TYPES[r.below(if d == 0 { 4 } else { 6 })];
                m.insert(KEYS[r.below(5)].into(), value(r, t, d.saturating_sub(1)));
            }
            J::Object(m)
        }
    }
}
const TYPES: [&str; 6] = ["integer", "string", "number", "boolean", "array", "object"];
/// a schema that speaks about values of one type
fn schema(r: &mut Rng, t: &str, d: usize, side: bool) -> J {
    let mut o = serde_json::Map::new();
    o.insert("type".into(), json!(t));
    #[allow(unused_mut)]
    let mut put = |k: &str, v: J| o.insert(k.into(), v);
    let some = |r: &mut Rng, n: usize| r.below(n) == 0;
    let sub = |r: &mut Rng| {
        if r.below(8) == 0 {
            return json!(r.below(2) == 0);
        }
        let t = TYPES[r.below(if d == 0 { 4 } else { 6 })];
        schema(r, t, d.saturating_sub(1), true)
    };
    if some(r, 8) {
        put("deprecated", json!(true));
    }
    if some(r, 6) {
        put("const", value(r, t, 1));
    } else if some(r, 6) {
        put("enum", J::Array((0..1 + r.below(3)).map(|_| value(r, t, 1)).collect()));
    }
    match t {
        "integer" | "number" => {
            let float = t == "number";
            let b = |r: &mut Rng| if float { json!(if r.below(2) == 0 { FLOATS[r.below(5)] } else { r.below(5) as f64 }) } else { json!(INTS[r.below(8)]) };
            for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
                if some(r, 4) {
                    put(k, b(r));
                }
            }
            if some(r, 4) {
                put("multipleOf", if float { json!([0.5, 1.5][r.below(2)]) } else { json!([1, 2, 3, -1, 0][r.below(5)]) });
            }
        }
        "string" => {
            if some(r, 4) {
                put("minLength", json!(r.below(3)));
            }
            if some(r, 4) {
                put("maxLength", json!(r.below(4)));
            }
            if some(r, 3) {
                put("pattern", json!(PATTERNS[r.below(4)]));
            }
        }
        "array" => {
            if some(r, 3) {
                put("prefixItems", J::Array((0..1 + r.below(2)).map(|_| sub(r)).collect()));
            }
            if some(r, 2) {
                put("items", sub(r));
            }
            if some(r, 3) {
                put("contains", sub(r));
                if some(r, 2) {
                    put("minContains", json!(r.below(3)));
                }
                if some(r, 2) {
                    put("maxContains", json!(r.below(3)));
                }
            }
            if some(r, 4) {
                put("minItems", json!(r.below(3)));
            }
            if some(r, 4) {
                put("maxItems", json!(r.below(4)));
            }
            if some(r, 3) {
                put("uniqueItems", json!(true));
            }
            if !side && some(r, 3) {
                put("unevaluatedItems", if some(r, 2) { json!(false) } else { sub(r) });
            }
        }
        "object" => {
            let keyed = |r: &mut Rng, n: usize| (0..n).map(|_| (KEYS[r.below(5)].to_string(), sub(r))).collect::<serde_json::Map<_, _>>();
            if some(r, 2) {
                let n = 1 + r.below(3);
                put("properties", J::Object(keyed(r, n)));
            }
            if some(r, 3) {
                let n = 1 + r.below(2);
                put("patternProperties", J::Object((0..n).map(|_| (if r.below(6) == 0 { "(" } else { PATTERNS[r.below(4)] }.to_string(), sub(r))).collect()));
            }
            if some(r, 3) {
                put("additionalProperties", if some(r, 2) { json!(false) } else { sub(r) });
            } else if !side && some(r, 3) {
                put("unevaluatedProperties", if some(r, 2) { json!(false) } else { sub(r) });
            }
            if some(r, 4) {
                put("required", J::Array((0..1 + r.below(2)).map(|_| json!(KEYS[r.below(5)])).collect()));
            }
            if some(r, 5) {
                put("minProperties", json!(r.below(3)));
            }
            if some(r, 5) {
                put("maxProperties", json!(r.below(4)));
            }
            if some(r, 5) {
                put("propertyNames", json!({"type": "string", "maxLength": r.below(3), "pattern": PATTERNS[r.below(4)]}));
            }
            if some(r, 5) {
                put("dependentRequired", json!({KEYS[r.below(5)]: [KEYS[r.below(5)]]}));
            }
            if some(r, 5) {
                let s = if d == 0 { json!({"type": "object", "maxProperties": 1 + r.below(2)}) } else { schema(r, "object", d - 1, true) };
                put("dependentSchemas", json!({KEYS[r.below(5)]: s}));
            }
            if some(r, 6) {
                let s = if d == 0 { json!({"type": "object", "maxProperties": 1 + r.below(2)}) } else { schema(r, "object", d - 1, true) };
                put("dependencies", json!({KEYS[r.below(5)]: s, KEYS[r.below(5)]: [KEYS[r.below(5)]]}));
            }
        }
        _ => {}
    }
    // now and then a schema that says one thing
    if r.below(5) == 0 && o.len() > 2 {
        let names: Vec<String> = o.keys().filter(|k| *k != "type").cloned().collect();
        let k = names[r.below(names.len())].clone();
        let with = if k.ends_with("Contains") { "contains" } else { "" };
        o.retain(|x, _| x == "type" || *x == k || x == with);
    }
    // the keys these name count as looked at, on purpose: they are declared
    if ["dependentRequired", "dependentSchemas", "dependencies"].iter().any(|k| o.contains_key(*k)) {
        o.remove("unevaluatedProperties");
    }
    let mut put = |k: &str, v: J| o.insert(k.into(), v);
    if side && d > 0 {
        let alt = |r: &mut Rng| { let t = if r.below(3) == 0 { TYPES[r.below(6)] } else { t }; schema(r, t, d - 1, true) };
        if some(r, 4) {
            let k = ["oneOf", "anyOf", "allOf"][r.below(3)];
            put(k, J::Array((0..1 + r.below(3)).map(|_| alt(r)).collect()));
            if some(r, 2) {
                o.shift_remove_type(r);
            }
        } else if some(r, 6) {
            put("not", alt(r));
        }
        if matches!(t, "array" | "object") && some(r, 6) {
            o.insert("if".into(), alt(r));
            o.insert("then".into(), alt(r));
            o.insert("else".into(), alt(r));
        }
    }
    J::Object(o)
}
trait Bare {
    fn shift_remove_type(&mut self, r: &mut Rng);
}
impl Bare for serde_json::Map<String, J> {
    /// only the applicator, next to `not` or if/then/else now and then
    fn shift_remove_type(&mut self, r: &mut Rng) {
        self.retain(|k, _| matches!(k.as_str(), "oneOf" | "anyOf" | "allOf"));
        if r.below(2) == 0 {
            let t = TYPES[r.below(4)];
            self.insert("not".into(), schema(r, t, 0, false));
        }
        if r.below(3) == 0 {
            for k in ["if", "then", "else"] {
                let t = TYPES[r.below(4)];
                self.insert(k.into(), schema(r, t, 0, false));
            }
        }
    }
}
fn toml(v: &J) -> String {
    match v {
        J::String(s) => format!("\"{s}\""),
        J::Array(a) => format!("[{}]", a.iter().map(toml).collect::<Vec<_>>().join(", ")),
        J::Object(o) => format!("{{ {} }}", o.iter().map(|(k, v)| format!("{k} = {}", toml(v))).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
/// what the formats say, read off RFC 3339, RFC 4122 and RFC 6901
fn format_holds(f: &str, x: &str) -> bool {
    fn n(x: &str, w: usize) -> Option<u32> {
        (x.len() == w && x.chars().all(|c| c.is_ascii_digit())).then(|| x.parse().unwrap())
    }
    fn date(x: &str) -> bool {
        let p: Vec<&str> = x.split('-').collect();
        let [y, m, d] = p[..] else { return false };
        let (Some(y), Some(m), Some(d)) = (n(y, 4), n(m, 2), n(d, 2)) else { return false };
        let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
        (1..=12).contains(&m) && d >= 1 && d <= [31, 28 + leap as u32, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m as usize - 1]
    }
    fn time(x: &str) -> bool {
        let (a, frac) = x.split_once('.').map_or((x, None), |(a, f)| (a, Some(f)));
        let p: Vec<&str> = a.split(':').collect();
        let [h, m, s] = p[..] else { return false };
        n(h, 2).is_some_and(|h| h < 24) && n(m, 2).is_some_and(|m| m < 60) && n(s, 2).is_some_and(|s| s <= 60) && frac.is_none_or(|f| !f.is_empty() && f.chars().all(|c| c.is_ascii_digit()))
    }
    fn zone(x: &str) -> Option<&str> {
        if let Some(r) = x.strip_suffix(['Z', 'z']) {
            return Some(r);
        }
        let (i, _) = x.char_indices().rev().find(|(_, c)| *c == '+' || *c == '-')?;
        let (h, m) = x[i + 1..].split_once(':')?;
        (n(h, 2)? < 24 && n(m, 2)? < 60).then(|| &x[..i])
    }
    let both = |x: &str, t: &dyn Fn(&str) -> bool| x.split_once(['T', 't', ' ']).is_some_and(|(d, r)| date(d) && t(r));
    match f {
        "date" => date(x),
        "time-local" => time(x),
        "time" => zone(x).is_some_and(time),
        "date-time" => both(x, &|r| zone(r).is_some_and(time)),
        "date-time-local" => both(x, &time),
        "json-pointer" => x.is_empty() || (x.starts_with('/') && x.split('~').skip(1).all(|p| p.starts_with(['0', '1']))),
        "uuid" => x.split('-').map(|p| p.len()).eq([8, 4, 4, 4, 12]) && x.chars().all(|c| c == '-' || c.is_ascii_hexdigit()),
        _ => true,
    }
}
const FORMATS: [&str; 7] = ["date", "time", "time-local", "date-time", "date-time-local", "json-pointer", "uuid"];
/// a text near one of the format
fn format_text(r: &mut Rng, f: &str) -> String {
    let pick = |r: &mut Rng, v: &[&str]| v[r.below(v.len())].to_string();
    let date = |r: &mut Rng| format!("{}-{}-{}", pick(r, &["2024", "2023", "1900", "2000", "0000", "9999", "2100", "+024"]), pick(r, &["01", "02", "02", "04", "06", "09", "11", "12", "00", "13", "+1"]), pick(r, &["01", "28", "29", "30", "31", "00", "32", "+1"]));
    let time = |r: &mut Rng| format!("{}:{}:{}{}", pick(r, &["00", "23", "24", "12", "+1"]), pick(r, &["00", "59", "60"]), pick(r, &["00", "59", "60", "61", "+5"]), pick(r, &["", "", ".0", ".123456789", ".", ".5x", ".\u{ff11}"]));
    let mut x = match f {
        "date" => date(r),
        "time-local" => time(r),
        "time" | "date-time" => (if f == "time" { String::new() } else { date(r) + &pick(r, &["T", "t", " ", "T", "_"]) }) + &time(r) + &pick(r, &["Z", "z", "+00:00", "-23:59", "+24:00", "+00:60", "", "+0:00", "++1:00", "Z "]),
        "date-time-local" => date(r) + &pick(r, &["T", "t", " ", "T", ""]) + &time(r),
        "json-pointer" => (0..r.below(4)).map(|_| pick(r, &["/", "/a", "~0", "~1", "~", "~2", "a", "~~", "あ"])).collect(),
        _ => pick(r, &["123e4567-e89b-12d3-a456-426614174000", "123E4567-E89B-12D3-A456-426614174000", "123e4567e89b12d3a456426614174000", "{123e4567-e89b-12d3-a456-426614174000}", "urn:uuid:123e4567-e89b-12d3-a456-426614174000"]),
    };
    if r.below(4) == 0 {
        let c: Vec<char> = x.chars().collect();
        let i = r.below(c.len() + 1);
        let ins = pick(r, &["", "0", "-", "9", ":", "あ", "+", "Z"]);
        let j = (i + r.below(2)).min(c.len());
        x = c[..i].iter().collect::<String>() + &ins + &c[j..].iter().collect::<String>();
    }
    x
}
fn lint(dir: &std::path::Path, schema: &J, text: &str) -> Result<Vec<String>, String> {
    let rt = tokio::runtime::Builder::new_current_thread().build().map_err(|e| e.to_string())?;
    let file = dir.join("schema.json");
    std::fs::write(&file, schema.to_string()).map_err(|e| e.to_string())?;
    rt.block_on(async {
        let store = SchemaStore::new_with_options(Options { strict: Some(false.into()), offline: Some(true), cache: None });
        let uri = SchemaUri::from_file_path(&file).map_err(|_| "uri".to_string())?;
        store.associate_schema(uri, vec!["*.toml".to_string()], &AssociateSchemaOptions::default()).await;
        let options = LintOptions::default();
        let source = dir.join("test.toml");
        let linter = Linter::new(TomlVersion::default(), &options, Some(Either::Right(source.as_path())), &store);
        Ok(match linter.lint(text).await {
            Ok(_) => vec![],
            Err(d) => d.iter().filter(|d| d.is_error()).map(|d| format!("{}: {}", d.code(), d.message())).collect(),
        })
    })
}
fn judge(dir: &std::path::Path, schema: &J, v: &J) -> Result<(), String> {
    let J::Object(o) = v else { return Ok(()) };
    let text: String = o.iter().map(|(k, v)| format!("{k} = {}\n", toml(v))).collect();
    let errors = lint(dir, schema, &text)?;
    if holds(schema, v) != errors.is_empty() {
        return Err(format!("schema {schema} {} the document {text:?}, the linter says {errors:?}", if holds(schema, v) { "accepts" } else { "rejects" }));
    }
    Ok(())
}
fn fixed() -> Vec<(J, J)> {
    let mut out = vec![];
    // a failed `not` or if/then/else next to oneOf/anyOf
    for k in ["oneOf", "anyOf"] {
        let two = json!([{"type": "string"}, {"type": "integer", "deprecated": true}]);
        for v in [json!(1), json!("a"), json!(true)] {
            out.push((json!({"type": "object", "properties": {"v": {k: two, "not": {"type": "integer", "const": 1}}}}), json!({"v": v})));
            out.push((json!({"type": "object", "properties": {"v": {k: two, "if": {"type": "integer"}, "then": {"type": "integer", "minimum": 2}, "else": {"type": "string", "minLength": 2}}}}), json!({"v": v})));
            out.push((json!({"type": "object", "properties": {"v": {"anyOf": [{k: two, "not": {"type": "integer", "const": 1}}]}}}), json!({"v": v})));
            out.push((json!({"type": "object", "properties": {"v": {"type": "array", "contains": {k: two, "not": {"type": "integer", "const": 1}}}}}), json!({"v": [v]})));
            out.push((json!({"type": "object", "properties": {"v": {"not": {k: two, "not": {"type": "integer", "const": 1}}}}}), json!({"v": v})));
        }
    }
    for m in [0, -1, 2] {
        for x in [i64::MIN, 0, 3, i64::MAX] {
            out.push((json!({"type": "object", "properties": {"v": {"type": "integer", "multipleOf": m}}}), json!({"v": x})));
        }
    }
    for b in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
        for x in 0..4 {
            out.push((json!({"type": "object", "properties": {"v": {"type": "integer", b: 1.5}}}), json!({"v": x})));
            out.push((json!({"type": "object", "properties": {"v": {"type": "integer", b: 2.0}}}), json!({"v": x})));
        }
    }
    let v = |s: J| json!({"type": "object", "properties": {"v": s}});
    for n in [2usize, 5, 16, 17, 33, 65, 129, 300] {
        let ints: Vec<usize> = (0..n).collect();
        for (i, j) in [(0, 0), (0, n - 1), (n / 2, n - 1), (n - 2, n - 1)] {
            let mut x = ints.clone();
            x[j] = x[i];
            out.push((v(json!({"type": "array", "uniqueItems": true})), json!({"v": x})));
            // one element that differs
            let mut y = vec![json!(1); n];
            y[j] = json!("a");
            out.push((v(json!({"type": "array", "items": {"type": "integer"}})), json!({"v": y})));
            out.push((v(json!({"type": "array", "contains": {"type": "string"}})), json!({"v": y})));
            out.push((v(json!({"type": "array", "contains": {"type": "integer"}, "maxContains": n - 1})), json!({"v": y})));
            out.push((v(json!({"type": "array", "contains": {"type": "integer"}, "minContains": n})), json!({"v": y})));
        }
        for m in [n - 1, n, n + 1] {
            let text = "ab".repeat(n)[..n].to_string();
            let table: serde_json::Map<String, J> = ints.iter().map(|i| (format!("k{i}"), json!(i))).collect();
            for k in ["minItems", "maxItems"] {
                out.push((v(json!({"type": "array", k: m})), json!({"v": ints})));
            }
            for k in ["minLength", "maxLength"] {
                out.push((v(json!({"type": "string", k: m})), json!({"v": text})));
            }
            for k in ["minProperties", "maxProperties"] {
                out.push((v(json!({"type": "object", k: m})), json!({"v": table})));
            }
            out.push((v(json!({"type": "array", "enum": [ints, [m]]})), json!({"v": ints})));
            out.push((v(json!({"type": "object", "required": [format!("k{m}")]})), json!({"v": table})));
            out.push((v(json!({"type": "object", "patternProperties": {"x": {"type": "integer"}}, "properties": {format!("k{}", m - 1): {"type": "integer", "maximum": n as i64 - 2}}})), json!({"v": table})));
            out.push((v(json!({"type": "object", "propertyNames": {"type": "string", "maxLength": format!("k{}", m - 1).len()}})), json!({"v": table})));
            let alts: Vec<J> = (0..n).map(|i| json!({"type": "integer", "const": i})).collect();
            for k in ["oneOf", "anyOf"] {
                out.push((v(json!({k: alts})), json!({"v": m})));
            }
            let mut all: Vec<J> = (0..n).map(|i| json!({"type": "integer", "minimum": i})).collect();
            all.rotate_left(n / 2);
            out.push((v(json!({"allOf": all})), json!({"v": m - 1})));
        }
    }
    // characters are counted as they are seen
    for x in ["あ", "\u{1F600}", "\u{1F600}\u{1F600}", "e\u{301}", "\u{1F468}\u{200D}\u{1F469}", "é"] {
        for m in 0..5 {
            for k in ["minLength", "maxLength"] {
                out.push((v(json!({"type": "string", k: m})), json!({"v": x})));
            }
        }
    }
    out.push((json!({"type": "object", "properties": {"v": {"type": "integer", "enum": [1.0, 2]}}}), json!({"v": 1})));
    out.push((json!({"type": "object", "properties": {"v": {"type": "integer", "enum": [1.5, 2]}}}), json!({"v": 3})));
    out.push((json!({"type": "object", "properties": {"v": {"type": "integer", "const": 1.0}}}), json!({"v": 2})));
    out
}
fn main() {
    let mut ctx = Ctx::from_args();
    let dir = std::env::temp_dir().join(format!("wit-schema-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    for (s, v) in fixed() {
        ctx.case(&format!("{s} / {v}"), || judge(&dir, &s, &v));
    }
    let mut r = ctx.rng();
    for _ in 0..25 {
        for f in FORMATS {
            let (s, v) = (json!({"x-tombi-string-formats": FORMATS, "type": "object", "properties": {"v": {"type": "string", "format": f}}}), json!({"v": format_text(&mut r, f)}));
            ctx.case(&format!("{s} / {v}"), || judge(&dir, &s, &v));
        }
    }
    let mut accepted = 0;
    let mut all = 0;
    while ctx.time_left() {
        let d = 1 + r.below(2);
        let side = r.below(2) == 0;
        let (s, v) = if r.below(6) == 0 {
            let f = FORMATS[r.below(FORMATS.len())];
            (json!({"x-tombi-string-formats": FORMATS, "type": "object", "properties": {"v": {"type": "string", "format": f}}}), json!({"v": format_text(&mut r, f)}))
        } else if r.below(3) == 0 {
            (schema(&mut r, "object", d, side), value(&mut r, "object", 2))
        } else {
            let t = TYPES[r.below(6)];
            let s = schema(&mut r, t, d, side);
            let t = if r.below(8) == 0 { TYPES[r.below(6)] } else { t };
            let v = value(&mut r, t, 2);
            // where only the verdict counts, not the messages
            let (s, v) = match r.below(10) {
                0 => (json!({"not": s}), v),
                1 => (json!({"type": "array", "contains": s}), json!([v])),
                2 => (json!({"anyOf": [s]}), v),
                3 => (json!({"oneOf": [s]}), v),
                4 => (json!({"allOf": [s, {"type": t, "deprecated": true}]}), v),
                5 => (json!({"type": "array", "contains": {"allOf": [s, {"type": t, "deprecated": true}]}}), json!([v])),
                6 => (json!({"type": "array", "contains": s, "unevaluatedItems": schema(&mut r, t, 0, false)}), json!([v, value(&mut r, t, 1), value(&mut r, t, 1)])),
                _ => (s, v),
            };
            (json!({"type": "object", "properties": {"v": s}}), json!({"v": v}))
        };
        // fractional multiples of numbers too big for a double are judged with a tolerance
        if s.to_string().contains("\"multipleOf\":1.5") && v.to_string().contains("922337203685477580") {
            continue;
        }
        all += 1;
        accepted += holds(&s, &v) as usize;
        ctx.case(&format!("{s} / {v}"), || judge(&dir, &s, &v));
    }
    let _ = std::fs::remove_dir_all(&dir);
    ctx.note("random schemas", all.to_string());
    ctx.note("of which accept their document", accepted.to_string());
    ctx.finish()
}
