//! The reference model: a denotational, one-pass description of what a draft-04 schema means to the
//! transpiler, written from README/docs/fixtures. It shares no code with the implementation and does
//! not follow its structure: a schema is interpreted bottom-up into a node (`infer`), alternatives
//! are joined in a small lattice (`join`), and a node is rendered per format (`avro`, `bq`).
use crate::imp::Fmt;
use crate::opts::{Opts, Res};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum A {
    Bool,
    Int,
    Num,
    Str,
    Dt,
    Bytes,
    /// no structure is known, or alternatives are incompatible
    Json,
}

#[derive(Clone, Debug)]
pub enum Ty {
    Null,
    Atom(A),
    Obj(BTreeMap<String, N>, BTreeSet<String>),
    Map(Box<N>),
    Arr(Box<N>),
    Tup(Vec<N>),
}

#[derive(Clone, Debug)]
pub struct N {
    pub ty: Ty,
    pub nullable: bool,
    pub desc: Option<String>,
    pub title: Option<String>,
}

fn node(ty: Ty) -> N {
    N { ty, nullable: false, desc: None, title: None }
}

/// Why there is no output.
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    /// the part is dropped (and the whole translation aborts if it is the root)
    Drop,
    /// the strategy is to abort
    Panic,
    /// tuple-struct mode rejects a tuple whose length is not bounded
    Tuple,
}

/// `snake_case`: the word-boundary automaton, over ASCII.
pub fn snake(s: &str) -> String {
    // words are runs of alphanumerics; inside a word a boundary lies between a lower-case "mode" and
    // an upper-case letter, and before the last upper-case letter of a run that is followed by a
    // lower-case letter. A digit takes the mode of the letter before it.
    let mut words: Vec<String> = Vec::new();
    for run in s.split(|c: char| !c.is_ascii_alphanumeric()) {
        let cs: Vec<char> = run.chars().collect();
        let mut cur = String::new();
        // 0: nothing yet in this word, 1: lower, 2: upper
        let mut mode = 0;
        for i in 0..cs.len() {
            let c = cs[i];
            let m = if c.is_ascii_lowercase() {
                1
            } else if c.is_ascii_uppercase() {
                2
            } else {
                mode
            };
            if i + 1 == cs.len() {
                cur.push(c);
                break;
            }
            let next = cs[i + 1];
            if m == 1 && next.is_ascii_uppercase() {
                cur.push(c);
                words.push(std::mem::take(&mut cur));
                mode = 0;
            } else if mode == 2 && c.is_ascii_uppercase() && next.is_ascii_lowercase() {
                words.push(std::mem::take(&mut cur));
                cur.push(c);
                mode = 0;
            } else {
                cur.push(c);
                mode = m;
            }
        }
        if !cur.is_empty() {
            words.push(cur);
        }
    }
    words.join("_").to_ascii_lowercase()
}

fn prefix(s: String) -> String {
    match s.chars().next() {
        Some(c) if c.is_numeric() => format!("_{}", s),
        _ => s,
    }
}

/// The column name of a property, or None if it is omitted.
pub fn column(name: &str, case: bool) -> Option<String> {
    let n: String = name.chars().map(|c| if c == '.' || c == '-' { '_' } else { c }).collect();
    let n = prefix(n);
    if n.is_empty() || !n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
        return None;
    }
    if !case {
        return Some(n);
    }
    let n = prefix(snake(&n));
    if n.is_empty() {
        None
    } else {
        Some(n)
    }
}

pub fn infer(s: &Value, o: &Opts) -> Result<N, Fail> {
    let mut n = match s.get("type") {
        Some(Value::String(t)) => {
            let fmt = s.get("format").and_then(Value::as_str);
            match (t.as_str(), fmt) {
                ("string", Some("date-time")) => node(Ty::Atom(A::Dt)),
                ("string", Some("bytes")) => node(Ty::Atom(A::Bytes)),
                _ => simple(t, s, o)?,
            }
        }
        Some(Value::Array(ts)) => {
            let mut v = Vec::new();
            for t in ts {
                v.push(simple(t.as_str().unwrap(), s, o)?);
            }
            join(v)
        }
        _ => simple("object", s, o)?,
    };
    n.desc = s.get("description").and_then(Value::as_str).map(String::from);
    n.title = s.get("title").and_then(Value::as_str).map(String::from);
    Ok(n)
}

fn simple(t: &str, s: &Value, o: &Opts) -> Result<N, Fail> {
    let mut n = match t {
        "null" => {
            let mut n = node(Ty::Null);
            n.nullable = true;
            n
        }
        "boolean" => node(Ty::Atom(A::Bool)),
        "integer" => node(Ty::Atom(A::Int)),
        "number" => node(Ty::Atom(A::Num)),
        "string" => node(Ty::Atom(A::Str)),
        "object" => object(s, o)?,
        "array" => array(s, o)?,
        t => panic!("harness: unknown type {}", t),
    };
    // each member of a type list carries the annotations of the schema
    n.desc = s.get("description").and_then(Value::as_str).map(String::from);
    n.title = s.get("title").and_then(Value::as_str).map(String::from);
    Ok(n)
}

fn object(s: &Value, o: &Opts) -> Result<N, Fail> {
    if let Some(Value::Object(ps)) = s.get("properties") {
        let required: BTreeSet<String> = match s.get("required") {
            Some(Value::Array(r)) => r.iter().filter_map(|x| column(x.as_str().unwrap(), o.case)).collect(),
            _ => BTreeSet::new(),
        };
        let mut fields = BTreeMap::new();
        // names that are already column names give way to those that have to be renamed
        for renamed in [false, true] {
            for (k, v) in ps {
                if let Some(c) = column(k, o.case) {
                    if (c != *k) == renamed {
                        fields.insert(c, infer(v, o)?);
                    }
                } else if renamed {
                    infer(v, o)?;
                }
            }
        }
        for (k, f) in fields.iter_mut() {
            f.nullable |= !required.contains(k);
        }
        return Ok(node(Ty::Obj(fields, required)));
    }
    let add = s.get("additionalProperties").filter(|a| a.is_object());
    let pat: Vec<&Value> = match s.get("patternProperties") {
        Some(Value::Object(p)) => p.values().collect(),
        _ => Vec::new(),
    };
    let values: Vec<&Value> = add.into_iter().chain(pat).collect();
    if !values.is_empty() {
        if values.len() == 1 && s.get("patternProperties").is_none() {
            return Ok(node(Ty::Map(Box::new(infer(values[0], o)?))));
        }
        let ns: Result<Vec<N>, Fail> = values.into_iter().map(|v| infer(v, o)).collect();
        return Ok(node(Ty::Map(Box::new(join(ns?)))));
    }
    if let Some(Value::Array(xs)) = s.get("oneOf") {
        let ns: Result<Vec<N>, Fail> = xs.iter().map(|v| infer(v, o)).collect();
        return Ok(join(ns?));
    }
    Ok(node(Ty::Atom(A::Json)))
}

fn array(s: &Value, o: &Opts) -> Result<N, Fail> {
    match s.get("items") {
        None => Ok(node(Ty::Atom(A::Json))),
        Some(Value::Array(_)) if !o.tuple => Ok(node(Ty::Atom(A::Json))),
        Some(Value::Array(xs)) => {
            let ns: Result<Vec<N>, Fail> = xs.iter().map(|v| infer(v, o)).collect();
            let mut ns = ns?;
            let len = ns.len();
            let min = s.get("minItems").and_then(Value::as_u64).map(|x| x as usize).unwrap_or(len);
            for (i, n) in ns.iter_mut().enumerate() {
                n.nullable |= i >= min;
            }
            let max = s.get("maxItems").and_then(Value::as_u64).map(|x| x as usize);
            match s.get("additionalItems") {
                Some(Value::Bool(false)) => (),
                Some(Value::Bool(true)) => return Err(Fail::Tuple),
                Some(add) => {
                    if max.map_or(true, |m| m < len) {
                        return Err(Fail::Tuple);
                    }
                    for _ in len..max.unwrap() {
                        let mut n = infer(add, o)?;
                        n.nullable = true;
                        ns.push(n);
                    }
                }
                None => {
                    if max != Some(len) {
                        return Err(Fail::Tuple);
                    }
                }
            }
            Ok(node(Ty::Tup(ns)))
        }
        Some(x) => Ok(node(Ty::Arr(Box::new(infer(x, o)?)))),
    }
}

/// The least structure that describes all of the alternatives.
pub fn join(items: Vec<N>) -> N {
    let nullable = items.iter().any(|n| n.nullable || matches!(n.ty, Ty::Null));
    let rest: Vec<N> = items.into_iter().filter(|n| !matches!(n.ty, Ty::Null)).collect();
    let ty = if rest.is_empty() {
        Ty::Null
    } else if rest.len() == 1 {
        rest[0].ty.clone()
    } else if rest.iter().all(|n| matches!(n.ty, Ty::Atom(_))) {
        let mut acc = None;
        for n in &rest {
            let Ty::Atom(a) = n.ty else { unreachable!() };
            acc = Some(match (acc, a) {
                (None, a) => a,
                (Some(x), y) if x == y => x,
                (Some(A::Int), A::Num) | (Some(A::Num), A::Int) => A::Num,
                _ => A::Json,
            });
        }
        Ty::Atom(acc.unwrap())
    } else if rest.iter().all(|n| matches!(n.ty, Ty::Obj(..))) {
        let mut fields: BTreeMap<String, Vec<N>> = BTreeMap::new();
        let mut required: Option<BTreeSet<String>> = None;
        for n in &rest {
            let Ty::Obj(f, r) = &n.ty else { unreachable!() };
            for (k, v) in f {
                fields.entry(k.clone()).or_default().push(v.clone());
            }
            required = Some(match required {
                None => r.clone(),
                Some(q) => q.intersection(r).cloned().collect(),
            });
        }
        let required = required.unwrap();
        let mut joined = BTreeMap::new();
        for (k, v) in fields {
            let mut n = join(v);
            n.nullable |= !required.contains(&k);
            joined.insert(k, n);
        }
        if joined.values().any(|n| matches!(n.ty, Ty::Atom(A::Json))) {
            Ty::Atom(A::Json)
        } else {
            Ty::Obj(joined, required)
        }
    } else if rest.iter().all(|n| matches!(n.ty, Ty::Map(_))) {
        Ty::Map(Box::new(join(rest.into_iter().map(|n| if let Ty::Map(v) = n.ty { *v } else { unreachable!() }).collect())))
    } else if rest.iter().all(|n| matches!(n.ty, Ty::Arr(_))) {
        Ty::Arr(Box::new(join(rest.into_iter().map(|n| if let Ty::Arr(v) = n.ty { *v } else { unreachable!() }).collect())))
    } else {
        Ty::Atom(A::Json)
    };
    let mut n = node(ty);
    n.nullable = nullable;
    n
}

thread_local! {
    static RECORD: std::cell::RefCell<Option<BTreeSet<String>>> = const { std::cell::RefCell::new(None) };
}

/// The dotted paths of the parts that have no faithful type, "" being the root.
pub fn ambiguities(f: Fmt, s: &Value, o: &Opts) -> Result<BTreeSet<String>, Fail> {
    RECORD.with(|r| *r.borrow_mut() = Some(BTreeSet::new()));
    let v = expect(f, s, &o.clone().res(Res::Cast));
    let paths = RECORD.with(|r| r.borrow_mut().take()).unwrap();
    v.map(|_| paths.into_iter().map(|p| if f == Fmt::Avro { p.strip_prefix("root").map(|q| q.trim_start_matches('.').to_string()).unwrap_or(p) } else { p }).collect())
}

fn ambiguous<T>(o: &Opts, path: &str, v: T) -> Result<T, Fail> {
    RECORD.with(|r| {
        if let Some(r) = r.borrow_mut().as_mut() {
            r.insert(path.to_string());
        }
    });
    match o.res {
        Res::Cast => Ok(v),
        Res::Drop => Err(Fail::Drop),
        Res::Panic => Err(Fail::Panic),
    }
}

fn nullable(n: &N, o: &Opts) -> bool {
    n.nullable || o.force
}

/// `name`: simple name of the node; `ns`: the full name of its parent ("" at the root).
pub fn avro_node(n: &N, name: &str, ns: &str, o: &Opts) -> Result<Value, Fail> {
    let full = if ns.is_empty() { name.to_string() } else { format!("{}.{}", ns, name) };
    let record = |fields: Vec<Value>| {
        let mut r = Map::new();
        r.insert("type".into(), json!("record"));
        r.insert("name".into(), json!(name));
        if !ns.is_empty() {
            r.insert("namespace".into(), json!(ns));
        }
        r.insert("fields".into(), Value::Array(fields));
        Value::Object(r)
    };
    let field = |k: &str, f: &N, t: Value| {
        if nullable(f, o) || matches!(f.ty, Ty::Null) {
            json!({"name": k, "type": t, "default": null})
        } else {
            json!({"name": k, "type": t})
        }
    };
    let prim = |p: &str| json!({ "type": p });
    let v = match &n.ty {
        Ty::Null => return Ok(prim("null")),
        Ty::Atom(a) => match a {
            A::Bool => prim("boolean"),
            A::Int => prim("long"),
            A::Num => prim("double"),
            A::Str | A::Dt => prim("string"),
            A::Bytes => prim("bytes"),
            A::Json => ambiguous(o, &full, prim("string"))?,
        },
        Ty::Obj(fs, _) => {
            let mut out = Vec::new();
            for (k, f) in fs {
                match avro_node(f, k, &full, o) {
                    Ok(t) => out.push(field(k, f, t)),
                    Err(Fail::Drop) => (),
                    Err(e) => return Err(e),
                }
            }
            if out.is_empty() {
                ambiguous(o, &full, prim("string"))?
            } else {
                record(out)
            }
        }
        Ty::Tup(fs) => {
            let mut out = Vec::new();
            for (i, f) in fs.iter().enumerate() {
                let k = format!("f{}_", i);
                let t = avro_node(f, &k, &full, o)?;
                out.push(field(&k, f, t));
            }
            record(out)
        }
        Ty::Arr(x) => {
            let t = avro_node(x, "list", &full, o)?;
            if matches!(x.ty, Ty::Arr(_)) {
                json!({"type": "array", "items": record(vec![json!({"name": "list", "type": t})])})
            } else {
                json!({"type": "array", "items": t})
            }
        }
        Ty::Map(x) => json!({"type": "map", "values": avro_node(x, "value", &full, o)?}),
    };
    Ok(if nullable(n, o) { json!([{"type": "null"}, v]) } else { v })
}

/// What the BigQuery model does with an array of maps: the implementation is known to flatten it.
#[derive(Copy, Clone, PartialEq)]
pub enum ArrayOfMap {
    Flattened,
    Wrapped,
}

pub fn bq_node(n: &N, name: Option<&str>, path: &str, o: &Opts, q: ArrayOfMap) -> Result<Value, Fail> {
    let sub = |k: &str| if path.is_empty() { k.to_string() } else { format!("{}.{}", path, k) };
    let mut fields: Option<Vec<Value>> = None;
    let ty: String = match &n.ty {
        Ty::Null => ambiguous(o, path, "STRING")?.into(),
        Ty::Atom(a) => match a {
            A::Bool => "BOOL".into(),
            A::Int => "INT64".into(),
            A::Num => "FLOAT64".into(),
            A::Str => "STRING".into(),
            A::Dt => "TIMESTAMP".into(),
            A::Bytes => "BYTES".into(),
            A::Json => {
                let hit = o.path.as_ref().map_or(false, |re| path_matches(re, path));
                if hit {
                    "JSON".into()
                } else {
                    ambiguous(o, path, "STRING")?.into()
                }
            }
        },
        Ty::Obj(fs, _) => {
            let mut out = Vec::new();
            for (k, f) in fs {
                match bq_node(f, Some(k), &sub(k), o, q) {
                    Ok(t) => out.push(t),
                    Err(Fail::Drop) => (),
                    Err(e) => return Err(e),
                }
            }
            if out.is_empty() {
                ambiguous(o, path, "STRING")?.into()
            } else {
                fields = Some(out);
                "RECORD".into()
            }
        }
        Ty::Tup(fs) => {
            let mut out = Vec::new();
            for (i, f) in fs.iter().enumerate() {
                let k = format!("f{}_", i);
                out.push(bq_node(f, Some(&k), &sub(&k), o, q)?);
            }
            out.sort_by(|a, b| a["name"].as_str().cmp(&b["name"].as_str()));
            fields = Some(out);
            "RECORD".into()
        }
        Ty::Arr(x) => {
            let t = bq_node(x, Some("list"), &sub("list"), o, q)?;
            let wrap = matches!(x.ty, Ty::Arr(_)) || (q == ArrayOfMap::Wrapped && matches!(x.ty, Ty::Map(_)));
            if wrap {
                fields = Some(vec![t]);
                "RECORD".into()
            } else {
                if let Some(Value::Array(f)) = t.get("fields") {
                    fields = Some(f.clone());
                }
                t["type"].as_str().unwrap().to_string()
            }
        }
        Ty::Map(x) => {
            let mode = if o.force { "NULLABLE" } else { "REQUIRED" };
            let mut out = vec![json!({"name": "key", "type": "STRING", "mode": mode})];
            match bq_node(x, Some("value"), &sub("value"), o, q) {
                Ok(v) => out.push(v),
                Err(Fail::Drop) if o.maps => (),
                Err(e) => return Err(e),
            }
            fields = Some(out);
            "RECORD".into()
        }
    };
    let mode = match &n.ty {
        Ty::Arr(_) | Ty::Map(_) => "REPEATED",
        Ty::Null => "NULLABLE",
        _ if nullable(n, o) => "NULLABLE",
        _ => "REQUIRED",
    };
    let mut m = Map::new();
    if let Some(k) = name {
        m.insert("name".into(), json!(k));
    }
    m.insert("type".into(), json!(ty));
    m.insert("mode".into(), json!(mode));
    if let Some(f) = fields {
        m.insert("fields".into(), Value::Array(f));
    }
    let d = match (&n.title, &n.desc) {
        (Some(t), Some(d)) => Some(format!("{} - {}", t, d)),
        (Some(t), None) => Some(t.clone()),
        (None, Some(d)) => Some(d.clone()),
        (None, None) => None,
    };
    if let Some(d) = d {
        m.insert("description".into(), json!(d.chars().take(1024).collect::<String>()));
    }
    Ok(Value::Object(m))
}

fn path_matches(re: &str, path: &str) -> bool {
    // a match that starts at the beginning of the path, decided without relying on an anchor
    let re = regex::Regex::new(re).unwrap();
    let mut cache = re.find_at(path, 0).map(|m| m.start());
    // leftmost match: if any match starts at 0, the leftmost does
    cache.take() == Some(0)
}

pub fn avro_of(n: &N, o: &Opts) -> Result<Value, Fail> {
    avro_node(n, "root", "", o)
}

pub fn bq_of(n: &N, o: &Opts, q: ArrayOfMap) -> Result<Value, Fail> {
    let mut v = bq_node(n, None, "", o, q)?;
    let repeated = v["mode"] == "REPEATED";
    if v["type"] == "RECORD" && !repeated {
        return Ok(v["fields"].take());
    }
    v["name"] = json!("root");
    Ok(json!([v]))
}

fn effective(s: &Value, o: &Opts) -> Opts {
    let mut o = o.clone();
    if let Some(p) = s.get("mozPipelineMetadata").and_then(|m| m.get("json_object_path_regex")).and_then(Value::as_str) {
        o.path = Some(p.to_string());
    }
    o
}

pub fn expect_q(f: Fmt, s: &Value, o: &Opts, q: ArrayOfMap) -> Result<Value, Fail> {
    let o = effective(s, o);
    let n = infer(s, &o)?;
    match f {
        Fmt::Avro => avro_of(&n, &o),
        Fmt::Bq => bq_of(&n, &o, q),
    }
}

/// The output the model gives for a schema, or why there is none.
pub fn expect(f: Fmt, s: &Value, o: &Opts) -> Result<Value, Fail> {
    expect_q(f, s, o, ArrayOfMap::Flattened)
}

/// Whether nothing is known about the document as a whole, in some configuration.
pub fn ambiguous_root(s: &Value) -> bool {
    [false, true].iter().any(|t| match infer(s, &Opts::cast().tuple(*t)) {
        Ok(n) => matches!(n.ty, Ty::Atom(A::Json)),
        Err(_) => false,
    })
}
