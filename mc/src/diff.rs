//! Structural difference of two outputs of the same format, classified by what differs, so that a
//! property judges only what it is about.
use crate::imp::{Fmt, Out};
use crate::model::Fail;
use serde_json::Value;
use std::collections::BTreeSet;

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    /// the code aborts where an output is expected
    Abort,
    /// the code gives an output where it should abort
    NoAbort,
    /// type or structure
    Type,
    /// nullability of an Avro type, or the mode of a BigQuery column
    Null,
    /// default of an Avro field
    Default,
    Missing,
    Extra,
    Order,
    /// record name or namespace
    Naming,
    Desc,
    /// anything else: an attribute nobody expects
    Other,
}
pub const ALL: &[K] = &[
    K::Abort, K::NoAbort, K::Type, K::Null, K::Default, K::Missing, K::Extra, K::Order, K::Naming, K::Desc, K::Other,
];

#[derive(Clone, Debug)]
pub struct D {
    pub kind: K,
    pub path: String,
    pub actual: String,
    pub expected: String,
}

type Ds = Vec<D>;
fn push(ds: &mut Ds, kind: K, path: &str, a: impl ToString, e: impl ToString) {
    ds.push(D { kind, path: path.to_string(), actual: a.to_string(), expected: e.to_string() });
}

pub fn strip(v: &Value) -> Option<(bool, &Value)> {
    match v {
        Value::Array(xs) if xs.len() == 2 && xs[0] == serde_json::json!({"type": "null"}) && xs[1].is_object() => {
            Some((true, &xs[1]))
        }
        Value::Object(_) => Some((false, v)),
        _ => None,
    }
}

fn keys(ds: &mut Ds, path: &str, a: &Value, e: &Value, seen: &[&str], kind_of: fn(&str) -> K) {
    let empty = serde_json::Map::new();
    let ka: BTreeSet<&String> = a.as_object().unwrap_or(&empty).keys().collect();
    let ke: BTreeSet<&String> = e.as_object().unwrap_or(&empty).keys().collect();
    for k in ka.union(&ke) {
        if !seen.contains(&k.as_str()) && a.get(k.as_str()) != e.get(k.as_str()) {
            push(ds, kind_of(k), &format!("{}@{}", path, k), a.get(k.as_str()).unwrap_or(&Value::Null), e.get(k.as_str()).unwrap_or(&Value::Null));
        }
    }
}

fn kind(k: &str) -> K {
    match k {
        "doc" | "description" => K::Desc,
        "name" | "namespace" => K::Naming,
        "default" => K::Default,
        _ => K::Other,
    }
}

fn by_name<'a>(ds: &mut Ds, path: &str, a: &'a Value, e: &'a Value) -> Vec<(String, &'a Value, &'a Value)> {
    let names = |v: &Value| -> Vec<String> {
        v.as_array()
            .map(|xs| xs.iter().map(|x| x["name"].as_str().unwrap_or("<unnamed>").to_string()).collect())
            .unwrap_or_default()
    };
    let (na, ne) = (names(a), names(e));
    let mut both = Vec::new();
    for (i, n) in na.iter().enumerate() {
        if let Some(j) = ne.iter().position(|m| m == n) {
            both.push((n.clone(), &a[i], &e[j]));
        } else {
            push(ds, K::Extra, &format!("{}.{}", path, n), &a[i], "");
        }
    }
    for (j, n) in ne.iter().enumerate() {
        if !na.contains(n) {
            push(ds, K::Missing, &format!("{}.{}", path, n), "", &e[j]);
        }
    }
    let (sa, se): (BTreeSet<_>, BTreeSet<_>) = (na.iter().collect(), ne.iter().collect());
    if sa == se && na != ne {
        push(ds, K::Order, path, format!("{:?}", na), format!("{:?}", ne));
    }
    both
}

pub fn avro(a: &Value, e: &Value, path: &str, ds: &mut Ds) {
    let (Some((an, at)), Some((en, et))) = (strip(a), strip(e)) else {
        if a != e {
            push(ds, K::Type, path, a, e);
        }
        return;
    };
    if an != en {
        push(ds, K::Null, path, a, e);
    }
    if at["type"] != et["type"] {
        push(ds, K::Type, path, at, et);
        return;
    }
    match at["type"].as_str() {
        Some("record") => {
            keys(ds, path, at, et, &["type", "fields"], kind);
            for (n, x, y) in by_name(ds, path, &at["fields"], &et["fields"]) {
                let p = format!("{}.{}", path, n);
                keys(ds, &p, x, y, &["type"], kind);
                avro(&x["type"], &y["type"], &p, ds);
            }
        }
        Some("array") => {
            keys(ds, path, at, et, &["type", "items"], kind);
            avro(&at["items"], &et["items"], &format!("{}[]", path), ds);
        }
        Some("map") => {
            keys(ds, path, at, et, &["type", "values"], kind);
            avro(&at["values"], &et["values"], &format!("{}{{}}", path), ds);
        }
        _ => keys(ds, path, at, et, &["type"], kind),
    }
}

pub fn bq_cols(a: &Value, e: &Value, path: &str, ds: &mut Ds) {
    if a.is_array() != e.is_array() {
        push(ds, K::Type, path, a, e);
        return;
    }
    for (n, x, y) in by_name(ds, path, a, e) {
        let p = format!("{}.{}", path, n);
        if x["mode"] != y["mode"] {
            push(ds, K::Null, &p, &x["mode"], &y["mode"]);
        }
        keys(ds, &p, x, y, &["type", "mode", "fields"], kind);
        if x["type"] != y["type"] {
            push(ds, K::Type, &p, x, y);
        } else if x.get("fields").is_some() || y.get("fields").is_some() {
            bq_cols(&x["fields"], &y["fields"], &p, ds);
        }
    }
}

pub fn diff(f: Fmt, a: &Value, e: &Value) -> Ds {
    let mut ds = Vec::new();
    if a != e {
        match f {
            Fmt::Avro => avro(a, e, "root", &mut ds),
            Fmt::Bq => bq_cols(a, e, "", &mut ds),
        }
        if ds.is_empty() {
            push(&mut ds, K::Other, "", a, e);
        }
    }
    ds
}

pub fn diff_out(f: Fmt, a: &Out, e: &Result<Value, Fail>) -> Ds {
    let mut ds = Vec::new();
    match (a, e) {
        (Out::Ok(a), Ok(e)) => return diff(f, a, e),
        (Out::Panic(m), Ok(e)) => push(&mut ds, K::Abort, "", m, e),
        (Out::Ok(a), Err(x)) => push(&mut ds, K::NoAbort, "", a, format!("{:?}", x)),
        (Out::Panic(_), Err(_)) => (),
    }
    ds
}
