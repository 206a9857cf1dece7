//! Well-formedness of the two output formats, from their specifications only (no model involved).
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn ident(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if c.is_ascii_alphabetic() || c == '_') && cs.all(|c| c.is_ascii_alphanumeric() || c == '_')
}

pub struct Avro {
    pub names: BTreeSet<String>,
}

impl Avro {
    pub fn check(v: &Value) -> Result<(), String> {
        Avro { names: BTreeSet::new() }.any(v, "root", "root", None)
    }

    fn any(&mut self, v: &Value, path: &str, full: &str, wrapper: Option<&str>) -> Result<(), String> {
        match v {
            Value::Array(xs) => {
                if xs.len() != 2 || xs[0] != json!({"type": "null"}) {
                    return Err(format!("{}: a union is not [null, type]: {}", path, v));
                }
                if xs[1].is_array() {
                    return Err(format!("{}: a union immediately inside of a union", path));
                }
                if xs[1]["type"] == "null" {
                    return Err(format!("{}: null twice in a union", path));
                }
                self.one(&xs[1], path, full, wrapper)
            }
            _ => self.one(v, path, full, wrapper),
        }
    }

    fn only(v: &Value, path: &str, ks: &[&str]) -> Result<(), String> {
        for k in v.as_object().unwrap().keys() {
            if !ks.contains(&k.as_str()) {
                return Err(format!("{}: unexpected attribute {}", path, k));
            }
        }
        Ok(())
    }

    /// `full`: the full name a record here must have. `wrapper`: the full name of the array this is
    /// the item of, which names the record that wraps a nested array.
    fn one(&mut self, v: &Value, path: &str, full: &str, wrapper: Option<&str>) -> Result<(), String> {
        if !v.is_object() {
            return Err(format!("{}: not a type: {}", path, v));
        }
        match v["type"].as_str() {
            Some("null" | "boolean" | "long" | "double" | "string" | "bytes") => Self::only(v, path, &["type"]),
            Some("array") => {
                Self::only(v, path, &["type", "items"])?;
                let items = v.get("items").ok_or(format!("{}: array without items", path))?;
                if items["type"] == "array" || (items.is_array() && items[1]["type"] == "array") {
                    return Err(format!("{}: an array directly inside of an array", path));
                }
                self.any(items, &format!("{}[]", path), &format!("{}.list", full), Some(full))
            }
            Some("map") => {
                Self::only(v, path, &["type", "values"])?;
                let values = v.get("values").ok_or(format!("{}: map without values", path))?;
                self.any(values, &format!("{}{{}}", path), &format!("{}.value", full), None)
            }
            Some("record") => {
                Self::only(v, path, &["type", "name", "namespace", "fields"])?;
                let name = v["name"].as_str().ok_or(format!("{}: record without a name", path))?;
                if !ident(name) {
                    return Err(format!("{}: invalid record name {:?}", path, name));
                }
                let actual = match v.get("namespace") {
                    None => name.to_string(),
                    Some(Value::String(ns)) => {
                        if !ns.split('.').all(ident) {
                            return Err(format!("{}: invalid namespace {:?}", path, ns));
                        }
                        format!("{}.{}", ns, name)
                    }
                    _ => return Err(format!("{}: namespace is not a string", path)),
                };
                if !self.names.insert(actual.clone()) {
                    return Err(format!("{}: the record name {} is defined twice", path, actual));
                }
                let fields = match v["fields"].as_array() {
                    Some(f) if !f.is_empty() => f,
                    _ => return Err(format!("{}: record without fields", path)),
                };
                let wraps = wrapper == Some(actual.as_str());
                if !wraps && actual != full {
                    return Err(format!("{}: record is named {}, expected {}", path, actual, full));
                }
                if wraps && (fields.len() != 1 || fields[0]["name"] != "list") {
                    return Err(format!("{}: {} wraps a nested array but is not a record of list", path, actual));
                }
                let mut seen = BTreeSet::new();
                for f in fields {
                    let n = f["name"].as_str().ok_or(format!("{}: field without a name", path))?;
                    let p = format!("{}.{}", path, n);
                    if !ident(n) {
                        return Err(format!("{}: invalid field name", p));
                    }
                    if !seen.insert(n) {
                        return Err(format!("{}: field defined twice", p));
                    }
                    Self::only(f, &p, &["name", "type", "default"])?;
                    let t = f.get("type").ok_or(format!("{}: field without a type", p))?;
                    let nullable = t.is_array() || t["type"] == "null";
                    match f.get("default") {
                        Some(Value::Null) if nullable => (),
                        Some(d) => return Err(format!("{}: default {} does not fit the first type", p, d)),
                        None if nullable && !wraps => return Err(format!("{}: nullable without a default", p)),
                        None => (),
                    }
                    if wraps {
                        // the nested array, whose own items are one level further down
                        self.any(t, &p, &format!("{}.list", actual), None)?;
                    } else {
                        self.any(t, &p, &format!("{}.{}", actual, n), None)?;
                    }
                }
                let names: Vec<&str> = fields.iter().filter_map(|f| f["name"].as_str()).collect();
                if names.windows(2).any(|w| w[0] > w[1]) && !is_tuple(&names) {
                    return Err(format!("{}: fields are not sorted: {:?}", path, names));
                }
                Ok(())
            }
            t => Err(format!("{}: unknown type {:?}", path, t)),
        }
    }
}

/// f0_, f1_, ... in order of position
pub fn is_tuple(names: &[&str]) -> bool {
    names.iter().enumerate().all(|(i, n)| *n == format!("f{}_", i))
}

pub fn bigquery(v: &Value) -> Result<(), String> {
    let cols = v.as_array().ok_or("not an array of columns".to_string())?;
    bq_fields(cols, "")
}

fn bq_fields(cols: &[Value], path: &str) -> Result<(), String> {
    if cols.is_empty() {
        return Err(format!("{}: a record without columns", path));
    }
    let mut last: Option<&str> = None;
    for c in cols {
        let n = c.get("name").and_then(Value::as_str).ok_or(format!("{}: a column without a name: {}", path, c))?;
        let p = format!("{}.{}", path, n);
        if !ident(n) {
            return Err(format!("{}: invalid column name", p));
        }
        if let Some(l) = last {
            if l == n {
                return Err(format!("{}: column defined twice", p));
            }
            if l > n {
                return Err(format!("{}: columns are not sorted", p));
            }
        }
        last = Some(n);
        for k in c.as_object().unwrap().keys() {
            if !["name", "type", "mode", "fields", "description"].contains(&k.as_str()) {
                return Err(format!("{}: unexpected attribute {}", p, k));
            }
        }
        match c["mode"].as_str() {
            Some("NULLABLE" | "REQUIRED" | "REPEATED") => (),
            m => return Err(format!("{}: invalid mode {:?}", p, m)),
        }
        if let Some(d) = c.get("description") {
            let d = d.as_str().ok_or(format!("{}: description is not a string", p))?;
            if d.chars().count() > 1024 {
                return Err(format!("{}: description of {} characters", p, d.chars().count()));
            }
        }
        match (c["type"].as_str(), c.get("fields")) {
            (Some("RECORD"), Some(Value::Array(f))) => bq_fields(f, &p)?,
            (Some("INT64" | "FLOAT64" | "BOOL" | "STRING" | "BYTES" | "TIMESTAMP" | "JSON"), None) => (),
            (t, f) => return Err(format!("{}: invalid type {:?} with fields {:?}", p, t, f)),
        }
    }
    Ok(())
}
