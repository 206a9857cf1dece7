//! C16 every document of the schema fits both outputs. A state is a schema; from it all documents
//! of a small scope are enumerated.
use super::*;
use crate::diff::strip;
use crate::model::{column, ArrayOfMap};
use crate::validate::is_tuple;
use serde_json::Map;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C16", builds: &["std"], families: |t| [options(t, c16::<true>), standard(t, c16::<false>)].into_iter().flatten().collect() }]
}

const CAP: usize = 14;

/// The documents of a schema, in a closed world: an object has the properties that are declared, a
/// tuple is complete unless minItems says otherwise, and "nothing is known" is anything but null.
pub fn documents(s: &Value, o: &Opts) -> Vec<Value> {
    let mut v: Vec<Value> = Vec::new();
    match s.get("type") {
        Some(Value::Array(ts)) => {
            for t in ts {
                v.extend(of_type(t.as_str().unwrap(), s, o, false));
            }
        }
        Some(Value::String(t)) => v.extend(of_type(t, s, o, true)),
        _ => v.extend(of_type("object", s, o, false)),
    }
    dedup(v)
}

fn dedup(v: Vec<Value>) -> Vec<Value> {
    let mut out: Vec<Value> = Vec::new();
    for x in v {
        if !out.contains(&x) && out.len() < CAP {
            out.push(x);
        }
    }
    out
}

fn of_type(t: &str, s: &Value, o: &Opts, explicit: bool) -> Vec<Value> {
    match t {
        "null" => vec![Value::Null],
        "boolean" => vec![json!(true), json!(false)],
        "integer" => vec![json!(0), json!(-7), json!(i64::MAX)],
        "number" => vec![json!(1.5), json!(-2), json!(1e300)],
        "string" => match s.get("format").and_then(Value::as_str) {
            Some("date-time") if explicit => vec![json!("2020-01-01T00:00:00Z")],
            Some("bytes") if explicit => vec![json!("Zm9v")],
            _ => vec![json!("s"), json!("")],
        },
        "object" => object(s, o),
        _ => array(s, o),
    }
}

/// One document per choice: everything as in `base`, except for one part.
fn object(s: &Value, o: &Opts) -> Vec<Value> {
    if let Some(Value::Object(ps)) = s.get("properties") {
        let required: Vec<&str> = s["required"].as_array().map(|r| r.iter().filter_map(Value::as_str).collect()).unwrap_or_default();
        if required.iter().any(|r| !ps.contains_key(*r)) {
            // in a closed world no document has a property that is not declared
            return vec![];
        }
        let parts: Vec<(&String, Vec<Value>)> = ps.iter().map(|(k, x)| (k, documents(x, o))).collect();
        let mut full = Map::new();
        let mut least = Map::new();
        for (k, ds) in &parts {
            if let Some(d) = ds.first() {
                full.insert(k.to_string(), d.clone());
                if required.contains(&k.as_str()) {
                    least.insert(k.to_string(), d.clone());
                }
            } else if required.contains(&k.as_str()) {
                // nothing satisfies this property
                return vec![];
            }
        }
        let mut v = vec![Value::Object(full.clone()), Value::Object(least)];
        for (k, ds) in &parts {
            for d in ds.iter().skip(1) {
                let mut m = full.clone();
                m.insert(k.to_string(), d.clone());
                v.push(Value::Object(m));
            }
            if !required.contains(&k.as_str()) {
                let mut m = full.clone();
                m.remove(k.as_str());
                v.push(Value::Object(m));
            }
        }
        return dedup(v);
    }
    let mut values: Vec<(String, Vec<Value>)> = Vec::new();
    let mut map = false;
    if let Some(a @ Value::Object(_)) = s.get("additionalProperties") {
        map = true;
        // the keys of a map are data
        let ds = documents(a, o);
        for k in ["1-z.Z", "zz", "", "\u{e9} \"\\$"] {
            values.push((k.into(), ds.clone()));
        }
    }
    if let Some(Value::Object(p)) = s.get("patternProperties") {
        map |= !p.is_empty();
        for (i, x) in p.values().enumerate() {
            values.push((format!("p{}", i), documents(x, o)));
        }
    }
    if map {
        let mut v = vec![json!({})];
        let mut full = Map::new();
        for (k, ds) in &values {
            if let Some(d) = ds.first() {
                full.insert(k.clone(), d.clone());
            }
        }
        v.push(Value::Object(full.clone()));
        for (k, ds) in values.iter().filter(|(k, _)| map_key(k)) {
            for d in ds {
                let mut m = full.clone();
                m.insert(k.clone(), d.clone());
                v.push(Value::Object(m));
                v.push(json!({ k.clone(): d }));
            }
        }
        return dedup(v);
    }
    if let Some(Value::Array(xs)) = s.get("oneOf") {
        let mut per: Vec<Vec<Value>> = xs.iter().map(|x| documents(x, o)).collect();
        // round robin, so that no alternative is crowded out by the bound
        let mut v = Vec::new();
        while per.iter().any(|p| !p.is_empty()) {
            for p in per.iter_mut() {
                if !p.is_empty() {
                    v.push(p.remove(0));
                }
            }
        }
        return dedup(v);
    }
    if s.get("type").is_some() {
        vec![json!({}), json!({"q": [1, {"r": null}]})]
    } else {
        vec![json!("x"), json!(1), json!({"q": 1}), json!([1, "x"]), json!(true)]
    }
}

/// The keys that are varied on their own.
fn map_key(k: &str) -> bool {
    k == "1-z.Z" || k.starts_with('p')
}

fn array(s: &Value, o: &Opts) -> Vec<Value> {
    match s.get("items") {
        Some(Value::Array(xs)) => {
            let mut parts: Vec<Vec<Value>> = xs.iter().map(|x| documents(x, o)).collect();
            let min = s["minItems"].as_u64().map_or(xs.len(), |x| x as usize);
            if let (Some(a @ Value::Object(_)), Some(max)) = (s.get("additionalItems"), s["maxItems"].as_u64()) {
                for _ in xs.len()..max as usize {
                    parts.push(documents(a, o));
                }
            }
            let max = s["maxItems"].as_u64().map_or(usize::MAX, |x| x as usize);
            let mut v = Vec::new();
            let k = parts.iter().position(|p| p.is_empty()).unwrap_or(parts.len());
            for len in (min.min(k)..=k).rev() {
                if len < min || len > max {
                    continue;
                }
                let base: Vec<Value> = parts[..len].iter().map(|p| p[0].clone()).collect();
                v.push(json!(base));
                if len == k || len == min {
                    for i in 0..len {
                        for d in parts[i].iter().skip(1) {
                            let mut b = base.clone();
                            b[i] = d.clone();
                            v.push(json!(b));
                        }
                    }
                }
            }
            dedup(v)
        }
        Some(x) => {
            let ds = documents(x, o);
            let mut v = vec![json!([])];
            for d in &ds {
                v.push(json!([d]));
            }
            v.push(json!(ds));
            dedup(v)
        }
        None => vec![json!([]), json!([1, "x", [null]])],
    }
}

struct Fit<'a> {
    o: &'a Opts,
    /// dropped columns are not in the schema
    lenient: bool,
}

type R = Result<(), String>;

impl Fit<'_> {
    fn avro(&self, d: &Value, t: &Value, p: &str) -> R {
        let (n, t) = strip(t).ok_or(format!("{}: not a type", p))?;
        if d.is_null() {
            return if n || t["type"] == "null" { Ok(()) } else { Err(format!("{}: null does not fit {}", p, t["type"])) };
        }
        let no = || Err(format!("{}: {} does not fit {}", p, d, short(t.to_string())));
        match t["type"].as_str() {
            Some("boolean") if d.is_boolean() => Ok(()),
            Some("long") if d.is_i64() => Ok(()),
            Some("double") if d.is_number() => Ok(()),
            // what is not a string is encoded as one
            Some("string") => Ok(()),
            Some("bytes") if d.is_string() => Ok(()),
            Some("array") => {
                let items = &t["items"];
                let wrapper = items["type"] == "record" && items["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list");
                for (i, x) in d.as_array().map_or_else(|| no().map(|_| &[][..]), |a| Ok(&a[..]))?.iter().enumerate() {
                    let p = format!("{}[{}]", p, i);
                    if wrapper && (x.is_array() || x.is_null()) {
                        self.avro(x, &items["fields"][0]["type"], &p)?;
                    } else {
                        self.avro(x, items, &p)?;
                    }
                }
                Ok(())
            }
            Some("map") => match d {
                Value::Object(m) => m.iter().try_for_each(|(k, x)| self.avro(x, &t["values"], &format!("{}{{{}}}", p, k))),
                _ => no(),
            },
            Some("record") => {
                let fields = t["fields"].as_array().unwrap();
                let get = |n: &str| fields.iter().find(|f| f["name"] == n);
                let doc = self.named(d, fields).ok_or_else(|| no().unwrap_err())?;
                for (k, x) in &doc {
                    match get(k) {
                        Some(f) => self.avro(x, &f["type"], &format!("{}.{}", p, k))?,
                        None if self.lenient => (),
                        None => return Err(format!("{}: there is no field {}", p, k)),
                    }
                }
                for f in fields {
                    let n = f["name"].as_str().unwrap();
                    if !doc.contains_key(n) && f.get("default") != Some(&Value::Null) {
                        return Err(format!("{}: the document {} has no {}, which has no default", p, d, n));
                    }
                }
                Ok(())
            }
            _ => no(),
        }
    }

    /// The columns of an object, or of a tuple.
    fn named(&self, d: &Value, fields: &[Value]) -> Option<Map<String, Value>> {
        match d {
            Value::Object(m) => Some(m.iter().filter_map(|(k, x)| column(k, self.o.case).map(|c| (c, x.clone()))).collect()),
            Value::Array(a) => {
                let mut names: Vec<&str> = fields.iter().filter_map(|f| f["name"].as_str()).collect();
                names.sort_by_key(|n| (n.len(), n.to_string()));
                if !is_tuple(&names) {
                    return None;
                }
                Some(a.iter().enumerate().map(|(i, x)| (format!("f{}_", i), x.clone())).collect())
            }
            _ => None,
        }
    }

    fn bq_fields(&self, d: &Value, fields: &[Value], p: &str) -> R {
        let doc = self.named(d, fields).ok_or(format!("{}: {} is not a record", p, d))?;
        for (k, x) in &doc {
            match fields.iter().find(|f| f["name"] == k.as_str()) {
                Some(f) => self.bq(x, f, &format!("{}.{}", p, k))?,
                None if self.lenient => (),
                None => return Err(format!("{}: there is no column {}", p, k)),
            }
        }
        for f in fields {
            if f["mode"] == "REQUIRED" && !doc.contains_key(f["name"].as_str().unwrap()) {
                return Err(format!("{}: the document {} has no {}, which is required", p, d, f["name"]));
            }
        }
        Ok(())
    }

    fn bq(&self, d: &Value, c: &Value, p: &str) -> R {
        if c["mode"] != "REPEATED" {
            if d.is_null() {
                return if c["mode"] == "NULLABLE" { Ok(()) } else { Err(format!("{}: null does not fit a required column", p)) };
            }
            return self.content(d, c, p);
        }
        match d {
            // no elements
            Value::Null => Ok(()),
            // a map
            Value::Object(m) => {
                let f = c["fields"].as_array().ok_or(format!("{}: {} does not fit {}", p, d, c["type"]))?;
                if !f.iter().all(|x| x["name"] == "key" || x["name"] == "value") || f.is_empty() {
                    return Err(format!("{}: {} is not a list of {}", p, d, short(c.to_string())));
                }
                let value = f.iter().find(|x| x["name"] == "value");
                for (k, x) in m {
                    let p = format!("{}{{{}}}", p, k);
                    match value {
                        Some(v) => self.bq(x, v, &p)?,
                        None if self.o.maps => (),
                        None => return Err(format!("{}: no value column", p)),
                    }
                }
                Ok(())
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate().filter(|x| !x.1.is_null()) {
                    let p = format!("{}[{}]", p, i);
                    let list = c["fields"].as_array().filter(|f| f.len() == 1 && f[0]["name"] == "list");
                    match list {
                        Some(f) if x.is_array() => self.bq(x, &f[0], &p)?,
                        Some(f) if x.is_object() && x.get("list").is_none() && f[0]["fields"][0]["name"] == "key" => self.bq(x, &f[0], &p)?,
                        _ => self.content(x, c, &p)?,
                    }
                }
                Ok(())
            }
            _ => Err(format!("{}: {} does not fit a repeated column", p, d)),
        }
    }

    fn content(&self, d: &Value, c: &Value, p: &str) -> R {
        let ok = match c["type"].as_str() {
            Some("BOOL") => d.is_boolean(),
            Some("INT64") => d.is_i64(),
            Some("FLOAT64") => d.is_number(),
            Some("STRING" | "JSON") => true,
            Some("TIMESTAMP" | "BYTES") => d.is_string(),
            Some("RECORD") => return self.bq_fields(d, c["fields"].as_array().map_or(&[], |f| &f[..]), p),
            _ => false,
        };
        if ok {
            Ok(())
        } else {
            Err(format!("{}: {} does not fit {}", p, d, c["type"]))
        }
    }

    fn bq_root(&self, d: &Value, cols: &Value, flat: bool) -> R {
        let cols = cols.as_array().ok_or("no columns".to_string())?;
        if flat {
            self.bq(d, &cols[0], "root")
        } else {
            self.bq_fields(d, cols, "")
        }
    }
}

/// Two properties that become one column cannot both be stored.
pub fn collides(s: &Value, o: &Opts) -> bool {
    let mut hit = false;
    text::map_nodes(s, &mut |m, _| {
        if let Some(Value::Object(p)) = m.get("properties") {
            let c: Vec<String> = p.keys().filter_map(|k| column(k, o.case)).collect();
            let set: std::collections::BTreeSet<&String> = c.iter().collect();
            hit |= set.len() != c.len();
        }
    });
    hit
}

fn c16<const ALL: bool>(s: &Value, l: &mut Local) {
    for o in every::<ALL>(&[Opts::cast().tuple(true), Opts::cast().case(true), Opts::cast().tuple(true).force(true), Opts::new(Res::Drop).tuple(true).maps(true)], &[Res::Cast, Res::Drop]) {
        let (a, b) = (imp::avro(s, &o), imp::bq(s, &o));
        l.ran(2);
        if collides(s, &o) {
            l.count("colliding names");
            continue;
        }
        let ds = documents(s, &o);
        l.outcome(&a.show());
        let fit = Fit { o: &o, lenient: o.res == Res::Drop };
        if let Out::Ok(t) = &a {
            for d in &ds {
                l.compared += 1;
                // a document that is null as a whole is not a record
                if d.is_null() && s.get("properties").is_some() && s.get("type").is_none() {
                    continue;
                }
                if let Err(m) = fit.avro(d, t, "root") {
                    l.violation(&format!("a document does not fit the Avro schema: {}", m), json!({"options": o.json(), "document": d, "schema": s, "avro": t}));
                    break;
                }
            }
        }
        if let Out::Ok(c) = &b {
            // is the document a record of columns, or the value of a single column?
            let flat = match model::infer(s, &o) {
                Ok(n) => !matches!(n.ty, model::Ty::Obj(..) | model::Ty::Tup(_)) || (c.as_array().map_or(false, |c| c.len() == 1 && c[0]["name"] == "root" && c[0]["type"] == "STRING")),
                Err(_) => continue,
            };
            for d in &ds {
                // there is always a row: a null document is a row of nulls
                if d.is_null() && !flat {
                    continue;
                }
                l.compared += 1;
                if let Err(m) = fit.bq_root(d, c, flat) {
                    // Does the document fit if an array of maps keeps its level of nesting?
                    let wrapped = model::expect_q(Fmt::Bq, s, &o, ArrayOfMap::Wrapped);
                    let known = matches!(&wrapped, Ok(w) if w != c && fit.bq_root(d, w, flat).is_ok()) && model::expect(Fmt::Bq, s, &o).ok().as_ref() == Some(c);
                    if known {
                        l.known("bigquery-array-of-maps", || json!({"schema": s, "document": d, "columns": c, "misfit": m}));
                    } else {
                        l.violation(&format!("a document does not fit the BigQuery schema: {}", m), json!({"options": o.json(), "document": d, "schema": s, "columns": c}));
                    }
                    break;
                }
            }
        }
    }
}
