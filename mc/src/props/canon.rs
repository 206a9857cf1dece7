//! C25 the canonical form of the outputs: the order of columns, the names of records, no attribute
//! that is not part of the format's columns. C26 options are orthogonal. Both are structural: the
//! first looks at single outputs, the second relates two executions of the code.
use super::*;
use crate::diff::strip;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C25", builds: &["std"], families: |t| [standard(t, c25::<false>), options(t, c25::<true>), names::spaces(t, c25::<false>), vec![paths(t)]].into_iter().flatten().collect() },
        Prop { id: "C26", builds: &["std"], families: |t| [standard(t, c26::<false>), options(t, c26::<true>), vec![odd_names(t), long_names(t), path_names(t)]].into_iter().flatten().collect() },
    ]
}

// ---------------------------------------------------------------- C25

fn name_of(c: &Value) -> &str {
    c["name"].as_str().unwrap_or("?")
}

fn increasing(v: &[Value]) -> bool {
    v.windows(2).all(|w| name_of(&w[0]) < name_of(&w[1]))
}

fn by_position(v: &[Value]) -> bool {
    v.iter().enumerate().all(|(i, c)| name_of(c) == format!("f{}_", i))
}

fn only(v: &Value, keys: &[&str]) -> Option<String> {
    v.as_object()?.keys().find(|k| !keys.contains(&k.as_str())).cloned()
}

#[derive(Copy, Clone, PartialEq)]
enum Tuples {
    Never,
    Always,
    /// or objects with properties that are called like the items of a tuple
    Or,
}

/// Whether the names are those of all items of a tuple, in any order.
fn tuple_names(v: &[Value]) -> bool {
    let mut n: Vec<&str> = v.iter().map(name_of).collect();
    n.sort();
    let mut e: Vec<String> = (0..v.len()).map(|i| format!("f{}_", i)).collect();
    e.sort();
    n == e
}

/// What is not canonical in an Avro type that is called `name` in `ns`.
fn avro_form(v: &Value, name: &str, ns: &str, tuple: Tuples) -> Result<(), String> {
    let full = if ns.is_empty() { name.to_string() } else { format!("{}.{}", ns, name) };
    let Some((_, t)) = strip(v) else { return Err(format!("{}: neither a type nor a union of null and a type: {}", full, v)) };
    let attributes: &[&str] = match t["type"].as_str() {
        Some("record") => &["type", "name", "namespace", "fields"],
        Some("array") => &["type", "items"],
        Some("map") => &["type", "values"],
        _ => &["type"],
    };
    if let Some(k) = only(t, attributes) {
        return Err(format!("{}: has an attribute {}", full, k));
    }
    match t["type"].as_str() {
        Some("record") => {
            if t["name"] != name || t.get("namespace").and_then(Value::as_str).unwrap_or("") != ns {
                return Err(format!("{}: the record is called {:?} in {:?}", full, t["name"], t.get("namespace")));
            }
            let fs = t["fields"].as_array().ok_or("no fields")?;
            // the items of a tuple are in their positions; an object may have properties of these names
            let fine = match tuple {
                Tuples::Never => increasing(fs),
                Tuples::Always if tuple_names(fs) => by_position(fs),
                Tuples::Always => increasing(fs),
                Tuples::Or => increasing(fs) || by_position(fs),
            };
            if !fine {
                return Err(format!("{}: the order of the fields is {:?}", full, fs.iter().map(name_of).collect::<Vec<_>>()));
            }
            for f in fs {
                if let Some(k) = only(f, &["name", "type", "default"]) {
                    return Err(format!("{}: a field has an attribute {}", full, k));
                }
                // the record around the items of an array of arrays stands for the array
                avro_form(&f["type"], name_of(f), &full, tuple)?;
            }
            Ok(())
        }
        Some("array") => {
            let inner = &t["items"];
            // an array in an array is wrapped in a record that has the name of the outer one
            if let Some((false, r)) = strip(inner) {
                if r["type"] == "record" && r["name"] == name && r.get("namespace").and_then(Value::as_str).unwrap_or("") == ns && r["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list" && strip(&f[0]["type"]).map_or(false, |x| x.1["type"] == "array")) {
                    return avro_form(inner, name, ns, tuple);
                }
            }
            avro_form(inner, "list", &full, tuple)
        }
        Some("map") => avro_form(&t["values"], "value", &full, tuple),
        _ => Ok(()),
    }
}

fn bq_form(v: &Value, path: &str) -> Result<(), String> {
    let cs = v.as_array().ok_or(format!("{}: no list of columns", path))?;
    if !increasing(cs) {
        return Err(format!("{}: the order of the columns is {:?}", path, cs.iter().map(name_of).collect::<Vec<_>>()));
    }
    for c in cs {
        let p = format!("{}.{}", path, name_of(c));
        if let Some(k) = only(c, &["name", "type", "mode", "fields", "description"]) {
            return Err(format!("{}: has an attribute {}", p, k));
        }
        if let Some(f) = c.get("fields") {
            bq_form(f, &p)?;
        }
    }
    Ok(())
}

fn c25<const ALL: bool>(s: &Value, l: &mut Local) {
    let own = s.to_string().contains("\"f10_\"");
    for o in every::<ALL>(&[Opts::cast().tuple(true), Opts::new(Res::Drop).case(true), Opts::new(Res::Drop).tuple(true).force(true)], &[Res::Cast, Res::Drop]) {
        for f in FMTS {
            let a = imp::conv(f, s, &o);
            l.ran(1);
            l.outcome(&a.show());
            let Out::Ok(v) = a else { continue };
            l.compared += 1;
            let r = match f {
                Fmt::Avro => avro_form(&v, "root", "", if !o.tuple { Tuples::Never } else if own { Tuples::Or } else { Tuples::Always }),
                Fmt::Bq => bq_form(&v, ""),
            };
            if let Err(m) = r {
                l.violation("the output is not in the canonical form", json!({"options": o.json(), "format": format!("{:?}", f), "what": short(m), "output": short(v.to_string())}));
            }
        }
    }
}

/// Chains of containers whose names matter: the names the translation itself uses, at every level.
fn paths(t: Tier) -> Family {
    family("own names", "chains of up to 3 containers around properties with the names the translation itself uses", move |e| {
        let names = ["list", "value", "key", "root", "f0_", "f10_", "f2_", "a"];
        fn go(names: &[&str], left: usize, x: Value, e: &mut dyn FnMut(Value)) {
            e(x.clone());
            if left == 0 {
                return;
            }
            for n in names {
                go(names, left - 1, json!({"type": "object", "properties": {*n: x}}), e);
                go(names, left - 1, json!({"type": "object", "properties": {*n: x, "f2_": {"type": "integer"}, "f10_": {"type": "object", "properties": {"list": {"type": "null"}}}}}), e);
            }
            go(names, left - 1, json!({"type": "array", "items": x}), e);
            go(names, left - 1, json!({"type": "object", "additionalProperties": x}), e);
            go(names, left - 1, json!({"oneOf": [x, {"type": "null"}]}), e);
            go(names, left - 1, json!({"type": "array", "items": [{"type": "integer"}, x], "maxItems": 2}), e);
        }
        for leaf in [json!({"type": "object", "properties": {"list": {"type": "integer"}, "value": {}}}), json!({"type": "array", "items": {"type": "array", "items": {"type": "object", "properties": {"b": {"type": "string"}}}}})] {
            go(&names[..t.pick(5, 8)], 3, leaf, e);
        }
        // many fields: positions and names have different orders
        for n in [9, 10, 11, 12, 20, 21, 100, 101, 102, 200] {
            e(json!({"type": "array", "items": vec![json!({"type": "integer"}); n], "maxItems": n}));
            e(json!({"type": "object", "properties": {"t": {"type": "array", "items": [{"type": "object", "properties": {"a": {"type": "integer"}}}], "additionalItems": {"type": "string"}, "maxItems": n}}}));
            e(json!({"type": "object", "properties": (0..n).map(|i| (format!("f{}_", i), json!({"type": "integer"}))).collect::<serde_json::Map<_, _>>()}));
            e(json!({"type": "object", "properties": (0..n).map(|i| (format!("{}{}", ["a", "B", "_", "Z"][i % 4], i), json!({"type": "integer"}))).collect::<serde_json::Map<_, _>>()}));
        }
    }, c25::<false>)
}

// ---------------------------------------------------------------- C26

/// Every object of the schema with its properties renamed as the case option promises; None if two
/// of them would have one name or one would have none.
fn renamed(s: &Value) -> Option<Value> {
    fn name(k: &str) -> Option<String> {
        let n = model::column(k, true)?;
        (model::column(&n, false)? == n && model::column(&n, true)? == n).then_some(n)
    }
    Some(match s {
        Value::Array(v) => Value::Array(v.iter().map(renamed).collect::<Option<_>>()?),
        Value::Object(m) => {
            let mut out = serde_json::Map::new();
            for (k, v) in m {
                let w = match (k.as_str(), v) {
                    ("properties", Value::Object(p)) => {
                        let mut q = serde_json::Map::new();
                        for (n, x) in p {
                            if q.insert(name(n)?, renamed(x)?).is_some() {
                                return None;
                            }
                        }
                        Value::Object(q)
                    }
                    ("required", Value::Array(r)) => Value::Array(r.iter().map(|x| x.as_str().and_then(name).map(Value::String)).collect::<Option<_>>()?),
                    ("patternProperties", Value::Object(p)) => Value::Object(p.iter().map(|(n, x)| Some((n.clone(), renamed(x)?))).collect::<Option<_>>()?),
                    ("items" | "additionalProperties" | "additionalItems" | "oneOf", v) => renamed(v)?,
                    (_, v) => v.clone(),
                };
                out.insert(k.clone(), w);
            }
            Value::Object(out)
        }
        v => v.clone(),
    })
}

fn has_tuple(s: &Value) -> bool {
    match s {
        Value::Array(v) => v.iter().any(has_tuple),
        Value::Object(m) => m.get("items").map_or(false, Value::is_array) || m.values().any(has_tuple),
        _ => false,
    }
}

fn tuple_fields(fs: &Value) -> bool {
    fs.as_array().map_or(false, |v| !v.is_empty() && v.iter().all(|c| name_of(c).strip_prefix('f').and_then(|x| x.strip_suffix('_')).map_or(false, |x| x.parse::<usize>().is_ok())))
}

/// Alternatives that were incompatible for want of the type of a tuple may have a type then (`merge`).
/// `on` is `off` with strings (or JSON) replaced by records of tuple items and, if columns may be missing, more columns.
fn tuples_only(f: Fmt, off: &Value, on: &Value, more: bool, merge: bool) -> Result<(), String> {
    fn columns(f: Fmt, a: &Value, b: &Value, more: bool, merge: bool) -> Result<(), String> {
        let (x, y) = (a.as_array().ok_or("no list")?, b.as_array().ok_or("no list")?);
        for c in x {
            let Some(d) = y.iter().find(|d| d["name"] == c["name"]) else {
                // a JSON path keeps what is dropped if it is a tuple with an item that is dropped
                if more && c.to_string().contains("\"JSON\"") {
                    continue;
                }
                return Err(format!("column {} is lost", name_of(c)));
            };
            match f {
                Fmt::Avro => {
                    if c.get("default") != d.get("default") {
                        return Err(format!("the default of {}", name_of(c)));
                    }
                    avro(&c["type"], &d["type"], more, merge)?
                }
                Fmt::Bq => bq(c, d, more, merge)?,
            }
        }
        if !more && x.len() != y.len() {
            return Err("there are more columns".into());
        }
        Ok(())
    }
    fn avro(a: &Value, b: &Value, more: bool, merge: bool) -> Result<(), String> {
        let (Some((n, x)), Some((m, y))) = (strip(a), strip(b)) else { return Err("no type".into()) };
        if n != m {
            return Err(format!("nullability: {} and {}", a, b));
        }
        match (x["type"].as_str().unwrap_or("?"), y["type"].as_str().unwrap_or("?")) {
            ("string", t) if t != "string" && (merge || tuple_fields(&y["fields"])) => Ok(()),
            (s, t) if s != t => Err(format!("{} and {}", s, t)),
            ("record", _) if x["name"] != y["name"] || x.get("namespace") != y.get("namespace") => Err("the name of a record".into()),
            ("record", _) => columns(Fmt::Avro, &x["fields"], &y["fields"], more, merge),
            ("array", _) => avro(&x["items"], &y["items"], more, merge),
            ("map", _) => avro(&x["values"], &y["values"], more, merge),
            _ => Ok(()),
        }
    }
    fn bq(a: &Value, b: &Value, more: bool, merge: bool) -> Result<(), String> {
        if a["mode"] != b["mode"] || a.get("description") != b.get("description") || a["name"] != b["name"] {
            return Err(format!("mode or description: {} and {}", a, b));
        }
        match (a["type"].as_str().unwrap_or("?"), b["type"].as_str().unwrap_or("?")) {
            ("STRING" | "JSON", t) if !["STRING", "JSON"].contains(&t) && (merge || tuple_fields(&b["fields"])) => Ok(()),
            (s, t) if s != t => Err(format!("{} and {}", s, t)),
            ("RECORD", _) => columns(Fmt::Bq, &a["fields"], &b["fields"], more, merge),
            _ => Ok(()),
        }
    }
    match f {
        Fmt::Avro => avro(off, on, more, merge),
        // a tuple at the root has its items as columns
        Fmt::Bq if (merge || tuple_fields(on)) && off.as_array().map_or(false, |v| v.len() == 1 && v[0]["name"] == "root") => Ok(()),
        Fmt::Bq => columns(f, off, on, more, merge),
    }
}

/// The columns of `v` without the maps that have no value, and without what only they made possible.
fn prune(v: &Value) -> Vec<Value> {
    let mut out = Vec::new();
    for c in v.as_array().map_or(&[][..], |v| v) {
        let mut c = c.clone();
        if let Some(fs) = c.get("fields") {
            let map = fs.as_array().map_or(false, |f| !f.is_empty() && f.iter().all(|x| x["name"] == "key" || x["name"] == "value") && f[0]["name"] == "key");
            let p = prune(fs);
            let n = fs.as_array().map_or(0, Vec::len);
            if p.is_empty() || map && p.len() < 2 || tuple_fields(fs) && p.len() < n {
                continue;
            }
            c["fields"] = Value::Array(p);
        }
        out.push(c);
    }
    out
}

/// With the case option, `s` is translated like `r`, the same schema with its properties renamed.
fn case_renames(s: &Value, r: &Value, f: Fmt, o: &Opts, base: &Out, l: &mut Local) {
    let on = imp::conv(f, s, &o.clone().case(true));
    l.ran(1);
    l.compared += 1;
    let (a, b) = if r == s {
        (base.clone(), on.clone())
    } else {
        l.ran(2);
        l.compared += 1;
        (imp::conv(f, r, o), imp::conv(f, r, &o.clone().case(true)))
    };
    if a.ok() != on.ok() || a.ok() != b.ok() {
        let with = if a.ok() != on.ok() { &on } else { &b };
        l.violation("the case option is not the renaming of the properties", json!({"options": o.json(), "format": format!("{:?}", f), "difference": short(r.to_string()), "without": short(a.show()), "with": short(with.show())}));
    }
}

/// Paths of JSON columns are matched against the names of the columns.
fn c26_paths(s: &Value, l: &mut Local) {
    let Some(r) = renamed(s) else { return };
    for p in ["ab", "a_b", "aB", "a.*", "a-b", "ab.ab", "a_b.a_b", "aB.aB", "[a-z_]*", ".*_b", ".*[A-Z].*"] {
        for res in [Res::Cast, Res::Drop] {
            let o = Opts::new(res).path(p);
            for f in FMTS {
                let base = imp::conv(f, s, &o);
                l.ran(1);
                l.outcome(&base.show());
                case_renames(s, &r, f, &o, &base, l);
            }
        }
    }
}

fn c26<const ALL: bool>(s: &Value, l: &mut Local) {
    let text = s.to_string();
    let tuple = has_tuple(s);
    let small = renamed(s);
    let words = text.contains("\"key\"") || text.contains("\"value\"") || text.contains("\"f0_\"") || text.contains("mozPipelineMetadata");
    for o in every::<ALL>(&[Opts::cast(), Opts::new(Res::Drop).tuple(true)], &RES) {
        for f in FMTS {
            let bad = |what: &str, m: String, a: &Out, b: &Out, l: &mut Local| {
                l.violation(what, json!({"options": o.json(), "format": format!("{:?}", f), "difference": short(m), "without": short(a.show()), "with": short(b.show())}));
            };
            let base = imp::conv(f, s, &o);
            l.ran(1);
            l.outcome(&base.show());
            // tuples
            if !o.tuple {
                let on = imp::conv(f, s, &o.clone().tuple(true));
                l.ran(1);
                l.compared += 1;
                match (&base, &on) {
                    (a, b) if !tuple => {
                        if a.ok() != b.ok() {
                            bad("the tuple option changes the translation of a schema without tuples", String::new(), a, b, l)
                        }
                    }
                    (Out::Ok(a), Out::Ok(b)) => {
                        if let Err(m) = tuples_only(f, a, b, o.res == Res::Drop, text.contains("\"oneOf\"") || text.contains("\"patternProperties\"") || text.contains("\"type\":[")) {
                            bad("the tuple option changes more than the tuples", m, &base, &on, l)
                        }
                    }
                    // a tuple of unbounded length is refused; the root may be a tuple
                    _ => (),
                }
            }
            // case
            if let (false, Some(r)) = (o.case, &small) {
                case_renames(s, r, f, &o, &base, l);
            }
            // maps without a value
            if !o.maps {
                let on = imp::conv(f, s, &o.clone().maps(true));
                l.ran(1);
                l.compared += 1;
                if f == Fmt::Avro || o.res != Res::Drop {
                    if base.ok() != on.ok() {
                        bad("the option for maps changes more than dropped values in BigQuery", String::new(), &base, &on, l);
                    }
                } else if !words {
                    // the columns of the root are those of a record (or of a map, or of a tuple)
                    let mut p: Vec<Value> = on.ok().map_or(vec![], |v| prune(&json!([{"name": "", "fields": v}])));
                    p = p.first().and_then(|c| c["fields"].as_array().cloned()).unwrap_or_default();
                    let a = base.ok().and_then(Value::as_array).cloned().unwrap_or_default();
                    if a != p {
                        bad("the option for maps changes more than maps without a value", Value::Array(p).to_string(), &base, &on, l);
                    }
                }
            }
        }
    }
}

fn long_names(t: Tier) -> Family {
    family("long names", "properties with names of 1 to 70 characters of every shape, required or not, alone and nested", move |e| {
        for n in 1..=70usize {
            for word in ["a", "A", "aB", "ab_", "a-b.", "a1", "Abc", "ABc", "1a", "_a", "camelCase", "abcdefgh"] {
                let name: String = word.chars().cycle().take(n).collect();
                for req in [json!([]), json!([name])] {
                    let o = |x: Value| json!({"type": "object", "properties": {name.clone(): x}, "required": req});
                    e(o(json!({"type": "integer"})));
                    e(o(o(json!({"type": ["string", "null"]}))));
                    if t.thorough() {
                        e(o(json!({"type": "array", "items": o(json!({"type": "object", "additionalProperties": o(json!({}))}))})));
                        e(json!({"oneOf": [o(json!({"type": "integer"})), o(json!({"type": "number"}))]}));
                    }
                }
            }
        }
    }, c26::<false>)
}

fn path_names(t: Tier) -> Family {
    family("names and JSON paths", "one or two properties whose names differ in case and in separators, nested, under eleven JSON paths and the case option", move |e| {
        let ns = ["ab", "a_b", "aB", "AB", "a-b", "a.b", "a", "Ab", "a__b"];
        for n in ns {
            for m in ns {
                let o = |k: &str, x: Value| json!({"type": "object", "properties": {k: x, "z": {"type": "integer"}}, "required": [k]});
                e(json!({"type": "object", "properties": {n: {"type": "integer"}, m: {"type": "object"}}}));
                for leaf in [json!({"type": "string"}), json!({}), json!({"type": "object", "additionalProperties": {"type": "integer"}})] {
                    e(o(n, o(m, leaf.clone())));
                    if t.thorough() {
                        e(o(n, json!({"type": "array", "items": o(m, leaf.clone())})));
                        e(json!({"oneOf": [o(n, leaf.clone()), o(n, o(m, leaf.clone()))]}));
                    }
                }
            }
        }
    }, c26_paths)
}

fn odd_names(t: Tier) -> Family {
    family("names", "pairs of property names under the case option, alone, nested, in arrays and maps", move |e| {
        let ns = names::interesting();
        for n in &ns {
            for m in &ns {
                if n < m {
                    let o = |x: Value| json!({"type": "object", "properties": {*n: x, *m: {"type": "integer"}}, "required": [n]});
                    e(o(o(json!({"type": "string"}))));
                    if t.thorough() {
                        e(o(json!({"type": "array", "items": o(json!({"type": ["object", "null"], "additionalProperties": o(json!({}))}))})));
                    }
                    e(json!({"oneOf": [o(json!({"type": "integer"})), o(json!({"type": "number"})), {"type": "null"}]}));
                }
            }
        }
    }, c26::<false>)
}
