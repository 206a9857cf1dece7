//! C01 totality, C02 strategies, C03/C04 well-formedness, C05 types, C06 nullability, C11
//! correspondence of the formats, C20 force-nullable.
use super::*;
use crate::diff::strip;
use crate::model::Fail;
use crate::validate;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", builds: &["std"], families: |t| [standard(t, c01::<false>), odd(t, c01::<false>), options(t, c01::<true>)].into_iter().flatten().collect() },
        Prop { id: "C02", builds: &["std"], families: |t| [standard(t, c02::<false>), options(t, c02::<true>)].into_iter().flatten().collect() },
        Prop { id: "C03", builds: &["std"], families: |t| [options(t, c03::<true>), standard(t, c03::<false>), names::spaces(t, c03::<false>)].into_iter().flatten().collect() },
        Prop { id: "C04", builds: &["std"], families: |t| [options(t, c04::<true>), standard(t, c04::<false>), names::spaces(t, c04::<false>), text::lengths(t, c04::<false>)].into_iter().flatten().collect() },
        Prop { id: "C05", builds: &["std"], families: |t| [options(t, c05::<true>), standard(t, c05::<false>), vec![family("fixtures", "the translation fixtures of the repository, against the model", fixtures, c05_fixture)]].into_iter().flatten().collect() },
        Prop { id: "C06", builds: &["std"], families: |t| [standard(t, c06::<false>), options(t, c06::<true>)].into_iter().flatten().collect() },
        Prop { id: "C11", builds: &["std"], families: |t| [standard(t, c11::<false>), options(t, c11::<true>)].into_iter().flatten().collect() },
        Prop { id: "C20", builds: &["std"], families: |t| [standard(t, c20::<false>), options(t, c20::<true>)].into_iter().flatten().collect() },
    ]
}

fn viol(l: &mut Local, what: impl ToString, o: &Opts, f: Fmt, detail: Value) {
    l.violation(&what.to_string(), json!({"options": o.json(), "format": format!("{:?}", f), "detail": detail}));
}

/// Some combinations of the flags; or all, and each with and without a JSON path.
fn flags<const ALL: bool>(bits: &[u8]) -> Vec<Opts> {
    if ALL {
        return every::<true>(&[], &[Res::Cast]);
    }
    bits.iter()
        .map(|b| Opts { res: Res::Cast, tuple: b & 1 != 0, case: b & 2 != 0, force: b & 4 != 0, maps: b & 8 != 0, path: None })
        .collect()
}

/// Cast and drop return for every well-formed schema.
fn c01<const ALL: bool>(s: &Value, l: &mut Local) {
    for o in flags::<ALL>(&[0, 1, 3, 15]) {
        for r in [Res::Cast, Res::Drop] {
            let o = o.clone().res(r);
            for f in FMTS {
                let a = imp::conv(f, s, &o);
                l.ran(1);
                l.outcome(&a.show());
                if let Out::Panic(m) = &a {
                    match model::expect(f, s, &o) {
                        Err(Fail::Tuple) if o.tuple => l.count("rejected tuples"),
                        Err(Fail::Drop) if r == Res::Drop => l.count("dropped roots"),
                        _ => viol(l, "the translation aborts", &o, f, json!(m)),
                    }
                }
            }
        }
    }
}

/// Unusual but well-formed inputs.
fn odd(tier: Tier, check: Check) -> Vec<Family> {
    let mut v = names::spaces(tier, check);
    v.push(family("unknown keywords", "25 keywords x 9 payloads x 6 schemas", |e| {
        let kws = ["$ref", "$id", "$schema", "$comment", "definitions", "enum", "const", "default", "examples", "anyOf", "not", "if", "then",
            "minimum", "maximum", "multipleOf", "pattern", "minLength", "uniqueItems", "contains", "dependencies", "propertyNames",
            "mozPipelineMetadata", "readOnly", "x-custom"];
        let payloads = [json!(null), json!(true), json!(1.5), json!("s"), json!([]), json!([{"type": "null"}, 1]), json!({}),
            json!({"type": "object", "properties": {"a": {}}}), json!({"json_object_path_regex": null, "bq_table": "x"})];
        for s in [json!({}), gen::ty("integer"), gen::ty("object"), json!({"type": "array", "items": {"type": "string"}}),
            json!({"type": "object", "properties": {"a": {"type": "integer"}}}), json!({"oneOf": [{"type": "integer"}, {"type": "null"}]})] {
            for k in kws {
                for p in &payloads {
                    e(gen::with(s.clone(), k, p.clone()));
                    e(gen::obj(vec![("a", gen::with(s.clone(), k, p.clone()))], None));
                }
            }
        }
    }, check));
    v.push(family("formats", "string formats, also on other types and type lists", |e| {
        for f in ["date-time", "bytes", "json", "email", "uri", "date", "time", "", "other", "DateTime", "ipv4"] {
            for t in [json!("string"), json!("integer"), json!("object"), json!("array"), json!("null"), json!(["string"]), json!(["string", "null"]), json!(["null", "integer"])] {
                e(json!({"type": t, "format": f}));
                e(gen::obj(vec![("a", json!({"type": t, "format": f}))], Some(vec!["a"])));
            }
            e(json!({ "format": f }));
        }
    }, check));
    v.push(family("tuples", "item lists up to length 2 with every bound", |e| {
        gen::tuples(&[gen::ty("integer"), json!({}), json!({"type": ["string", "null"]})], 2, e)
    }, check));
    v.extend(text::lengths(tier, check));
    v
}

/// The strategies differ only in the ambiguous parts.
fn c02<const ALL: bool>(s: &Value, l: &mut Local) {
    for o in flags::<ALL>(&[1, 13]) {
        for f in FMTS {
            let oc = o.clone();
            let od = o.clone().res(Res::Drop);
            let op = o.clone().res(Res::Panic);
            let (c, d, p) = (imp::conv(f, s, &oc), imp::conv(f, s, &od), imp::conv(f, s, &op));
            l.ran(3);
            let (mc, md, mp) = (model::expect(f, s, &oc), model::expect(f, s, &od), model::expect(f, s, &op));
            l.compared += 3;
            l.outcome(&(c.show(), d.show(), p.is_ok()));
            if matches!(mc, Err(Fail::Tuple)) {
                l.count("rejected tuples");
                continue;
            }
            match (&p, &mp) {
                (Out::Ok(_), Err(_)) => viol(l, "panic does not abort although a part is ambiguous", &op, f, json!(p.show())),
                (Out::Panic(m), Ok(_)) => viol(l, "panic aborts although nothing is ambiguous", &op, f, json!(m)),
                (Out::Ok(x), Ok(_)) => {
                    l.count("unambiguous");
                    if c != p || d != p {
                        viol(l, "nothing is ambiguous but the strategies disagree", &op, f, json!({"panic": x, "cast": c.show(), "drop": d.show()}));
                    }
                    continue;
                }
                _ => l.count("ambiguous"),
            }
            // an ambiguous schema from here on
            match (&c, &mc) {
                (Out::Panic(m), _) => viol(l, "cast aborts", &oc, f, json!(m)),
                (Out::Ok(a), Ok(e)) => {
                    if let Some(x) = diff::diff(f, a, e).iter().find(|d| matches!(d.kind, K::Type | K::Missing | K::Extra)) {
                        viol(l, "cast does not turn exactly the ambiguous parts into strings", &oc, f, json!({"path": x.path, "actual": x.actual, "expected": x.expected}));
                    }
                }
                _ => (),
            }
            match (&d, &md) {
                (Out::Panic(m), Ok(_)) => viol(l, "drop aborts although the root is not ambiguous", &od, f, json!(m)),
                (Out::Ok(a), Err(_)) => viol(l, "drop keeps an ambiguous root", &od, f, a.clone()),
                (Out::Ok(a), Ok(md)) => {
                    if let (Out::Ok(c), Ok(mc)) = (&c, &mc) {
                        let ds = diff::diff(f, a, c);
                        if let Some(x) = ds.iter().find(|x| x.kind != K::Missing) {
                            viol(l, "drop changes something that is not ambiguous", &od, f, json!({"path": x.path, "drop": x.actual, "cast": x.expected}));
                        }
                        let lost: Vec<&String> = ds.iter().map(|x| &x.path).collect();
                        let expect = diff::diff(f, md, mc);
                        let should: Vec<&String> = expect.iter().map(|x| &x.path).collect();
                        if lost != should {
                            viol(l, "drop does not remove exactly the ambiguous parts", &od, f, json!({"removed": lost, "expected": should}));
                        }
                    }
                }
                _ => (),
            }
        }
    }
}

fn c03<const ALL: bool>(s: &Value, l: &mut Local) {
    for r in RES {
        for o in flags::<ALL>(&[0, 1, 2, 5, 15]) {
            let o = o.res(r);
            let a = imp::avro(s, &o);
            l.ran(1);
            if let Out::Ok(v) = &a {
                l.outcome(&v.to_string());
                l.compared += 1;
                if let Err(m) = validate::Avro::check(v) {
                    viol(l, format!("not a valid Avro schema: {}", m), &o, Fmt::Avro, json!(short(v.to_string())));
                }
            } else {
                l.count("no output");
            }
        }
    }
}

fn c04<const ALL: bool>(s: &Value, l: &mut Local) {
    for r in RES {
        for mut o in flags::<ALL>(&[0, 1, 2, 5, 15]) {
            if r == Res::Panic {
                o.path.get_or_insert(".*".into());
            }
            let o = o.res(r);
            let a = imp::bq(s, &o);
            l.ran(1);
            if let Out::Ok(v) = &a {
                l.outcome(&v.to_string());
                l.compared += 1;
                if let Err(m) = validate::bigquery(v) {
                    viol(l, format!("not a valid BigQuery schema: {}", m), &o, Fmt::Bq, json!(short(v.to_string())));
                }
            } else {
                l.count("no output");
            }
        }
    }
}

fn c05<const ALL: bool>(s: &Value, l: &mut Local) {
    const KS: &[K] = &[K::Type, K::Missing, K::Extra, K::Abort, K::NoAbort, K::Other];
    let few = [Opts::cast(), Opts::cast().tuple(true), Opts::cast().tuple(true).case(true), Opts::new(Res::Drop).tuple(true).maps(true), Opts::new(Res::Drop)];
    for o in every::<ALL>(&few, &RES) {
        both(s, &o, KS, l);
    }
    // whatever is not structure does not change the types
    conform(s, Fmt::Bq, &Opts::cast().tuple(true).path("zz"), KS, l);
    both(s, &Opts::cast().tuple(true).force(true), KS, l);
}

fn fixture_dir() -> Vec<Value> {
    let dir = "/repo/tests/resources/translate";
    let mut names: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    names.sort();
    names
        .iter()
        .filter_map(|p| serde_json::from_str(&std::fs::read_to_string(p).ok()?).ok())
        .collect()
}

/// Each fixture, once per format.
fn fixtures(e: &mut dyn FnMut(Value)) {
    for suite in fixture_dir() {
        for t in suite["tests"].as_array().into_iter().flatten() {
            for f in ["avro", "bigquery"] {
                e(json!({"name": t["name"], "format": f, "schema": t["test"]["json"], "context": t["test"]["context"], "expected": t["test"][f]}));
            }
        }
    }
}

/// The model reproduces the fixture (this validates the model, not the code), and the code agrees
/// with the model on the schema of the fixture in every configuration.
fn c05_fixture(c: &Value, l: &mut Local) {
    let (schema, ctx) = (&c["schema"], &c["context"]);
    let f = if c["format"] == "avro" { Fmt::Avro } else { Fmt::Bq };
    let mut o = Opts::cast()
        .tuple(ctx["tuple_struct"] == true)
        .case(ctx["normalize_case"] == true)
        .force(ctx["force_nullable"] == true)
        .maps(ctx["allow_maps_without_value"] == true);
    if let Some(p) = ctx["json_object_path_regex"].as_str() {
        o = o.path(p);
    }
    if !c["expected"].is_object() && !c["expected"].is_array() {
        l.count("fixture without an expected output");
    } else if let Ok(m) = model::expect(f, schema, &o) {
        l.count(if m == c["expected"] { "model reproduces fixture" } else { "model differs from fixture" });
    }
    for o in all_opts(&RES) {
        conform(schema, f, &o, &[K::Type, K::Missing, K::Extra, K::Abort, K::NoAbort, K::Other], l);
    }
}

fn c06<const ALL: bool>(s: &Value, l: &mut Local) {
    let few = [Opts::cast().tuple(true), Opts::cast(), Opts::cast().tuple(true).force(true), Opts::cast().tuple(true).case(true), Opts::new(Res::Drop).tuple(true).maps(true)];
    for o in every::<ALL>(&few, &RES) {
        both(s, &o, &[K::Null, K::Default], l);
    }
}

// ---------------------------------------------------------------- C11

/// null, or a container of which every part is null: dropped by BigQuery, kept by Avro
fn only_null(t: &Value) -> bool {
    let Some((_, t)) = strip(t) else { return false };
    match t["type"].as_str() {
        Some("null") => true,
        Some("array") => only_null(&t["items"]),
        Some("map") => only_null(&t["values"]),
        Some("record") => {
            let names: Vec<&str> = t["fields"].as_array().unwrap().iter().map(|f| f["name"].as_str().unwrap()).collect();
            let mut it = t["fields"].as_array().unwrap().iter();
            if validate::is_tuple(&names) {
                it.any(|f| only_null(&f["type"]))
            } else {
                it.all(|f| only_null(&f["type"]))
            }
        }
        _ => false,
    }
}

struct Corr {
    drop: bool,
    maps: bool,
    known_flat: bool,
}

impl Corr {
    fn fields(&mut self, af: &Value, bf: &Value, path: &str) -> Result<(), String> {
        let af = af.as_array().ok_or(format!("{}: no fields", path))?;
        let bf = bf.as_array().ok_or(format!("{}: no columns", path))?;
        for b in bf {
            let n = b["name"].as_str().unwrap_or("?");
            match af.iter().find(|a| a["name"] == b["name"]) {
                Some(a) => self.col(&a["type"], b, &format!("{}.{}", path, n))?,
                // a map of which only the keys are kept
                None if self.drop && self.maps && contains_key_only_map(b) => (),
                None => return Err(format!("{}.{}: a column of BigQuery that is not a field of Avro", path, n)),
            }
        }
        for a in af {
            if !bf.iter().any(|b| a["name"] == b["name"]) && !(self.drop && only_null(&a["type"])) {
                return Err(format!("{}.{}: a field of Avro that is not a column of BigQuery", path, a["name"]));
            }
        }
        Ok(())
    }

    fn col(&mut self, t: &Value, b: &Value, path: &str) -> Result<(), String> {
        let (nullable, t) = strip(t).ok_or(format!("{}: not a type", path))?;
        let mode = match t["type"].as_str() {
            Some("array" | "map") => "REPEATED",
            Some("null") => "NULLABLE",
            _ if nullable => "NULLABLE",
            _ => "REQUIRED",
        };
        if b["mode"] != mode {
            return Err(format!("{}: mode {} for Avro type {}", path, b["mode"], short(t.to_string())));
        }
        self.content(t, b, path)
    }

    fn content(&mut self, t: &Value, b: &Value, path: &str) -> Result<(), String> {
        let expect = match t["type"].as_str() {
            Some("boolean") => "BOOL",
            Some("long") => "INT64",
            Some("double") => "FLOAT64",
            Some("bytes") => "BYTES",
            Some("null") => "STRING",
            Some("string") => match b["type"].as_str() {
                Some(x @ ("STRING" | "TIMESTAMP" | "JSON")) => return if b.get("fields").is_none() { Ok(()) } else { Err(format!("{}: {} with fields", path, x)) },
                _ => "STRING",
            },
            Some("record") => {
                if b["type"] != "RECORD" {
                    return Err(format!("{}: an Avro record is a {} in BigQuery", path, b["type"]));
                }
                return self.fields(&t["fields"], &b["fields"], path);
            }
            Some("array") => {
                let (_, items) = strip(&t["items"]).ok_or(format!("{}: bad items", path))?;
                if items["type"] == "map" {
                    self.known_flat = true;
                }
                return self.content(items, b, path);
            }
            Some("map") => {
                if b["type"] != "RECORD" {
                    return Err(format!("{}: an Avro map is a {} in BigQuery", path, b["type"]));
                }
                let f = b["fields"].as_array().ok_or(format!("{}: no columns", path))?;
                if f.is_empty() || f[0]["name"] != "key" || f[0]["type"] != "STRING" {
                    return Err(format!("{}: a map without a key column", path));
                }
                return match f.len() {
                    2 if f[1]["name"] == "value" => self.col(&t["values"], &f[1], &format!("{}.value", path)),
                    1 if self.drop && self.maps && only_null(&t["values"]) => Ok(()),
                    _ => Err(format!("{}: a map without a value column", path)),
                };
            }
            x => return Err(format!("{}: unknown type {:?}", path, x)),
        };
        if b["type"] != expect || b.get("fields").is_some() {
            return Err(format!("{}: Avro type {} is {} in BigQuery", path, t["type"], b["type"]));
        }
        Ok(())
    }
}

fn contains_key_only_map(b: &Value) -> bool {
    match b["fields"].as_array() {
        Some(f) if f.len() == 1 && f[0]["name"] == "key" => true,
        Some(f) => f.iter().any(contains_key_only_map),
        None => false,
    }
}

fn c11<const ALL: bool>(s: &Value, l: &mut Local) {
    for r in [Res::Cast, Res::Drop] {
        for o in flags::<ALL>(&[0, 1, 3, 5, 9]) {
            let o = o.res(r);
            if r == Res::Drop && o.path.is_some() {
                // a column that only BigQuery keeps, as JSON
                continue;
            }
            let (a, b) = (imp::avro(s, &o), imp::bq(s, &o));
            l.ran(2);
            l.outcome(&(a.show(), b.show()));
            match (&a, &b) {
                (Out::Ok(a), Out::Ok(b)) => {
                    l.compared += 1;
                    let mut c = Corr { drop: r == Res::Drop, maps: o.maps, known_flat: false };
                    let r = match strip(a) {
                        Some((_, t)) if t["type"] == "record" => c.fields(&t["fields"], b, ""),
                        Some(_) => match b.as_array() {
                            Some(x) if x.len() == 1 && x[0]["name"] == "root" => c.col(a, &x[0], "root"),
                            _ => Err("root: no root column".into()),
                        },
                        None => Err("root: not a type".into()),
                    };
                    if let Err(m) = r {
                        viol(l, format!("Avro and BigQuery disagree: {}", m), &o, Fmt::Bq, json!({"avro": a, "bigquery": b}));
                    }
                }
                (Out::Panic(_), Out::Panic(_)) => l.count("no output"),
                // what remains of the root is null, or a map of keys
                (Out::Ok(a), Out::Panic(_)) if r == Res::Drop && only_null(a) => l.count("null root"),
                (Out::Panic(_), Out::Ok(b)) if r == Res::Drop && o.maps && b.as_array().map_or(false, |b| b.iter().any(contains_key_only_map)) => l.count("key-only root"),
                (a, b) => viol(l, "only one of the formats can be produced", &o, Fmt::Bq, json!({"avro": a.show(), "bigquery": b.show()})),
            }
        }
    }
}

// ---------------------------------------------------------------- C20

fn all_nullable_bq(v: &Value) -> Result<(), String> {
    for c in v.as_array().into_iter().flatten() {
        if c["mode"] == "REQUIRED" {
            return Err(format!("{} is REQUIRED", c["name"]));
        }
        if let Some(f) = c.get("fields") {
            all_nullable_bq(f)?;
        }
    }
    Ok(())
}

fn all_nullable_avro(v: &Value, wrapper: bool, path: &str) -> Result<(), String> {
    let Some((n, t)) = strip(v) else { return Err(format!("{}: not a type", path)) };
    if !n && t["type"] != "null" && !wrapper {
        return Err(format!("{} is not nullable", path));
    }
    match t["type"].as_str() {
        Some("array") => {
            // the record around a nested array is not a column of its own
            let w = t["items"]["type"] == "record" && t["items"]["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list" && f[0].get("default").is_none());
            all_nullable_avro(&t["items"], w, &format!("{}[]", path))
        }
        Some("map") => all_nullable_avro(&t["values"], false, &format!("{}{{}}", path)),
        Some("record") => t["fields"].as_array().unwrap().iter().try_for_each(|f| all_nullable_avro(&f["type"], false, &format!("{}.{}", path, f["name"]))),
        _ => Ok(()),
    }
}

fn c20<const ALL: bool>(s: &Value, l: &mut Local) {
    for r in RES {
        for o in flags::<ALL>(&[1, 3, 8]) {
            let o = o.res(r);
            let of = o.clone().force(true);
            for f in FMTS {
                let (a, b) = (imp::conv(f, s, &o), imp::conv(f, s, &of));
                l.ran(2);
                l.outcome(&b.show());
                match (&a, &b) {
                    (Out::Ok(a), Out::Ok(b)) => {
                        l.compared += 1;
                        for d in diff::diff(f, b, a) {
                            let ok = match (d.kind, f) {
                                (K::Null, Fmt::Bq) => d.actual == "\"NULLABLE\"" && d.expected == "\"REQUIRED\"",
                                (K::Null, Fmt::Avro) => d.actual.starts_with('['),
                                (K::Default, Fmt::Avro) => d.actual == "null",
                                _ => false,
                            };
                            if !ok {
                                viol(l, format!("force-nullable changes more than nullability at {}", d.path), &of, f, json!({"forced": d.actual, "plain": d.expected}));
                                break;
                            }
                        }
                        let all = if f == Fmt::Bq { all_nullable_bq(b) } else { all_nullable_avro(b, false, "root") };
                        if let Err(m) = all {
                            viol(l, format!("force-nullable leaves something required: {}", m), &of, f, b.clone());
                        }
                    }
                    (Out::Panic(_), Out::Panic(_)) => l.count("no output"),
                    _ => viol(l, "force-nullable decides whether there is an output", &of, f, json!({"forced": b.show(), "plain": a.show()})),
                }
            }
        }
    }
}
