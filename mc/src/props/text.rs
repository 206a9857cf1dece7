//! C14 descriptions, and neutrality of keywords that carry no structure.
use super::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C14", builds: &["std"], families: c14_families }]
}

fn text(kind: usize, n: usize) -> String {
    let unit = ["d", "é", "\u{1F600}", "a \"\\\n", "e\u{301}", "中 "][kind];
    unit.chars().cycle().take(n).collect()
}

/// Titles and descriptions around the limit of 1024 characters.
pub fn lengths(tier: Tier, check: Check) -> Vec<Family> {
    vec![family("text lengths", "title x description lengths around the limit, six kinds of characters, eight positions", move |e| {
        let ts = tier.pick(vec![None, Some(0usize), Some(1), Some(509), Some(1021), Some(1024), Some(1025)], vec![None, Some(0), Some(1), Some(2), Some(500), Some(509), Some(510), Some(511), Some(512), Some(1018), Some(1019), Some(1020), Some(1021), Some(1022), Some(1023), Some(1024), Some(1025), Some(1026), Some(2048), Some(5000)]);
        let ds = tier.pick(vec![None, Some(0usize), Some(1), Some(512), Some(513), Some(1023), Some(1024), Some(1025), Some(3000)], vec![None, Some(0), Some(1), Some(2), Some(500), Some(510), Some(511), Some(512), Some(513), Some(514), Some(515), Some(1018), Some(1019), Some(1020), Some(1021), Some(1022), Some(1023), Some(1024), Some(1025), Some(1026), Some(2048), Some(4096), Some(5000)]);
        for k in 0..6 {
            for t in &ts {
                for d in &ds {
                    for (i, base) in [gen::ty("integer"), gen::obj(vec![("x", gen::ty("integer"))], None), json!({})].into_iter().enumerate() {
                        if i > 0 && !tier.thorough() && k % 2 == 1 {
                            continue;
                        }
                        let mut x = base;
                        if let Some(n) = t {
                            x["title"] = json!(text(k, *n));
                        }
                        if let Some(n) = d {
                            x["description"] = json!(text(k, *n));
                        }
                        e(x.clone());
                        e(gen::obj(vec![("a", x.clone())], Some(vec!["a"])));
                        if i == 0 {
                            e(gen::obj(vec![("a", json!({"type": "array", "items": x.clone()}))], None));
                            e(gen::obj(vec![("a", json!({"type": "object", "additionalProperties": x.clone()}))], None));
                            e(json!({"type": "array", "items": [x.clone()], "maxItems": 1}));
                            let mut y = x.clone();
                            y["type"] = json!(["integer", "null"]);
                            e(gen::obj(vec![("a", y)], None));
                        }
                    }
                }
            }
        }
    }, check)]
}

fn c14_families(t: Tier) -> Vec<Family> {
    let mut v = lengths(t, c14_text);
    v.extend(options(t, c14_options));
    v.push(each_keyword(t));
    v.extend(standard(t, c14));
    v
}

fn same(a: &Out, b: &Out) -> bool {
    a == b || (!a.is_ok() && !b.is_ok())
}

/// As given: BigQuery descriptions are those of the model, Avro ignores them.
fn c14_text(s: &Value, l: &mut Local) {
    for o in [Opts::cast().tuple(true), Opts::cast().force(true)] {
        conform(s, Fmt::Bq, &o, &[K::Desc], l);
        neutral(s, &map_nodes(s, &mut |n, _| {
            n.remove("title");
            n.remove("description");
        }), &o, l);
    }
}

fn strip_desc(v: &Value) -> Value {
    match v {
        Value::Array(x) => Value::Array(x.iter().map(strip_desc).collect()),
        Value::Object(m) => Value::Object(m.iter().filter(|(k, v)| !(k.as_str() == "description" && v.is_string())).map(|(k, v)| (k.clone(), strip_desc(v))).collect()),
        v => v.clone(),
    }
}

/// Apply a function to every subschema, in a fixed order.
pub fn map_nodes(s: &Value, f: &mut dyn FnMut(&mut serde_json::Map<String, Value>, usize)) -> Value {
    fn rec(s: &Value, n: &mut usize, f: &mut dyn FnMut(&mut serde_json::Map<String, Value>, usize)) -> Value {
        let Value::Object(m) = s else { return s.clone() };
        let mut m = m.clone();
        let me = *n;
        *n += 1;
        for (k, v) in m.iter_mut() {
            match (k.as_str(), &v) {
                ("properties" | "patternProperties", Value::Object(p)) => {
                    *v = Value::Object(p.iter().map(|(k, x)| (k.clone(), rec(x, n, f))).collect());
                }
                ("items" | "additionalItems" | "additionalProperties", Value::Object(_)) => *v = rec(v, n, f),
                ("items" | "oneOf", Value::Array(xs)) => *v = Value::Array(xs.iter().map(|x| rec(x, n, f)).collect()),
                _ => (),
            }
        }
        f(&mut m, me);
        Value::Object(m)
    }
    rec(s, &mut 0, f)
}

/// Two schemas that differ in texts only: same Avro, same BigQuery up to descriptions.
fn neutral(s: &Value, t: &Value, o: &Opts, l: &mut Local) {
    let (a, b) = (imp::avro(s, o), imp::avro(t, o));
    let (x, y) = (imp::bq(s, o), imp::bq(t, o));
    l.ran(4);
    l.compared += 2;
    if !same(&a, &b) {
        l.violation("titles or descriptions change the Avro schema", json!({"options": o.json(), "with": short(a.show()), "without": short(b.show()), "other schema": t}));
    }
    let ok = match (&x, &y) {
        (Out::Ok(x), Out::Ok(y)) => strip_desc(x) == strip_desc(y),
        (Out::Panic(_), Out::Panic(_)) => true,
        _ => false,
    };
    if !ok {
        l.violation("titles or descriptions change the columns", json!({"options": o.json(), "with": short(x.show()), "without": short(y.show()), "other schema": t}));
    }
}

fn irrelevant(i: usize) -> (&'static str, Value) {
    let all = [
        ("enum", json!(["a", 1, null])),
        ("const", json!(3)),
        ("default", json!({"type": "integer"})),
        ("examples", json!([{"properties": {"q": {"type": "null"}}}])),
        ("$id", json!("http://x/y")),
        ("$schema", json!("http://json-schema.org/draft-04/schema#")),
        ("$comment", json!("c")),
        ("id", json!("x")),
        ("definitions", json!({"q": {"type": "null"}})),
        ("minimum", json!(0)),
        ("maximum", json!(10)),
        ("exclusiveMinimum", json!(true)),
        ("multipleOf", json!(2)),
        ("pattern", json!("^x")),
        ("minLength", json!(1)),
        ("maxLength", json!(9)),
        ("uniqueItems", json!(true)),
        ("minProperties", json!(1)),
        ("maxProperties", json!(4)),
        ("dependencies", json!({"a": ["b"]})),
        ("readOnly", json!(true)),
        ("additionalProperties", json!(false)),
        ("additionalProperties", json!(true)),
        ("x-type", json!("null")),
        ("nullable", json!(true)),
        ("name", json!("z")),
        ("mode", json!("REPEATED")),
        ("namespace", json!("z")),
        ("fields", json!([])),
        ("is_root", json!(true)),
        ("isRoot", json!(true)),
        ("mozPipelineMetadata", json!({"bq_table": "t"})),
    ];
    all[i % 32].clone()
}

/// Every keyword without structure, with several values.
fn keywords() -> Vec<(&'static str, Value)> {
    let mut v: Vec<(&'static str, Value)> = (0..32).map(irrelevant).filter(|(k, _)| *k != "additionalProperties").collect();
    for (k, xs) in [
        ("enum", vec![json!([]), json!(["a"]), json!(["a", "b"]), json!([1, 2]), json!([1.5]), json!([null]), json!([null, "a"]), json!([true, false]), json!([{}]), json!([[]]), json!(["1", "2"])]),
        ("const", vec![json!("a"), json!(null), json!(true), json!(1.5), json!([]), json!({"type": "integer"})]),
        ("default", vec![json!(null), json!("a"), json!(0), json!(false), json!([]), json!({}), json!("2020-01-01T00:00:00Z")]),
        ("examples", vec![json!([]), json!([1]), json!(["a"]), json!([null])]),
        ("example", vec![json!(1), json!("a")]),
        ("pattern", vec![json!(""), json!("^[0-9]+$"), json!("^\\d{4}-\\d{2}-\\d{2}T"), json!(".*")]),
        ("minimum", vec![json!(-1), json!(0.5), json!(u64::MAX), json!(i64::MIN)]),
        ("maximum", vec![json!(-1), json!(0.5), json!(1), json!(255), json!(2147483647), json!(4294967296u64), json!(u64::MAX)]),
        ("exclusiveMaximum", vec![json!(1), json!(true)]),
        ("exclusiveMinimum", vec![json!(0)]),
        ("multipleOf", vec![json!(1), json!(1.0), json!(0.01)]),
        ("minLength", vec![json!(0), json!(36)]),
        ("maxLength", vec![json!(0), json!(1), json!(65536)]),
        ("uniqueItems", vec![json!(false)]),
        ("minProperties", vec![json!(0), json!(9)]),
        ("maxProperties", vec![json!(0), json!(1)]),
        ("deprecated", vec![json!(true), json!(false)]),
        ("writeOnly", vec![json!(true)]),
        ("readOnly", vec![json!(false)]),
        ("nullable", vec![json!(false)]),
        ("optional", vec![json!(true)]),
        ("contentEncoding", vec![json!("base64")]),
        ("contentMediaType", vec![json!("application/json")]),
        ("contains", vec![json!({"type": "integer"}), json!({"type": "null"})]),
        ("propertyNames", vec![json!({"pattern": "^a"})]),
        ("dependentRequired", vec![json!({"a": ["a"]})]),
        ("dependencies", vec![json!({"b": {"type": "null"}}), json!({})]),
        ("$id", vec![json!("#a"), json!("a"), json!("")]),
        ("id", vec![json!("#"), json!("a.b")]),
        ("$schema", vec![json!("http://json-schema.org/draft-07/schema#"), json!("")]),
        ("$defs", vec![json!({"a": {"type": "null"}}), json!({})]),
        ("definitions", vec![json!({"a": {"type": "integer"}}), json!({})]),
        ("doc", vec![json!("d")]),
        ("aliases", vec![json!(["z"])]),
        ("dataType", vec![json!("integer")]),
        ("data_type", vec![json!({"atom": "integer"})]),
        ("key", vec![json!({"type": "integer"})]),
        ("value", vec![json!({"type": "integer"})]),
        ("list", vec![json!([])]),
        ("symbols", vec![json!(["a"])]),
        ("logicalType", vec![json!("timestamp-micros")]),
        ("one_of", vec![json!([{"type": "null"}])]),
        ("min_items", vec![json!(1)]),
        ("max_items", vec![json!(1)]),
        ("additional_properties", vec![json!({"type": "integer"})]),
        ("pattern_properties", vec![json!({"a": {"type": "integer"}})]),
        ("Type", vec![json!("integer")]),
        ("Required", vec![json!(["a"])]),
        ("", vec![json!(1)]),
        ("mozPipelineMetadata", vec![json!({}), json!({"json_object_path_regex": null}), json!({"bq_dataset_family": "a", "bq_table": "b", "submission_timestamp_granularity": "second"})]),
    ] {
        v.extend(xs.into_iter().map(|x| (k, x)));
    }
    v
}

fn each_keyword(t: Tier) -> Family {
    let n = keywords().len();
    family("each keyword", format!("each of {} keywords with values on every subschema, on the root and on all below it, of compositions of <= {} of 44 contexts over {} leaves and of whole documents", n, t.pick(1, 2), t.pick(6, 14)), move |e| {
        gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), t.pick(1, 2), e);
        gen::leaves().into_iter().for_each(&mut *e);
        gen::realistic(e);
    }, c14_keywords)
}

fn c14_keywords(s: &Value, l: &mut Local) {
    let os = [Opts::cast().tuple(true), Opts::new(Res::Drop)];
    let base: Vec<Vec<Out>> = os.iter().map(|o| FMTS.iter().map(|f| imp::conv(*f, s, o)).collect()).collect();
    l.ran(4);
    let mut decorated = BTreeSet::new();
    for (kw, v) in keywords() {
        for place in 0..3 {
            let t = map_nodes(s, &mut |m, i| {
                if place == 0 || (place == 1) == (i == 0) {
                    m.entry(kw.to_string()).or_insert(v.clone());
                }
            });
            if !decorated.insert(t.to_string()) {
                continue;
            }
            for (i, o) in os.iter().enumerate() {
                for (j, f) in FMTS.into_iter().enumerate() {
                    let (a, b) = (&base[i][j], imp::conv(f, &t, o));
                    l.ran(1);
                    l.compared += 1;
                    l.inner_states += 1;
                    if !same(a, &b) {
                        l.violation("a keyword without structure changes the output", json!({"options": o.json(), "format": format!("{:?}", f), "plain": short(a.show()), "decorated": short(b.show()), "decorated schema": t}));
                        return;
                    }
                }
            }
        }
    }
}

fn c14_options(s: &Value, l: &mut Local) {
    let plain = map_nodes(s, &mut |m, _| {
        m.remove("title");
        m.remove("description");
    });
    let t = gen::annotate(&plain, s.to_string().len());
    for o in every::<true>(&[], &RES) {
        conform(&t, Fmt::Bq, &o, &[K::Desc], l);
        neutral(&t, &plain, &o, l);
    }
}

fn c14(s: &Value, l: &mut Local) {
    let h = crate::explore::hash_of(&s.to_string()) as usize;
    // 1. a title and a description on every subschema, in each of four phases
    for phase in 0..2 {
        let o = Opts::cast().tuple(true).case(phase == 1);
        let t = map_nodes(s, &mut |m, i| {
            m.remove("title");
            m.remove("description");
            let k = (i + h + phase * 3) % 4;
            if k & 1 == 1 {
                m.insert("title".into(), json!(format!("T{}", i)));
            }
            if k & 2 == 2 {
                m.insert("description".into(), json!(format!("D{} null", i)));
            }
        });
        let plain = map_nodes(s, &mut |m, _| {
            m.remove("title");
            m.remove("description");
        });
        let a = conform(&t, Fmt::Bq, &o, &[K::Desc], l);
        l.outcome(&a.show());
        neutral(&t, &plain, &o, l);
    }
    // 2. keywords without structure on every subschema
    for k in 0..2 {
        let o = Opts::new([Res::Cast, Res::Drop][k]).tuple(true);
        let t = map_nodes(s, &mut |m, i| {
            for j in 0..4 {
                let (kw, v) = irrelevant(h + i * 5 + j * 8 + k * 3);
                m.entry(kw.to_string()).or_insert(v);
            }
            // keywords of another type
            if matches!(m.get("type").and_then(Value::as_str), Some("integer" | "number" | "boolean" | "null")) {
                m.insert("format".into(), json!("date-time"));
                m.insert("properties".into(), json!({"q": {"type": "null"}}));
                m.insert("items".into(), json!({"type": "null"}));
                m.insert("required".into(), json!(["q"]));
                m.insert("oneOf".into(), json!([{"type": "null"}]));
            }
        });
        for f in FMTS {
            let (a, b) = (imp::conv(f, s, &o), imp::conv(f, &t, &o));
            l.ran(2);
            l.compared += 1;
            if !same(&a, &b) {
                l.violation("a keyword without structure changes the output", json!({"options": o.json(), "format": format!("{:?}", f), "plain": short(a.show()), "decorated": short(b.show()), "decorated schema": t}));
            }
        }
    }
}
