//! C15, options that are read from JSON. Relation: the conversion with the options read against the
//! conversion with the same options built in code.
use super::*;
use jst::Context;

const FLAGS: [&str; 4] = ["normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value"];

/// Schemas in which every option can be seen, with and without each of the others.
fn probes() -> Vec<Value> {
    vec![
        json!({"type": "object", "properties": {"aB": {"type": "integer"}, "json": {}, "t": {"type": "array", "items": [{"type": "integer"}], "maxItems": 1},
            "m": {"type": "object", "additionalProperties": {"type": ["integer", "string"]}}}, "required": ["aB", "json", "t", "m"]}),
        json!({"type": "object", "properties": {"aB": {"type": "integer"}, "m": {"type": "object", "additionalProperties": {}}}, "required": ["aB", "m"]}),
        json!({"type": "object", "properties": {"aB": {"type": "array", "items": [{"type": "boolean"}], "additionalItems": false}}, "required": ["aB"]}),
        json!({"type": "object", "properties": {"aB": {"type": "integer"}}, "required": ["aB"]}),
        json!({}),
    ]
}

fn run(c: &Context, l: &mut Local) -> Vec<Out> {
    let mut v = Vec::new();
    for s in probes() {
        v.push(imp::guard(|| jst::convert_avro(&s, c.clone())));
        v.push(imp::guard(|| jst::convert_bigquery(&s, c.clone())));
        l.ran(2);
    }
    v
}

/// The options as the fields say.
fn meant(c: &Value) -> Opts {
    let flag = |k: &str| c.get(k).and_then(Value::as_bool).unwrap_or(false);
    Opts {
        res: match c.get("resolve_method").and_then(Value::as_str) {
            Some("Drop") => Res::Drop,
            Some("Panic") => Res::Panic,
            _ => Res::Cast,
        },
        case: flag(FLAGS[0]),
        force: flag(FLAGS[1]),
        tuple: flag(FLAGS[2]),
        maps: flag(FLAGS[3]),
        path: c.get("json_object_path_regex").and_then(Value::as_str).map(String::from),
    }
}

fn differ(a: &[Out], b: &[Out]) -> Option<usize> {
    (0..a.len()).find(|i| a[*i] != b[*i] && (a[*i].is_ok() || b[*i].is_ok()))
}

fn read(c: &Value, l: &mut Local) {
    let expected = run(&meant(c).context(), l);
    // in the order of the names, in the opposite order, and between other names
    let mut pairs: Vec<String> = c.as_object().unwrap().iter().map(|(k, v)| format!("{}: {}", json!(k), v)).collect();
    let mut texts = vec![format!("{{{}}}", pairs.join(", "))];
    pairs.reverse();
    texts.push(format!("{{{}}}", pairs.join(", ")));
    pairs.insert(0, "\"other\": {\"tuple_struct\": 7}".into());
    pairs.push("\"normalizeCase\": true".into());
    texts.push(format!("{{{}}}", pairs.join(", ")));
    for t in texts {
        l.inner_states += 1;
        l.compared += 1;
        let detail = |what: &str, x: String, y: String| json!({"options": t, "what": what, "as read": short(x), "as built": short(y)});
        let o: Context = match serde_json::from_str(&t) {
            Ok(o) => o,
            Err(e) => return l.violation("options are refused", detail(&e.to_string(), String::new(), String::new())),
        };
        let from_value: Result<Context, _> = serde_json::from_value(serde_json::from_str(&t).unwrap());
        let actual = run(&o, l);
        l.outcome(&format!("{:?}", actual));
        if let Some(i) = differ(&actual, &expected) {
            return l.violation("options that are read mean something else", detail(&probes()[i / 2].to_string(), actual[i].show(), expected[i].show()));
        }
        match from_value {
            Ok(o) if differ(&run(&o, l), &expected).is_none() => (),
            _ => return l.violation("options that are read from a value mean something else", detail("", String::new(), String::new())),
        }
    }
    if c.as_object().unwrap().is_empty() {
        if let Some(i) = differ(&run(&Context::default(), l), &expected) {
            l.violation("the default options differ", json!({"probe": probes()[i / 2]}));
        }
    }
}

/// A value of another type is refused and not taken for something else.
fn refused(c: &Value, l: &mut Local) {
    l.ran(1);
    l.compared += 1;
    if serde_json::from_value::<Context>(c.clone()).is_ok() {
        l.violation("an option of the wrong type is accepted", json!({"options": c}));
    }
}

pub fn families(t: Tier) -> Vec<Family> {
    vec![
        family("every subset", "every subset of the six fields with every value, in three textual orders", move |e| {
            let flag = [None, Some(json!(false)), Some(json!(true))];
            let res = [None, Some(json!("Cast")), Some(json!("Drop")), Some(json!("Panic"))];
            let path = t.pick(vec![None, Some(json!(null)), Some(json!("json|m\\.value"))], vec![None, Some(json!(null)), Some(json!("json")), Some(json!(".*")), Some(json!("m"))]);
            for r in &res {
                for p in &path {
                    for n in 0..81usize {
                        let mut m = serde_json::Map::new();
                        for (i, k) in FLAGS.iter().enumerate() {
                            if let Some(x) = &flag[n / 3usize.pow(i as u32) % 3] {
                                m.insert(k.to_string(), x.clone());
                            }
                        }
                        if let Some(r) = r {
                            m.insert("resolve_method".into(), r.clone());
                        }
                        if let Some(p) = p {
                            m.insert("json_object_path_regex".into(), p.clone());
                        }
                        e(Value::Object(m));
                    }
                }
            }
        }, read),
        family("wrong types", "every field with values of every other type", |e| {
            let values = [json!(null), json!(0), json!(1), json!(1.5), json!("true"), json!("cast"), json!("CAST"), json!(""), json!([]), json!({}), json!([true]), json!(true)];
            for k in FLAGS.iter().chain(&["resolve_method", "json_object_path_regex"]) {
                for v in &values {
                    let fits = match *k {
                        "resolve_method" => false,
                        "json_object_path_regex" => v.is_string() || v.is_null(),
                        _ => v.is_boolean(),
                    };
                    if !fits {
                        e(json!({ *k: v }));
                    }
                }
            }
        }, refused),
    ]
}
