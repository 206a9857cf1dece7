//! C21 a schema that grows makes the tables grow; C22 equivalent spellings mean the same.
//! Relations between executions of the code only; there is no model.
use super::text::map_nodes;
use super::*;
use serde_json::Map;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C21", builds: &["std"], families: c21_families },
        Prop { id: "C22", builds: &["std"], families: c22_families },
    ]
}

type Node = Map<String, Value>;

/// One subschema rewritten; None if the rewriting does not apply to it.
fn at(s: &Value, ns: &[Node], n: usize, f: &dyn Fn(&mut Node) -> bool) -> Option<Value> {
    if !f(&mut ns[n].clone()) {
        return None;
    }
    let mut done = false;
    let t = map_nodes(s, &mut |m, i| {
        if i == n {
            done = f(m);
        }
    });
    done.then_some(t)
}

fn nodes(s: &Value) -> Vec<Node> {
    let mut v = Vec::new();
    map_nodes(s, &mut |m, i| v.push((i, m.clone())));
    v.sort_by_key(|(i, _)| *i);
    v.into_iter().map(|(_, m)| m).collect()
}

fn is(m: &Node, t: &str) -> bool {
    m.get("type").and_then(Value::as_str) == Some(t)
}

/// Whether the subschema stands for an object of properties (and not a map, or alternatives).
fn plain_object(m: &Node) -> bool {
    let object = match m.get("type") {
        None => true,
        Some(Value::String(t)) => t == "object",
        Some(Value::Array(ts)) => ts.iter().any(|t| t == "object"),
        _ => false,
    };
    object && (m.contains_key("properties") || !(m.get("additionalProperties").map_or(false, Value::is_object) || m.contains_key("patternProperties") || m.contains_key("oneOf")))
}

fn has_column(m: &Node) -> bool {
    m.get("properties").and_then(Value::as_object).map_or(false, |p| p.keys().any(|k| model::column(k, false).is_some() && model::column(k, true).is_some()))
}

// ---------------------------------------------------------------- C21

#[derive(Copy, Clone, PartialEq, Debug)]
enum Grow {
    /// columns are added
    Add,
    /// columns become nullable
    Relax,
    /// an integer becomes a number
    Widen,
    /// columns are added and become nullable
    Both,
}

type Extension = (&'static str, Grow, fn(&mut Node) -> bool);

fn add_property(m: &mut Node, x: Value) -> bool {
    m.entry("properties").or_insert(json!({}))["zz_new"] = x;
    true
}

/// Extensions that may turn something under-specified into something specified.
const SPECIFY: &[Extension] = &[
    ("an optional integer is added to the object", Grow::Add, |m| plain_object(m) && add_property(m, json!({"type": "integer"}))),
    ("an optional object is added to the object", Grow::Add, |m| plain_object(m) && add_property(m, json!({"type": "object", "properties": {"q": {"type": ["array"], "items": {"type": "string"}}}, "required": ["q"]}))),
];

/// Extensions that add an ambiguous part; where alternatives are merged it would make the whole ambiguous.
const UNTYPED: &[Extension] = &[
    ("an optional property without a type is added", Grow::Add, |m| plain_object(m) && has_column(m) && add_property(m, json!({}))),
    ("optional properties without columns are added", Grow::Add, |m| {
        plain_object(m) && has_column(m) && {
            for n in ["$new", "", "a_new", "zz_new"] {
                m.entry("properties").or_insert(json!({}))[n] = json!({"type": "object"});
            }
            true
        }
    }),
];

const EXTENSIONS: &[Extension] = &[
    ("an optional integer is added to the object", Grow::Add, |m| plain_object(m) && has_column(m) && add_property(m, json!({"type": "integer"}))),
    ("an optional map is added to the object", Grow::Add, |m| plain_object(m) && has_column(m) && add_property(m, json!({"type": "object", "additionalProperties": {"type": "array", "items": {"type": "string"}}}))),
    ("a required property is added to the object", Grow::Add, |m| {
        if !plain_object(m) || !has_column(m) {
            return false;
        }
        add_property(m, json!({"type": "boolean"}));
        match m.entry("required").or_insert(json!([])) {
            Value::Array(r) => r.push(json!("zz_new")),
            _ => return false,
        }
        true
    }),
    ("five properties are added, among and around the others", Grow::Add, |m| {
        if !plain_object(m) || !has_column(m) {
            return false;
        }
        for (n, x) in [("A_new", json!({"type": "integer"})), ("_new", json!({"type": "array", "items": {"type": "number"}})), ("a_new", json!({"type": "string", "format": "date-time"})), ("m_new", json!({"type": ["boolean", "null"]})), ("zz_old", json!({"type": "object", "properties": {"q": {"type": "integer"}}}))] {
            m.entry("properties").or_insert(json!({}))[n] = x;
        }
        true
    }),
    ("the first required property becomes optional", Grow::Relax, |m| match m.get_mut("required") {
        Some(Value::Array(r)) if !r.is_empty() => {
            r.remove(0);
            true
        }
        _ => false,
    }),
    ("the last required property becomes optional", Grow::Relax, |m| match m.get_mut("required") {
        Some(Value::Array(r)) if r.len() > 1 => {
            r.pop();
            true
        }
        _ => false,
    }),
    ("nothing is required any more", Grow::Relax, |m| m.remove("required").map_or(false, |r| r.as_array().map_or(false, |r| !r.is_empty()))),
    ("null is allowed, as the last type", Grow::Relax, |m| allow_null(m, false)),
    ("null is allowed, as the first type", Grow::Relax, |m| allow_null(m, true)),
    ("an integer becomes a number", Grow::Widen, |m| match m.get_mut("type") {
        Some(t) if *t == "integer" => {
            *t = json!("number");
            true
        }
        Some(Value::Array(ts)) => match ts.iter_mut().find(|t| **t == "integer") {
            Some(t) => {
                *t = json!("number");
                true
            }
            None => false,
        },
        _ => false,
    }),
    ("the tuple may have one more item", Grow::Add, |m| {
        let len = m.get("items").and_then(Value::as_array).map_or(usize::MAX, Vec::len) as u64;
        let max = m.get("maxItems").and_then(Value::as_u64).unwrap_or(0);
        if len < max && max < 1000 && m.get("additionalItems").map_or(false, Value::is_object) {
            m.insert("maxItems".into(), json!(max + 1));
            return true;
        }
        false
    }),
    ("one item less of the tuple is required", Grow::Relax, |m| match (m.get("items").and_then(Value::as_array).map(Vec::len), m.get("minItems").and_then(Value::as_u64)) {
        (Some(_), Some(min)) if min > 0 => {
            m.insert("minItems".into(), json!(min - 1));
            true
        }
        (Some(n), None) if n > 0 => {
            m.insert("minItems".into(), json!(n - 1));
            true
        }
        _ => false,
    }),
    ("another object joins the alternatives", Grow::Both, |m| {
        let objects = |xs: &Vec<Value>| xs.iter().filter(|x| x.as_object().map_or(false, |x| is(x, "object") && has_column(x))).count();
        match m.get_mut("oneOf") {
            Some(Value::Array(xs)) if objects(xs) >= 2 && objects(xs) == xs.len() => {
                xs.push(json!({"type": "object", "properties": {"zz_new": {"type": "integer"}}}));
                true
            }
            _ => false,
        }
    }),
];

fn allow_null(m: &mut Node, first: bool) -> bool {
    if m.contains_key("format") {
        return false;
    }
    let mut ts = match m.get("type") {
        Some(Value::String(t)) => vec![json!(t)],
        Some(Value::Array(ts)) => ts.clone(),
        _ => return false,
    };
    if ts.iter().any(|t| t == "null") {
        return false;
    }
    ts.insert(if first { 0 } else { ts.len() }, json!("null"));
    m.insert("type".into(), json!(ts));
    true
}

fn only(g: Grow, f: Fmt, d: &diff::D) -> bool {
    let relaxed = match (d.kind, f) {
        (K::Null, Fmt::Bq) => d.actual == "\"NULLABLE\"" && d.expected == "\"REQUIRED\"",
        (K::Null, Fmt::Avro) => d.actual.starts_with('['),
        (K::Default, Fmt::Avro) => d.actual == "null",
        _ => false,
    };
    match g {
        Grow::Add => d.kind == K::Extra,
        Grow::Relax => relaxed,
        Grow::Both => relaxed || d.kind == K::Extra,
        Grow::Widen => d.kind == K::Type && [("\"long\"", "\"double\""), ("\"INT64\"", "\"FLOAT64\"")].iter().any(|(x, y)| d.expected.replace(x, y) == d.actual),
    }
}

fn c21<const ALL: bool, const NODES: usize>(s: &Value, l: &mut Local) {
    let few = [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true).case(true), Opts::new(Res::Drop).maps(true), Opts::new(Res::Panic).tuple(true)];
    let ns = nodes(s);
    let n = ns.len().min(NODES);
    let merges = ns.iter().any(|m| m.contains_key("oneOf") || m.contains_key("patternProperties") || m.get("type").map_or(false, Value::is_array));
    let set = if ALL { all_opts(&[Res::Cast, Res::Drop]) } else { few.to_vec() };
    let base: Vec<[Out; 2]> = set.iter().map(|o| FMTS.map(|f| imp::conv(f, s, o))).collect();
    l.ran(2 * set.len() as u64);
    l.outcome(&base[0][0].show());
    for i in 0..n {
        for (k, (what, g, f)) in EXTENSIONS.iter().chain(SPECIFY).chain(UNTYPED).enumerate() {
            let untyped = k >= EXTENSIONS.len() + SPECIFY.len();
            if untyped && merges {
                continue;
            }
            let specify = k >= EXTENSIONS.len() && !untyped;
            let Some(t) = at(s, &ns, i, f) else { continue };
            l.inner_states += 1;
            for (o, base) in set.iter().zip(&base) {
                if specify && o.res != Res::Drop || untyped && o.res == Res::Panic {
                    continue;
                }
                for (fmt, a) in FMTS.into_iter().zip(base) {
                    // a document that is dropped as a whole may appear
                    if !a.is_ok() && (specify || o.res == Res::Drop) {
                        continue;
                    }
                    let b = imp::conv(fmt, &t, o);
                    l.ran(1);
                    l.compared += 1;
                    let detail = |x: String, y: String| json!({"extension": what, "extended schema": t, "options": o.json(), "format": format!("{:?}", fmt), "before": short(x), "after": short(y)});
                    match (a, &b) {
                        (Out::Ok(a), Out::Ok(b)) => {
                            if let Some(d) = diff::diff(fmt, b, a).into_iter().find(|d| !only(*g, fmt, d)) {
                                l.violation(&format!("a larger schema does not extend the output at {}", d.path), detail(d.expected, d.actual));
                                return;
                            }
                        }
                        (Out::Panic(_), Out::Panic(_)) => l.count("no output"),
                        (a, b) => {
                            l.violation("a larger schema decides whether there is an output", detail(a.show(), b.show()));
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn spaces(t: Tier, check: Check, root: Check, all: Check) -> Vec<Family> {
    let mut v = vec![
        family("compositions", format!("every composition of <= 2 of 44 contexts over {} leaves, one rewriting at every subschema", t.pick(3, 14)), move |e| {
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves()[..3].to_vec(), gen::leaves()), 2, e)
        }, check),
        family("realistic", "whole documents", |e| gen::realistic(e), check),
        family("pairs", format!("{}^2 x {}", t.pick(triple_set(Tier::Quick), pair_set(t)).len(), gen::BINARY.len()), move |e| gen::pairs(&t.pick(triple_set(Tier::Quick), pair_set(t)), gen::BINARY, e), check),
        family("more pairs", format!("{}^2 x {}, one rewriting at the root", pair_set(t).len(), gen::BINARY.len()), move |e| gen::pairs(&pair_set(t), gen::BINARY, e), root),
        family("triples", format!("{}^3 x 3", triple_set(t).len()), move |e| gen::triples(&triple_set(t), e), check),
        family("tuples", "item lists up to length 2 with every bound", |e| gen::tuples(&[gen::ty("integer"), json!({}), json!({"type": ["string", "null"]})], 2, e), check),
        family("type lists", "ordered type lists up to length 3", |e| gen::type_lists(3, e), check),
        family("stress", format!("linear families up to n={}", t.pick(5, 20)), move |e| gen::stress(t.pick(5, 20), e), check),
        family("populated objects", "a column beside 1..=8 others", move |e| gen::populated(&gen::level(gen::CORE, &gen::few_leaves()[..t.pick(2, 6)], 1), t.pick(&[3], &[1, 3, 8]), e), check),
        family("keyword product", "presence and value of 8 keywords, one rewriting at the root", |e| gen::keyword_product(false, e), root),
        family("every option", "cast and drop with every combination of the four flags: whole documents, compositions of one context, pairs", move |e| {
            gen::realistic(e);
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), 1, e);
            gen::pairs(&t.pick(gen::few_leaves()[..4].to_vec(), gen::leaves()), gen::BINARY, e);
            gen::tuples(&[gen::ty("integer"), json!({"type": ["string", "null"]})], 2, e);
        }, all),
    ];
    if t.thorough() {
        v.push(family("core compositions", "every composition of <= 3 of 15 contexts over 6 leaves", |e| gen::compositions(gen::CORE, &gen::few_leaves(), 3, e), check));
        v.push(family("sizes", "linear families at 13 sizes up to 129", |e| gen::sizes(false, e), check));
    }
    v
}

fn c21_families(t: Tier) -> Vec<Family> {
    spaces(t, c21::<false, 24>, c21::<false, 1>, c21::<true, 24>)
}

// ---------------------------------------------------------------- C22

type Spelling = (&'static str, fn(&mut Node) -> bool);

fn wrap(m: &mut Node, f: impl Fn(Value) -> Value) -> bool {
    if m.contains_key("mozPipelineMetadata") {
        return false;
    }
    let x = Value::Object(std::mem::take(m));
    match f(x) {
        Value::Object(y) => *m = y,
        _ => return false,
    }
    true
}

const SPELLINGS: &[Spelling] = &[
    ("a list of one type", |m| match m.get("type") {
        Some(Value::String(t)) if !m.contains_key("format") => {
            let t = json!([t]);
            m.insert("type".into(), t);
            true
        }
        _ => false,
    }),
    ("the type list in the opposite order", |m| match m.get_mut("type") {
        Some(Value::Array(ts)) if ts.len() > 1 => {
            ts.reverse();
            true
        }
        _ => false,
    }),
    ("a scalar repeated in the type list", |m| match m.get_mut("type") {
        Some(Value::Array(ts)) if ts.iter().any(|t| t != "object" && t != "array") => {
            let t = ts.iter().find(|t| **t != "object" && **t != "array").unwrap().clone();
            ts.push(t);
            true
        }
        _ => false,
    }),
    ("one alternative", |m| wrap(m, |x| json!({"oneOf": [x]}))),
    ("one alternative of an object", |m| wrap(m, |x| json!({"type": "object", "oneOf": [x]}))),
    ("one alternative in one alternative", |m| wrap(m, |x| json!({"oneOf": [{"oneOf": [x]}]}))),
    ("null as an alternative instead of a type", |m| match m.get("type") {
        Some(Value::Array(ts)) if ts.iter().any(|t| t == "null") && ts.len() == 2 && !m.contains_key("format") => {
            let t = ts.iter().find(|t| **t != "null").unwrap_or(&ts[0]).clone();
            m.insert("type".into(), t);
            wrap(m, |x| json!({"oneOf": [x, {"type": "null"}]}))
        }
        _ => false,
    }),
    ("types as alternatives", |m| match m.get("type") {
        Some(Value::Array(ts)) if !ts.is_empty() && !m.contains_key("format") => {
            let ts = ts.clone();
            wrap(m, |x| json!({"oneOf": ts.iter().map(|t| gen::with(x.clone(), "type", t.clone())).collect::<Vec<_>>()}))
        }
        _ => false,
    }),
    ("the type object, said or not", |m| {
        if is(m, "object") {
            m.remove("type");
            return true;
        }
        if !m.contains_key("type") {
            m.insert("type".into(), json!("object"));
            return true;
        }
        false
    }),
    ("an empty required list", |m| {
        if m.contains_key("required") {
            return false;
        }
        m.insert("required".into(), json!([]));
        true
    }),
    ("the required list in the opposite order, repeated, with an unknown name", |m| match m.get_mut("required") {
        Some(Value::Array(r)) => {
            let mut x: Vec<Value> = r.iter().rev().cloned().collect();
            x.extend(r.iter().cloned());
            x.insert(x.len() / 2, json!("no such property"));
            x.push(json!("nosuchproperty"));
            *r = x;
            true
        }
        _ => false,
    }),
    ("additional properties allowed or not", |m| {
        if m.contains_key("additionalProperties") {
            return false;
        }
        m.insert("additionalProperties".into(), json!(!m.contains_key("required")));
        true
    }),
    ("no additional properties instead of any", |m| match m.get_mut("additionalProperties") {
        Some(Value::Bool(b)) => {
            *b = !*b;
            true
        }
        _ => false,
    }),
    ("a pattern that matches everything instead of additional properties", |m| {
        if m.contains_key("patternProperties") || m.contains_key("properties") || !m.get("additionalProperties").map_or(false, Value::is_object) {
            return false;
        }
        let x = m.remove("additionalProperties").unwrap();
        m.insert("patternProperties".into(), json!({ ".*": x }));
        true
    }),
    ("other patterns", |m| match m.get_mut("patternProperties") {
        Some(Value::Object(p)) if !p.is_empty() => {
            *p = std::mem::take(p).into_iter().map(|(k, v)| (format!("^(x-{}|[0-9a-f]{{8}})$", k.len() * 31 % 7), v, k)).fold(Map::new(), |mut q, (n, v, k)| {
                q.insert(format!("{}{}", n, k.chars().rev().collect::<String>()), v);
                q
            });
            true
        }
        _ => false,
    }),
    ("patterns that match everything", |m| match m.get_mut("patternProperties") {
        Some(Value::Object(p)) if !p.is_empty() && p.len() <= 4 => {
            *p = std::mem::take(p).into_iter().zip([".*", "^.*$", "", "^"]).map(|((_, v), k)| (k.to_string(), v)).collect();
            true
        }
        _ => false,
    }),
    ("patterns that match everything, in another order", |m| match m.get_mut("patternProperties") {
        Some(Value::Object(p)) if p.len() > 1 && p.len() <= 4 => {
            *p = std::mem::take(p).into_iter().zip(["^.+$", ".*", ".+", "."]).map(|((_, v), k)| (k.to_string(), v)).collect();
            true
        }
        _ => false,
    }),
    ("additional properties as one more pattern", |m| {
        if m.contains_key("properties") || !m.get("patternProperties").and_then(Value::as_object).map_or(false, |p| !p.is_empty()) || !m.get("additionalProperties").map_or(false, Value::is_object) {
            return false;
        }
        let x = m.remove("additionalProperties").unwrap();
        m["patternProperties"]["zzz"] = x;
        true
    }),
    ("an unknown format", |m| {
        if m.contains_key("format") {
            return false;
        }
        m.insert("format".into(), json!("uuid"));
        true
    }),
    ("items said to be anything", |m| {
        if !is(m, "array") || m.contains_key("items") {
            return false;
        }
        m.insert("items".into(), json!([]));
        m.remove("items");
        m.insert("maxItems".into(), json!(7));
        true
    }),
    ("the length of the tuple said in the other way", |m| {
        let Some(n) = m.get("items").and_then(Value::as_array).map(Vec::len) else { return false };
        match m.get("additionalItems") {
            Some(Value::Bool(false)) => {
                m.remove("additionalItems");
                m.insert("maxItems".into(), json!(n));
                true
            }
            None if m.get("maxItems") == Some(&json!(n)) => {
                m.remove("maxItems");
                m.insert("additionalItems".into(), json!(false));
                true
            }
            _ => false,
        }
    }),
    ("the minimal length of the tuple, said or not", |m| {
        let Some(n) = m.get("items").and_then(Value::as_array).map(Vec::len) else { return false };
        match m.get("minItems").and_then(Value::as_u64) {
            None => {
                m.insert("minItems".into(), json!(n));
                true
            }
            Some(k) if k >= n as u64 => {
                m.insert("minItems".into(), json!(k + 1));
                true
            }
            _ => false,
        }
    }),
    ("the additional items said one by one", |m| {
        let n = m.get("items").and_then(Value::as_array).map_or(u64::MAX, |x| x.len() as u64);
        let max = m.get("maxItems").and_then(Value::as_u64).unwrap_or(0);
        let Some(x) = m.get("additionalItems").filter(|x| x.is_object()).cloned() else { return false };
        if max <= n || max > n + 200 {
            return false;
        }
        // additional items are never required
        if m.get("minItems").and_then(Value::as_u64).unwrap_or(n) > n {
            return false;
        }
        if !m.contains_key("minItems") {
            m.insert("minItems".into(), json!(n));
        }
        let items = m["items"].as_array_mut().unwrap();
        for _ in n..max {
            items.push(x.clone());
        }
        m.remove("additionalItems");
        true
    }),
];

fn c22<const ALL: bool, const NODES: usize>(s: &Value, l: &mut Local) {
    let few = [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true).case(true).maps(true), Opts::new(Res::Panic).force(true)];
    let mut set = if ALL { all_opts(&[Res::Cast, Res::Drop]) } else { few.to_vec() };
    if ALL {
        set.push(Opts::cast().path(".*").tuple(true));
        set.push(Opts::new(Res::Drop).path("a").tuple(true));
    }
    // an alternative has no texts of its own
    let s = &map_nodes(s, &mut |m, _| {
        m.remove("title");
        m.remove("description");
    });
    let ns = nodes(s);
    let n = ns.len().min(NODES);
    let base: Vec<[Out; 2]> = set.iter().map(|o| FMTS.map(|f| imp::conv(f, s, o))).collect();
    l.ran(2 * set.len() as u64);
    l.outcome(&base[0][0].show());
    for i in 0..n {
        for (what, f) in SPELLINGS {
            let Some(t) = at(s, &ns, i, f) else { continue };
            l.inner_states += 1;
            for (o, base) in set.iter().zip(&base) {
                for (fmt, a) in FMTS.into_iter().zip(base) {
                    let b = imp::conv(fmt, &t, o);
                    l.ran(1);
                    l.compared += 1;
                    if *a != b && (a.is_ok() || b.is_ok()) {
                        l.violation("another spelling of the schema means something else", json!({"spelling": what, "other schema": t, "options": o.json(), "format": format!("{:?}", fmt), "one": short(a.show()), "other": short(b.show())}));
                        return;
                    }
                }
            }
        }
    }
}

fn c22_families(t: Tier) -> Vec<Family> {
    spaces(t, c22::<false, 24>, c22::<false, 1>, c22::<true, 24>)
}
