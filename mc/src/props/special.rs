//! C12 JSON columns, C13 tuples, C17 maps, C18 locality.
use super::*;
use crate::diff::strip;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C12", builds: &["std"], families: c12_families },
        Prop { id: "C13", builds: &["std"], families: c13_families },
        Prop { id: "C17", builds: &["std"], families: c17_families },
        Prop { id: "C18", builds: &["std"], families: c18_families },
    ]
}

// ---------------------------------------------------------------- C12

const REGEXES: [&str; 36] = [
    "a", "b", "a|b", "b|a", "a\\.b", "a.b", ".*", "", "^a", "^a$", "a$", "a\\.list", "a\\.value", "a\\.f0_", ".*\\.b", "(a|b)\\.a", "x|a\\.a", "a\\.a|x",
    "[ab]", "\\w+", "\\w+\\.\\w+$", "a\\..*", "(?i)A", "root", "list", "value", "ab|a_b", "foo_bar|fooBar", "b$|a$", "a\\.a\\.a", "a(\\.b)?$", "(?:x|a)\\.b|b", "f1_", "\\Aa", "a\\b", "$a",
];

/// The syntax of the patterns is the one of the regex crate, unchanged.
const SYNTAX: [&str; 62] = [
    "a b", "a #b", "#", " a", "a ", "(?x) a \\. b", "(?x)a # comment", "\\x61", "\\x{61}", "\\u0061", "[^b]", "[a-c]", "[[:alpha:]]", "[[:^alpha:]]", "\\p{L}", "\\P{L}", "\\d", "\\D", "\\s", "\\S",
    "a?", "a+?", "a*", "a{1}", "a{2}", "a{0,1}\\.", "(a)", "(?:a)", "(?P<n>a)", "(?i:A)", "(?-i)A", "(?s).", "(?m)^a", "(?U)a+", "a||b", "|", "a|", "|a", "()", "\\ba\\b", "\\Ba", "\\z", "a\\z", "\\A\\Aa", "^^a", "a$$",
    ".", "..", "...", "a\\.b\\.a", "a[.]b", "[a.b]+$", "(a\\.?)+$", "(a|b)(\\.(a|b))*$", ".*list", ".*value$", ".*f\\d_$", "[a-z]+\\.[a-z]+", "A", "É", "ä|a", "[^.]+$",
];

fn size(v: &Value) -> usize {
    match v {
        Value::Array(xs) => 1 + xs.iter().map(size).sum::<usize>(),
        Value::Object(m) => 1 + m.values().map(size).sum::<usize>(),
        _ => 1,
    }
}

fn c12_schemas(t: Tier) -> Vec<Value> {
    let ctx: Vec<gen::Ctx> = vec![
        ("a", |x| gen::obj(vec![("a", x)], Some(vec!["a"]))),
        ("b", |x| gen::obj(vec![("b", x), ("a", json!({})), ("ab", gen::ty("object"))], None)),
        ("fooBar", |x| gen::obj(vec![("fooBar", x)], None)),
        ("items", |x| json!({"type": "array", "items": x})),
        ("map", |x| json!({"type": "object", "additionalProperties": x})),
        ("null or", |x| json!({"oneOf": [{"type": "null"}, x]})),
        ("nullable object", |x| json!({"type": ["object", "null"], "properties": {"a": x}})),
        ("tuple", |x| json!({"type": "array", "items": [x, {"type": "integer"}, {}], "maxItems": 3, "minItems": 1})),
        ("objects", |x| json!({"oneOf": [gen::obj(vec![("a", x)], None), gen::obj(vec![("b", json!({"type": "integer"}))], None)]})),
        ("nullable array", |x| json!({"type": ["array", "null"], "items": x})),
    ];
    let leaves = vec![json!({}), gen::ty("integer"), gen::ty("object"), json!({"type": ["integer", "string"]}), json!({"oneOf": [{"type": "integer"}, {"type": "string"}, {"type": "null"}]}),
        gen::obj(vec![("b", gen::ty("string"))], None), json!({"type": "array"})];
    gen::level(&ctx, &leaves, t.pick(2, 3))
}

fn c12_families(t: Tier) -> Vec<Family> {
    vec![
        family("paths", format!("compositions of depth {} x {} patterns", t.pick(2, 3), REGEXES.len()), move |e| {
            for s in c12_schemas(t) {
                for r in REGEXES {
                    e(json!({"schema": s, "regex": r}));
                }
            }
        }, c12::<false>),
        family("syntax", format!("compositions of depth 1 x {} more patterns", SYNTAX.len()), move |e| {
            for s in c12_schemas(Tier::Quick).into_iter().filter(|s| size(s) < 9) {
                for r in SYNTAX {
                    e(json!({"schema": s, "regex": r}));
                }
            }
        }, c12::<false>),
        family("everywhere", "the standard pairs and whole documents with two patterns", move |e| {
            let mut emit = |s: Value| {
                for r in [".*", "a"] {
                    e(json!({"schema": s, "regex": r}));
                }
            };
            gen::realistic(&mut emit);
            gen::pairs(&t.pick(triple_set(Tier::Thorough), pair_set(t)), gen::BINARY, &mut emit);
        }, c12::<false>),
        family("every option", "whole documents and compositions of one context, with every combination of options and two patterns", move |e| {
            let mut emit = |s: Value| {
                for r in [".*", "a"] {
                    e(json!({"schema": s, "regex": r}));
                }
            };
            gen::realistic(&mut emit);
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), t.pick(1, 2), &mut emit);
            gen::pairs(&gen::few_leaves(), gen::BINARY, &mut emit);
        }, c12::<true>),
        family("long paths", "paths of 1 to 1200 characters at depth 1, 2, 3 and 17: the full path, one character more or less, and their ends", move |e| {
            for depth in [1usize, 2, 3, 17] {
                for n in [1usize, 7, 8, 15, 16, 17, 31, 32, 33, 48, 61, 63, 64, 65, 100, 120, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 600, 1023, 1024, 1025, 1200] {
                    if n < 2 * depth {
                        continue;
                    }
                    for leaf in [json!({}), gen::ty("integer")] {
                        // the last name takes what the others leave
                        let k = if depth == 1 { 0 } else { n / depth - 1 };
                        let names: Vec<String> = (0..depth).map(|i| "abcdefg".chars().cycle().take(if i + 1 < depth { k } else { n - (k + 1) * (depth - 1) }).collect()).collect();
                        let s = names.iter().rev().fold(leaf, |s, k| json!({"type": "object", "properties": {k: s, "z": {}}}));
                        let full = names.join("\\.");
                        let less = &full[..full.len() - 1];
                        for r in [full.clone(), format!("{}$", full), format!("{}h", full), format!("{}$", less), format!("{}.$", less), format!("{}(?-u:\\b)", less), ".*$".into(), format!("[a-z.]{{{}}}$", n), format!("[a-z.]{{{}}}$", n - 1), format!("[a-z.]{{{}}}", n + 1)] {
                            if r.len() < 40 && r.starts_with("[a-z.]") && n > 300 {
                                continue;
                            }
                            e(json!({"schema": s, "regex": r}));
                        }
                    }
                }
            }
        }, c12::<false>),
        family("deep paths", "the full path, its prefixes, suffixes and near misses, at depth up to 7 (thorough: 12)", move |e| {
            for depth in 1..=t.pick(7usize, 12) {
                for kind in 0..4 {
                    for leaf in [json!({}), gen::ty("integer"), gen::ty("object")] {
                        let mut s = leaf;
                        let mut path = Vec::new();
                        for i in (0..depth).rev() {
                            let n = format!("{}{}", ["a", "b", "c"][i % 3], i);
                            s = match (kind + i) % 4 {
                                1 => json!({"type": "object", "properties": {n.clone(): {"type": "array", "items": s}}}),
                                2 => json!({"type": "object", "properties": {n.clone(): {"type": "object", "additionalProperties": s}}, "required": [n]}),
                                _ => json!({"type": "object", "properties": {n.clone(): s, "other": {}}}),
                            };
                            match (kind + i) % 4 {
                                1 => path.insert(0, "list".to_string()),
                                2 => path.insert(0, "value".to_string()),
                                _ => (),
                            }
                            path.insert(0, n);
                        }
                        let full = path.join("\\.");
                        let mut rs = vec![full.clone(), format!("{}$", full), format!("{}x", full), format!("x{}", full), format!("{}|other", full), format!("other|{}", full), format!("^{}", full), format!("root\\.{}", full), format!("\\.{}", full)];
                        for k in 1..path.len() {
                            rs.push(path[..k].join("\\."));
                            rs.push(format!("{}$", path[..k].join("\\.")));
                            rs.push(path[k..].join("\\."));
                        }
                        for r in rs {
                            e(json!({"schema": s, "regex": r}));
                        }
                    }
                }
            }
        }, c12::<false>),
    ]
}

fn c12<const ALL: bool>(c: &Value, l: &mut Local) {
    let (s, r) = (&c["schema"], c["regex"].as_str().unwrap());
    // the root is not a column, and has no path
    if model::ambiguous_root(s) {
        l.count("ambiguous root");
        return;
    }
    for o in every::<ALL>(&[Opts::cast(), Opts::cast().tuple(true).case(true).force(true), Opts::new(Res::Drop).tuple(true), Opts::new(Res::Drop).maps(true), Opts::new(Res::Panic).tuple(true)], &RES) {
        let o = Opts { path: None, ..o };
        let or = o.clone().path(r);
        // exactly the ambiguous columns on matching paths are JSON
        let a = conform(s, Fmt::Bq, &or, diff::ALL, l);
        let plain = imp::bq(s, &o);
        // the metadata of the document selects in the same way, and wins over the caller
        let mut m = s.clone();
        m["mozPipelineMetadata"] = json!({"json_object_path_regex": r, "bq_table": "t"});
        let v1 = imp::bq(&m, &o);
        let v2 = imp::bq(&m, &o.clone().path("zzz|.*"));
        // metadata below the root is not consulted
        let deep = text::map_nodes(s, &mut |n, i| {
            if i > 0 {
                n.insert("mozPipelineMetadata".into(), json!({"json_object_path_regex": r}));
            }
        });
        let v3 = imp::bq(&deep, &o);
        let same = |x: &Out, y: &Out| x == y || (!x.is_ok() && !y.is_ok());
        let bad = |what: &str, x: &Out, y: &Out, l: &mut Local| {
            l.violation(what, json!({"options": or.json(), "actual": short(x.show()), "expected": short(y.show())}));
        };
        l.ran(4);
        l.compared += 3;
        if !same(&v1, &a) {
            bad("the path in the metadata is not the path given by the caller", &v1, &a, l);
        }
        if !same(&v2, &a) {
            bad("the path in the metadata does not win over the caller", &v2, &a, l);
        }
        if !same(&v3, &plain) {
            bad("metadata below the root selects JSON columns", &v3, &plain, l);
        }
        // whatever the pattern, columns only turn from STRING into JSON, or come back if dropped
        match (&plain, &a) {
            (Out::Ok(p), Out::Ok(a)) if o.res == Res::Cast => {
                for d in diff::diff(Fmt::Bq, a, p) {
                    if d.kind != K::Type || !d.actual.contains("\"type\":\"JSON\"") {
                        l.violation(&format!("a JSON path changes something else at {}", d.path), json!({"options": or.json(), "with": d.actual, "without": d.expected}));
                        break;
                    }
                }
            }
            (Out::Ok(p), Out::Ok(a)) => {
                if let Some(d) = diff::diff(Fmt::Bq, a, p).into_iter().find(|d| d.kind != K::Extra) {
                    l.violation(&format!("a JSON path removes or changes a column at {}", d.path), json!({"options": or.json(), "with": d.actual, "without": d.expected}));
                }
            }
            (Out::Ok(p), Out::Panic(m)) => l.violation("a JSON path takes the output away", json!({"options": or.json(), "with": m, "without": p})),
            _ => (),
        }
        let (x, y, z) = (imp::avro(s, &o), imp::avro(s, &or), imp::avro(&m, &o));
        l.ran(3);
        if !same(&x, &y) || !same(&x, &z) {
            bad("a JSON path changes the Avro schema", &y, &x, l);
        }
    }
}

// ---------------------------------------------------------------- C13

fn tuple_items() -> Vec<Value> {
    vec![
        gen::ty("integer"),
        json!({"type": ["string", "null"]}),
        json!({}),
        json!({"oneOf": [{"type": "integer"}, {"type": "number"}]}),
        gen::obj(vec![("a", gen::ty("integer"))], Some(vec!["a"])),
        json!({"type": "array", "items": [{"type": "integer"}, {"type": "string"}], "maxItems": 2, "minItems": 1}),
        json!({"type": "array", "items": {"type": "integer"}}),
        gen::ty("null"),
    ]
}

fn c13_families(t: Tier) -> Vec<Family> {
    vec![
        family("tuples", format!("item lists over {} schemas up to length {}, x minItems x maxItems x additionalItems", t.pick(5, 8), t.pick(2, 3)), move |e| {
            gen::tuples(&tuple_items()[..t.pick(5, 8)], t.pick(2, 3), e)
        }, c13::<false>),
        family("long tuples", "3..=14 items with every bound", move |e| {
            for k in 3..=t.pick(12usize, 14) {
                let items: Vec<Value> = (0..k).map(|i| tuple_items()[if i % 8 == 2 || i % 8 == 7 { 0 } else { i % 8 }].clone()).collect();
                for min in std::iter::once(None).chain((0..=k + 1).map(Some)) {
                    for max in [None, Some(0), Some(k - 1), Some(k), Some(k + 1), Some(k + 4)] {
                        for a in [None, Some(json!(false)), Some(json!(true)), Some(json!({"type": "string"})), Some(json!({"type": "array", "items": {"type": "integer"}}))] {
                            let mut s = json!({"type": "array", "items": items});
                            if let Some(m) = min {
                                s["minItems"] = json!(m);
                            }
                            if let Some(m) = max {
                                s["maxItems"] = json!(m);
                            }
                            if let Some(a) = a {
                                s["additionalItems"] = a;
                            }
                            e(s);
                        }
                    }
                }
            }
        }, c13::<false>),
        family("tuples in contexts", "tuples of length 1 and 2 in every context", move |e| {
            let mut v = Vec::new();
            gen::tuples(&tuple_items()[..t.pick(2, 4)], 2, &mut |x| v.push(x));
            for x in v {
                for (_, c) in gen::all_ctx() {
                    e(c(x.clone()));
                }
            }
        }, c13::<false>),
        family("compositions", "the standard compositions of depth 2, with tuples as structs", |e| gen::compositions(&gen::all_ctx(), &gen::few_leaves(), 2, e), c13::<false>),
        family("large bounds", "minItems and maxItems up to 2^64-1, up to 130 additional items", |e| gen::bounds(e), c13::<false>),
        options(t, c13::<true>).remove(0),
    ]
}

fn c13<const ALL: bool>(s: &Value, l: &mut Local) {
    const KS: &[K] = &[K::Abort, K::NoAbort, K::Type, K::Null, K::Default, K::Missing, K::Extra, K::Order, K::Naming, K::Other];
    for o in every::<ALL>(&[Opts::cast().tuple(true), Opts::cast(), Opts::cast().tuple(true).force(true), Opts::new(Res::Drop).tuple(true), Opts::new(Res::Panic).tuple(true), Opts::new(Res::Drop)], &RES) {
        both(s, &o, KS, l);
    }
}

// ---------------------------------------------------------------- C17

/// Regular expressions as they are written in schemas, and some that are none.
const PATTERNS: [&str; 24] = [
    ".*", "^.*$", ".+", "^.+$", ".", "", "^", "$", "^$", "a", "^a", "^p$", "^[a-z]+$", "^[0-9]+$", "^\\d{1,3}$", "^x-", "additionalProperties", "properties", "key", "value", "*", "(", "é", "^(?!a).*$",
];

fn c17_families(t: Tier) -> Vec<Family> {
    let forms: Vec<gen::Ctx> = vec![
        ("additional", |x| json!({"type": "object", "additionalProperties": x})),
        ("untyped", |x| json!({ "additionalProperties": x })),
        ("pattern", |x| json!({"type": "object", "patternProperties": {"^p": x}})),
        ("two patterns", |x| json!({"type": "object", "patternProperties": {"^p": x, "^q": {"type": "integer"}}})),
        ("pattern and additional", |x| json!({"type": "object", "patternProperties": {"^p": {"type": "integer"}}, "additionalProperties": x})),
        ("no pattern and additional", |x| json!({"type": "object", "patternProperties": {}, "additionalProperties": x})),
        ("nullable", |x| json!({"type": ["object", "null"], "additionalProperties": x})),
        ("closed pattern", |x| json!({"type": "object", "patternProperties": {".*": x}, "additionalProperties": false})),
        ("open pattern", |x| json!({"type": "object", "patternProperties": {".*": x}, "additionalProperties": true, "required": ["z"]})),
        ("alternatives", |x| json!({"oneOf": [{"type": "object", "additionalProperties": x}, {"type": "object", "additionalProperties": {"type": "integer"}}]})),
        ("optional", |x| json!({"oneOf": [{"type": "null"}, {"type": "object", "additionalProperties": x}]})),
    ];
    let f2 = forms.clone();
    vec![
        family("maps", "11 forms of a map over every composition of <= 1 context (depth 2 thorough), at the root and in 9 places", move |e| {
            for x in gen::level(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), 1) {
                for (_, m) in &forms {
                    let m = m(x.clone());
                    e(m.clone());
                    for (i, (_, c)) in gen::CORE.iter().enumerate() {
                        if t.thorough() || [0, 2, 3, 4, 6, 11].contains(&i) {
                            e(c(m.clone()));
                        }
                    }
                }
            }
        }, c17::<false>),
        family("maps of maps", format!("towers of 11 forms up to height {}", t.pick(3, 4)), move |e| {
            gen::compositions(&f2, &gen::few_leaves()[..4], t.pick(3, 4), e)
        }, c17::<false>),
        family("patterns", "pairs of the representatives as patterns and additional properties", move |e| {
            gen::pairs(&pair_set(t), &gen::BINARY.iter().filter(|b| b.0.contains("pattern") || b.0.contains("map")).cloned().collect::<Vec<_>>(), e)
        }, c17::<false>),
        family("many patterns", "1..=16 patterns, one of them different", move |e| {
            for k in 1..=16usize {
                for odd in 0..k {
                    for (x, y) in [("integer", "number"), ("integer", "null"), ("string", "integer")] {
                        let p: serde_json::Map<String, Value> = (0..k).map(|i| (format!("^p{}", i), gen::ty(if i == odd { y } else { x }))).collect();
                        for a in [None, Some(json!(false)), Some(gen::ty(x)), Some(json!({"type": [x, "null"]}))] {
                            let mut s = json!({"type": "object", "patternProperties": p});
                            if let Some(a) = a {
                                s["additionalProperties"] = a;
                            }
                            e(s.clone());
                            e(gen::obj(vec![("m", s)], Some(vec!["m"])));
                        }
                    }
                }
            }
        }, c17::<false>),
        family("expressions", format!("ordered pairs of {} expressions as patterns, with equal and different values, with and without additional properties", PATTERNS.len()), move |e| {
            for p in PATTERNS {
                for q in PATTERNS {
                    for (x, y) in [(gen::ty("integer"), gen::ty("number")), (gen::ty("integer"), gen::ty("string")), (json!({"type": ["string", "null"]}), gen::ty("string")), (gen::ty("null"), gen::ty("boolean"))] {
                        // the same expression twice is one pattern
                        let s = json!({"type": "object", "patternProperties": {p: x, q: y}});
                        e(s.clone());
                        e(gen::with(s.clone(), "additionalProperties", json!({"type": "integer"})));
                        e(gen::obj(vec![("m", gen::with(s, "additionalProperties", json!(p < q)))], Some(vec!["m"])));
                    }
                }
            }
        }, c17::<false>),
        family("keyword product", "which of the keywords makes a map", move |e| gen::keyword_product(false, e), c17::<false>),
        options(t, c17::<true>).remove(0),
    ]
}

fn c17<const ALL: bool>(s: &Value, l: &mut Local) {
    const KS: &[K] = &[K::Abort, K::NoAbort, K::Type, K::Null, K::Default, K::Missing, K::Extra, K::Other];
    for o in every::<ALL>(&[Opts::cast(), Opts::cast().force(true), Opts::new(Res::Drop).tuple(true), Opts::new(Res::Panic)], &RES) {
        let om = o.clone().maps(true);
        for f in FMTS {
            let a = conform(s, f, &o, KS, l);
            let b = conform(s, f, &om, KS, l);
            let same = a == b || (!a.is_ok() && !b.is_ok());
            let ok = if o.res != Res::Drop || f == Fmt::Avro {
                same
            } else {
                // maps without values come back, nothing else happens
                match (&a, &b) {
                    (Out::Ok(x), Out::Ok(y)) => diff::diff(f, y, x).iter().all(|d| d.kind == K::Extra),
                    (Out::Panic(_), _) => true,
                    _ => false,
                }
            };
            if !ok {
                l.violation("allowing maps without a value does more than that", json!({"options": o.json(), "format": format!("{:?}", f), "without": short(a.show()), "with": short(b.show())}));
            }
        }
    }
}

// ---------------------------------------------------------------- C18

fn c18_families(t: Tier) -> Vec<Family> {
    vec![
        family("siblings", "a column beside another: every pair of representatives, three name orders, in five containers", move |e| {
            let set = t.pick(gen::level(gen::CORE, &gen::few_leaves()[..4], 1), gen::level(&gen::all_ctx(), &gen::few_leaves(), 1));
            for (i, x) in set.iter().enumerate() {
                for (j, y) in set.iter().enumerate() {
                    e(json!({"x": gen::annotate(x, i), "y": gen::annotate(y, i / 4 + j)}));
                }
            }
        }, c18_siblings),
        family("nesting", "every composition at the root and below an object, an array, a map and a tuple", move |e| {
            let mut i = 0;
            let mut emit = |x| {
                i += 1;
                e(json!({ "x": gen::annotate(&x, i) }))
            };
            gen::compositions(&gen::all_ctx(), &gen::leaves(), 2, &mut emit);
            gen::stress(t.pick(6, 20), &mut emit);
            gen::realistic(&mut emit);
            gen::pairs(&pair_set(Tier::Quick), &gen::BINARY[..t.pick(3, gen::BINARY.len())], &mut emit);
            if t.thorough() {
                gen::compositions(gen::CORE, &gen::few_leaves(), 3, &mut emit);
            }
        }, c18_nesting::<false>),
        family("every option", "nesting of the compositions of one context and the pairs, with every combination of options", move |e| {
            let mut i = 0;
            let mut emit = |x| {
                i += 1;
                e(json!({ "x": gen::annotate(&x, i) }))
            };
            gen::realistic(&mut emit);
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), t.pick(1, 2), &mut emit);
            gen::pairs(&gen::few_leaves(), gen::BINARY, &mut emit);
        }, c18_nesting::<true>),
        family("crowds", "a column beside 1..=257 (thorough: 1000) others", move |e| {
            for (i, x) in gen::level(gen::CORE, &gen::few_leaves()[..t.pick(3, 6)], 1).iter().enumerate() {
                let x = gen::annotate(x, i);
                for k in [1usize, 2, 3, 7, 8, 15, 16, 17, 31, 40, 63, 64, 65, 100, 128, 129, 257, 1000].into_iter().take(t.pick(17, 18)) {
                    e(json!({"x": x, "k": k}));
                }
            }
        }, c18_crowd),
        family("required lists", format!("a column beside 0..={} others, required or not, with every number of other names required", t.pick(9, 20)), move |e| {
            for (i, x) in gen::level(gen::CORE, &gen::few_leaves()[..t.pick(2, 6)], 1).iter().enumerate() {
                let x = gen::annotate(x, i);
                for k in 0..=t.pick(9, 20) {
                    for r in 0..=k + 1 {
                        e(json!({"x": x, "k": k, "r": r}));
                    }
                }
            }
        }, c18_required),
    ]
}

fn field<'a>(f: Fmt, v: &'a Value, n: &str) -> Option<&'a Value> {
    let fs = match f {
        Fmt::Avro => strip(v).and_then(|(_, t)| t["fields"].as_array())?,
        Fmt::Bq => v.as_array()?,
    };
    fs.iter().find(|x| x["name"] == n)
}

/// The outputs of `big` and of `small` agree on column `n`; a column that is alone and dropped
/// takes its record with it, or (under cast) leaves a string.
fn agree(f: Fmt, o: &Opts, big: (&Value, &Out), small: (&Value, &Out), n: &str, l: &mut Local) {
    let get = |x: &Out| x.ok().and_then(|v| field(f, v, n).cloned());
    let (a, b) = (get(big.1), get(small.1));
    if a != b {
        l.violation(&format!("column {} depends on what is beside it", n), json!({"options": o.json(), "format": format!("{:?}", f), "schema": big.0, "beside": short(format!("{:?}", a.map(|x| x.to_string()))),
            "alone schema": small.0, "alone": short(format!("{:?}", b.map(|x| x.to_string())))}));
    }
}

fn c18_siblings(c: &Value, l: &mut Local) {
    let (x, y) = (&c["x"], &c["y"]);
    for (n, m) in [("b", "a"), ("b", "c"), ("aB", "a")] {
        for o in [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true).case(true), Opts::new(Res::Panic).tuple(true)] {
            let req = vec![n, m, "unknown"];
            let big = gen::obj(vec![(n, x.clone()), (m, y.clone())], Some(req.clone()));
            let xs = gen::obj(vec![(n, x.clone())], Some(req.clone()));
            let ys = gen::obj(vec![(m, y.clone())], Some(req.clone()));
            let col = |n: &str| if o.case { crate::model::snake(n) } else { n.to_string() };
            for f in FMTS {
                let (b, p, q) = (imp::conv(f, &big, &o), imp::conv(f, &xs, &o), imp::conv(f, &ys, &o));
                l.ran(3);
                l.compared += 2;
                l.outcome(&b.show());
                if o.res == Res::Panic {
                    if b.is_ok() != (p.is_ok() && q.is_ok()) {
                        l.violation("whether an object is accepted is not decided by its columns", json!({"options": o.json(), "schema": big, "both": b.is_ok(), "first": p.is_ok(), "second": q.is_ok()}));
                    }
                    if !b.is_ok() {
                        continue;
                    }
                }
                if o.res == Res::Cast && !(b.is_ok() && p.is_ok() && q.is_ok()) {
                    if b.is_ok() != (p.is_ok() && q.is_ok()) {
                        l.violation("whether an object is translated is not decided by its columns", json!({"options": o.json(), "schema": big}));
                    }
                    continue;
                }
                agree(f, &o, (&big, &b), (&xs, &p), &col(n), l);
                agree(f, &o, (&big, &b), (&ys, &q), &col(m), l);
            }
        }
    }
}

/// Move an Avro type from the root to another place: only the names of records change.
fn rename(v: &Value, name: &str, ns: &str) -> Value {
    match v {
        Value::Array(x) => Value::Array(x.iter().map(|y| rename(y, name, ns)).collect()),
        Value::Object(m) => {
            let record = m.get("type").map_or(false, |t| t == "record");
            let mut o: serde_json::Map<String, Value> = m.iter().map(|(k, v)| (k.clone(), rename(v, name, ns))).collect();
            if record {
                match m.get("namespace").and_then(Value::as_str) {
                    None => {
                        o.insert("name".into(), json!(name));
                        o.insert("namespace".into(), json!(ns));
                    }
                    Some(s) => {
                        let rest = s.strip_prefix("root").unwrap_or("?");
                        o.insert("namespace".into(), json!(format!("{}.{}{}", ns, name, rest)));
                    }
                }
            }
            Value::Object(o)
        }
        v => v.clone(),
    }
}

fn c18_nesting<const ALL: bool>(c: &Value, l: &mut Local) {
    let x = &c["x"];
    for o in every::<ALL>(&[Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true), Opts::cast().case(true).force(true)], &RES) {
        if o.path.is_some() {
            // a path selects by place
            continue;
        }
        let alone = imp::avro(x, &o);
        let alone_bq = imp::bq(x, &o);
        l.ran(2);
        l.outcome(&alone.show());
        let bad = |what: &str, s: &Value, a: String, e: String, l: &mut Local| {
            l.violation(what, json!({"options": o.json(), "schema": s, "nested": short(a), "alone": short(e)}));
        };
        let null = |t: &Value| strip(t).map_or(false, |(_, t)| t["type"] == "null");
        // in an object, as the items of an array, as the values of a map, and as the item of a tuple
        for place in 0..5 {
            let (s, name, ns) = match place {
                0 => (gen::obj(vec![("p", x.clone())], Some(vec!["p"])), "p", "root"),
                1 => (gen::obj(vec![("o", gen::obj(vec![("p", x.clone())], Some(vec!["p"]))), ("q", gen::ty("integer"))], Some(vec!["o"])), "p", "root.o"),
                2 => (gen::obj(vec![("p", json!({"type": "array", "items": x}))], Some(vec!["p"])), "list", "root.p"),
                3 => (gen::obj(vec![("p", json!({"type": "object", "additionalProperties": x}))], Some(vec!["p"])), "value", "root.p"),
                _ => (json!({"type": "array", "items": [x], "maxItems": 1}), "f0_", "root"),
            };
            if place == 4 && !o.tuple {
                continue;
            }
            let (a, b) = (imp::avro(&s, &o), imp::bq(&s, &o));
            l.ran(2);
            l.compared += 2;
            // Avro
            match (&alone, &a) {
                (Out::Ok(t), Out::Ok(v)) => {
                    let at = match place {
                        0 => field(Fmt::Avro, v, "p").map(|f| f["type"].clone()),
                        1 => field(Fmt::Avro, v, "o").and_then(|f| field(Fmt::Avro, &f["type"], "p")).map(|f| f["type"].clone()),
                        2 => field(Fmt::Avro, v, "p").map(|f| strip(&f["type"]).map_or(Value::Null, |t| t.1["items"].clone())),
                        3 => field(Fmt::Avro, v, "p").map(|f| strip(&f["type"]).map_or(Value::Null, |t| t.1["values"].clone())),
                        _ => field(Fmt::Avro, v, "f0_").map(|f| f["type"].clone()),
                    };
                    let mut at = at.unwrap_or(Value::Null);
                    // an array inside of an array is wrapped in a record
                    if place == 2 && strip(t).map_or(false, |t| t.1["type"] == "array") {
                        at = field(Fmt::Avro, &at, "list").map_or(Value::Null, |f| f["type"].clone());
                    }
                    let e = rename(t, name, ns);
                    if at != e {
                        bad("an Avro type depends on where it is", &s, at.to_string(), e.to_string(), l);
                    }
                }
                (Out::Panic(_), Out::Ok(v)) if o.res == Res::Drop && field(Fmt::Avro, v, "p").is_none() => (),
                (Out::Panic(_), Out::Panic(_)) => (),
                // dropped: what contains it goes as well
                (x, y) => bad("whether there is an Avro schema depends on the place", &s, y.show(), x.show(), l),
            }
            // BigQuery
            match (&alone_bq, &b) {
                (Out::Ok(t), Out::Ok(v)) => {
                    let at = match place {
                        0 => field(Fmt::Bq, v, "p"),
                        1 => field(Fmt::Bq, v, "o").and_then(|f| field(Fmt::Bq, &f["fields"], "p")),
                        2 => field(Fmt::Bq, v, "p"),
                        3 => field(Fmt::Bq, v, "p").and_then(|f| field(Fmt::Bq, &f["fields"], "value")),
                        _ => field(Fmt::Bq, v, "f0_"),
                    };
                    let at = at.cloned().unwrap_or(Value::Null);
                    let root_column = t.as_array().map_or(false, |x| x.len() == 1 && x[0]["name"] == "root" && !(alone.ok().map_or(false, |t| strip(t).map_or(false, |t| t.1["type"] == "record"))));
                    let ok = if root_column {
                        // type, fields and mode are the same, unless the column is repeated by the array
                        let r = &t[0];
                        let inner = if place == 2 && r["mode"] == "REPEATED" && at["fields"].as_array().map_or(false, |f| f.len() == 1 && f[0]["name"] == "list") { at["fields"][0].clone() } else { at.clone() };
                        inner["type"] == r["type"] && inner.get("fields") == r.get("fields") && (inner["mode"] == r["mode"] || place == 2)
                    } else {
                        at["type"] == "RECORD" && at["fields"] == *t
                    };
                    if !ok {
                        bad("a BigQuery column depends on where it is", &s, at.to_string(), t.to_string(), l);
                    }
                }
                (Out::Panic(_), Out::Ok(v)) if o.res == Res::Drop && (field(Fmt::Bq, v, "p").is_none() || (o.maps && place == 3)) => (),
                (Out::Panic(_), Out::Panic(_)) => (),
                (x, y) => bad("whether there is a BigQuery schema depends on the place", &s, y.show(), x.show(), l),
            }
            let _ = null;
        }
    }
}

fn c18_crowd(c: &Value, l: &mut Local) {
    let (x, k) = (&c["x"], c["k"].as_u64().unwrap() as usize);
    let fill = [gen::ty("integer"), json!({}), json!({"type": "array", "items": {"type": "string"}}), gen::obj(vec![("m", gen::ty("integer"))], None), json!({"type": ["object", "null"], "additionalProperties": {"type": "number"}}), gen::ty("null")];
    for o in [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true)] {
        for f in FMTS {
            let small = gen::obj(vec![("m", x.clone())], Some(vec!["m"]));
            let b = imp::conv(f, &small, &o);
            for before in [0, k / 2, k] {
                let names: Vec<String> = (0..k).map(|i| if i < before { format!("a{}", i) } else { format!("z{}", i) }).collect();
                let mut fields: Vec<(&str, Value)> = names.iter().enumerate().map(|(i, n)| (n.as_str(), fill[i % 6].clone())).collect();
                fields.push(("m", x.clone()));
                let req: Vec<&str> = names.iter().map(String::as_str).chain(["m"]).collect();
                let big = gen::obj(fields, Some(req));
                let a = imp::conv(f, &big, &o);
                l.ran(1);
                l.compared += 1;
                l.outcome(&a.show());
                if a.is_ok() && (b.is_ok() || o.res == Res::Drop) {
                    agree(f, &o, (&big, &a), (&small, &b), "m", l);
                }
            }
            l.ran(1);
        }
    }
}

/// A column beside `k` others of which `r` are required (the last one of them is not declared).
fn c18_required(c: &Value, l: &mut Local) {
    let (x, k, r) = (&c["x"], c["k"].as_u64().unwrap() as usize, c["r"].as_u64().unwrap() as usize);
    let fill = [json!({"type": "array", "items": {"type": "string"}}), gen::ty("integer"), gen::obj(vec![("m", gen::ty("integer"))], None), json!({"type": "object", "additionalProperties": {"type": "number"}})];
    let names: Vec<String> = (0..=k).map(|i| format!("{}{}", ["a", "z"][i % 2], i)).collect();
    for own in [false, true] {
        for o in [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true)] {
            let list = |others: &[String]| others.iter().map(String::as_str).chain(["m"].into_iter().take(own as usize)).map(String::from).collect::<Vec<_>>();
            let mut fields: Vec<(&str, Value)> = names[..k].iter().enumerate().map(|(i, n)| (n.as_str(), fill[i % 4].clone())).collect();
            fields.push(("m", x.clone()));
            let req = list(&names[..r]);
            let big = gen::obj(fields, Some(req.iter().map(String::as_str).collect()));
            let req = list(&[]);
            let small = gen::obj(vec![("m", x.clone())], Some(req.iter().map(String::as_str).collect()));
            for f in FMTS {
                let (a, b) = (imp::conv(f, &big, &o), imp::conv(f, &small, &o));
                l.ran(2);
                l.compared += 1;
                l.outcome(&a.show());
                if a.is_ok() && (b.is_ok() || o.res == Res::Drop) {
                    agree(f, &o, (&big, &a), (&small, &b), "m", l);
                }
            }
        }
    }
}
