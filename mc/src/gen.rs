//! The transition system that is explored. A state is a draft-04 schema; a transition wraps a state
//! in one construct (a one-hole context) or combines two or three states. All families are finite
//! and enumerated completely, in a fixed order, smallest first.
use serde_json::{json, Map, Value};

pub fn ty(t: &str) -> Value {
    json!({ "type": t })
}

/// The leaves: every atom, both kinds of "nothing is known", and small type lists.
pub fn leaves() -> Vec<Value> {
    vec![
        ty("integer"),
        ty("string"),
        ty("null"),
        json!({}),
        ty("number"),
        ty("boolean"),
        json!({"type": "string", "format": "date-time"}),
        json!({"type": "string", "format": "bytes"}),
        ty("object"),
        ty("array"),
        json!({"type": ["integer", "null"]}),
        json!({"type": ["integer", "string"]}),
        json!({"type": ["number", "integer"]}),
        json!({"type": "object", "properties": {}}),
    ]
}

pub fn few_leaves() -> Vec<Value> {
    vec![
        ty("integer"),
        ty("string"),
        ty("null"),
        json!({}),
        json!({"type": "string", "format": "date-time"}),
        json!({"type": ["integer", "null"]}),
    ]
}

pub type Ctx = (&'static str, fn(Value) -> Value);

pub fn with(mut x: Value, k: &str, v: Value) -> Value {
    x[k] = v;
    x
}

/// The core contexts: one for every construct of the language.
pub const CORE: &[Ctx] = &[
    ("optional property", |x| json!({"type": "object", "properties": {"a": x}})),
    ("required property", |x| json!({"type": "object", "properties": {"a": x}, "required": ["a"]})),
    ("property with sibling", |x| {
        json!({"type": "object", "properties": {"a": x, "b": {"type": "integer"}}, "required": ["b"]})
    }),
    ("items", |x| json!({"type": "array", "items": x})),
    ("map", |x| json!({"type": "object", "additionalProperties": x})),
    ("oneOf [x]", |x| json!({ "oneOf": [x] })),
    ("oneOf [x, null]", |x| json!({"oneOf": [x, {"type": "null"}]})),
    ("oneOf [null, x]", |x| json!({"oneOf": [{"type": "null"}, x]})),
    ("oneOf [x, x]", |x| json!({"oneOf": [x.clone(), x]})),
    ("oneOf [x, string]", |x| json!({"oneOf": [x, {"type": "string"}]})),
    ("tuple [x]", |x| json!({"type": "array", "items": [x], "maxItems": 1})),
    ("tuple [int, x?]", |x| {
        json!({"type": "array", "items": [{"type": "integer"}, x], "minItems": 1, "additionalItems": false})
    }),
    ("nullable object", |x| json!({"type": ["object", "null"], "properties": {"a": x}, "required": ["a"]})),
    ("nullable array", |x| json!({"type": ["array", "null"], "items": x})),
    ("patternProperties", |x| json!({"type": "object", "patternProperties": {"^p": x}})),
];

/// The remaining contexts.
pub const EXTRA: &[Ctx] = &[
    ("untyped object", |x| json!({"properties": {"a": x}, "required": ["a", "z"]})),
    ("properties beside a map", |x| {
        json!({"type": "object", "properties": {"a": x}, "additionalProperties": {"type": "integer"}, "patternProperties": {"^p": {"type": "string"}}})
    }),
    ("closed object", |x| {
        json!({"type": "object", "properties": {"b": {"type": "string"}, "a": x}, "additionalProperties": false, "required": ["a", "b"]})
    }),
    ("tuple [int] + x", |x| {
        json!({"type": "array", "items": [{"type": "integer"}], "additionalItems": x, "maxItems": 3})
    }),
    ("tuple [x, x, x] 1..", |x| {
        json!({"type": "array", "items": [x.clone(), x.clone(), x], "minItems": 1, "maxItems": 3})
    }),
    ("unbounded tuple", |x| json!({"type": "array", "items": [x]})),
    ("pattern + additional", |x| {
        json!({"type": "object", "patternProperties": {"^p": x}, "additionalProperties": {"type": "integer"}})
    }),
    ("pattern + additional x", |x| {
        json!({"type": "object", "patternProperties": {"^p": {"type": "integer"}}, "additionalProperties": x})
    }),
    ("two patterns", |x| json!({"patternProperties": {"^p": x.clone(), "^q": x}})),
    ("closed pattern", |x| json!({"type": "object", "patternProperties": {"^p": x}, "additionalProperties": false})),
    ("nullable map", |x| json!({"type": ["null", "object"], "additionalProperties": x})),
    ("renamed property", |x| json!({"type": "object", "properties": {"a-b.c": x}, "required": ["a-b.c"]})),
    ("numeric property", |x| json!({"type": "object", "properties": {"1a": x}, "required": ["1a"]})),
    ("camel property", |x| json!({"type": "object", "properties": {"fooBar": x, "FOO": {"type": "integer"}}, "required": ["fooBar"]})),
    ("omitted property", |x| json!({"type": "object", "properties": {"$x": x, "b": {"type": "integer"}}})),
    ("described", |x| with(x, "description", json!("d"))),
    ("titled", |x| with(x, "title", json!("t"))),
    ("same object twice", |x| {
        json!({"oneOf": [
            {"type": "object", "properties": {"a": x.clone()}, "required": ["a"]},
            {"type": "object", "properties": {"a": x}}]})
    }),
    ("disjoint objects", |x| {
        json!({"oneOf": [
            {"type": "object", "properties": {"a": x}, "required": ["a"]},
            {"type": "object", "properties": {"b": {"type": "integer"}}, "required": ["b"]}]})
    }),
    ("growing object", |x| {
        json!({"oneOf": [
            {"type": "object", "properties": {"b": {"type": "integer"}}, "required": ["b"]},
            {"type": "object", "properties": {"a": x, "b": {"type": "integer"}}, "required": ["a", "b"]}]})
    }),
    ("array of x or int", |x| {
        json!({"oneOf": [{"type": "array", "items": x}, {"type": "array", "items": {"type": "integer"}}]})
    }),
    ("map of x or int", |x| {
        json!({"oneOf": [{"type": "object", "additionalProperties": x}, {"type": "object", "additionalProperties": {"type": "integer"}}]})
    }),
    ("object with oneOf", |x| json!({"type": "object", "oneOf": [x, {"type": "null"}]})),
    ("oneOf [x, int, null]", |x| json!({"oneOf": [x, {"type": "integer"}, {"type": "null"}]})),
    ("oneOf [[x]]", |x| json!({"oneOf": [{"oneOf": [x]}]})),
    ("oneOf [null, [x, null]]", |x| json!({"oneOf": [{"type": "null"}, {"oneOf": [x, {"type": "null"}]}]})),
    ("array of arrays", |x| json!({"type": "array", "items": {"type": "array", "items": x}})),
    ("object or array", |x| json!({"type": ["object", "array"], "properties": {"a": x.clone()}, "items": x})),
    ("second of three properties", |x| {
        json!({"type": "object", "properties": {"a": {"type": "string"}, "b": x, "c": {"type": "boolean"}}, "required": ["c", "a"]})
    }),
];

pub fn all_ctx() -> Vec<Ctx> {
    CORE.iter().chain(EXTRA).cloned().collect()
}

pub type Emit<'a> = &'a mut dyn FnMut(Value);

/// Every application of at most `depth` contexts to a leaf, breadth first.
pub fn compositions(ctx: &[Ctx], leaves: &[Value], depth: usize, emit: Emit) {
    let mut level: Vec<Value> = leaves.to_vec();
    for x in &level {
        emit(x.clone());
    }
    for d in 1..=depth {
        let mut next = Vec::new();
        for x in &level {
            for (_, c) in ctx {
                let y = c(x.clone());
                emit(y.clone());
                if d < depth {
                    next.push(y);
                }
            }
        }
        level = next;
    }
}

/// `outer` contexts around compositions of `ctx` (a mixed depth bound).
pub fn level(ctx: &[Ctx], leaves: &[Value], depth: usize) -> Vec<Value> {
    let mut v = Vec::new();
    let mut seen = std::collections::HashSet::new();
    compositions(ctx, leaves, depth, &mut |x| {
        if seen.insert(x.to_string()) {
            v.push(x)
        }
    });
    v
}

pub type Bin = (&'static str, fn(Value, Value) -> Value);
pub fn obj(fields: Vec<(&str, Value)>, required: Option<Vec<&str>>) -> Value {
    let mut m = Map::new();
    for (k, v) in fields {
        m.insert(k.to_string(), v);
    }
    let mut o = json!({"type": "object", "properties": Value::Object(m)});
    if let Some(r) = required {
        o["required"] = json!(r);
    }
    o
}
pub fn one_of(v: Vec<Value>) -> Value {
    json!({ "oneOf": v })
}

pub const BINARY: &[Bin] = &[
    ("oneOf [x, y]", |x, y| one_of(vec![x, y])),
    ("oneOf [x, null, y]", |x, y| one_of(vec![x, ty("null"), y])),
    ("oneOf [[x, null], y]", |x, y| one_of(vec![one_of(vec![x, ty("null")]), y])),
    ("oneOf [x, y, x]", |x, y| one_of(vec![x.clone(), y, x])),
    ("oneOf [{x}, {y}]", |x, y| one_of(vec![obj(vec![("a", x)], None), obj(vec![("a", y)], None)])),
    ("oneOf [{x!}, {y!}]", |x, y| {
        one_of(vec![obj(vec![("a", x)], Some(vec!["a"])), obj(vec![("a", y)], Some(vec!["a"]))])
    }),
    ("oneOf [{x!}, {y}]", |x, y| one_of(vec![obj(vec![("a", x)], Some(vec!["a"])), obj(vec![("a", y)], None)])),
    ("oneOf [{x}, {y!}]", |x, y| one_of(vec![obj(vec![("a", x)], Some(vec![])), obj(vec![("a", y)], Some(vec!["a"]))])),
    ("oneOf [{a: x!}, {b: y!}]", |x, y| {
        one_of(vec![obj(vec![("a", x)], Some(vec!["a"])), obj(vec![("b", y)], Some(vec!["b"]))])
    }),
    ("oneOf [{a: {x!}!}, {a: {y!}!}]", |x, y| {
        one_of(vec![
            obj(vec![("a", obj(vec![("b", x)], Some(vec!["b"])))], Some(vec!["a"])),
            obj(vec![("a", obj(vec![("b", y)], Some(vec!["b"])))], Some(vec!["a"])),
        ])
    }),
    ("oneOf [array x, array y]", |x, y| {
        one_of(vec![json!({"type": "array", "items": x}), json!({"type": "array", "items": y})])
    }),
    ("oneOf [map x, map y]", |x, y| {
        one_of(vec![
            json!({"type": "object", "additionalProperties": x}),
            json!({"type": "object", "additionalProperties": y}),
        ])
    }),
    ("oneOf [tuple x, tuple y]", |x, y| {
        one_of(vec![
            json!({"type": "array", "items": [x], "maxItems": 1}),
            json!({"type": "array", "items": [y], "maxItems": 1}),
        ])
    }),
    ("array of oneOf [x, y]", |x, y| json!({"type": "array", "items": one_of(vec![x, y])})),
    ("map of oneOf [x, y]", |x, y| json!({"type": "object", "additionalProperties": one_of(vec![x, y])})),
    ("patterns x and y", |x, y| json!({"type": "object", "patternProperties": {"^p": x, "^q": y}})),
    ("pattern x, additional y", |x, y| {
        json!({"type": "object", "patternProperties": {"^p": x}, "additionalProperties": y})
    }),
    ("{a: x!, b: y}", |x, y| obj(vec![("a", x), ("b", y)], Some(vec!["a"]))),
    ("{a: {b: x!}, b: y!}", |x, y| {
        obj(vec![("a", obj(vec![("b", x)], Some(vec!["b"]))), ("b", y)], Some(vec!["b"]))
    }),
    ("tuple [x, y]", |x, y| json!({"type": "array", "items": [x, y], "minItems": 2, "maxItems": 2})),
    ("tuple [x] + y", |x, y| json!({"type": "array", "items": [x], "additionalItems": y, "maxItems": 2})),
    ("tuple in a union", |x, y| {
        one_of(vec![json!({"type": "array", "items": [x], "additionalItems": false}), y])
    }),
];

pub fn pairs(set: &[Value], bin: &[Bin], emit: Emit) {
    for x in set {
        for y in set {
            for (_, b) in bin {
                emit(b(x.clone(), y.clone()));
            }
        }
    }
}

pub fn triples(set: &[Value], emit: Emit) {
    for x in set {
        for y in set {
            for z in set {
                emit(one_of(vec![x.clone(), y.clone(), z.clone()]));
                emit(one_of(vec![
                    obj(vec![("a", x.clone())], Some(vec!["a"])),
                    obj(vec![("a", y.clone()), ("b", ty("integer"))], Some(vec!["a", "b"])),
                    obj(vec![("a", z.clone())], Some(vec!["a"])),
                ]));
                emit(obj(vec![("a", x.clone()), ("b", y.clone()), ("c", z.clone())], Some(vec!["b"])));
            }
        }
    }
}

const TYPES: [&str; 7] = ["null", "boolean", "integer", "number", "string", "object", "array"];

/// Every ordered type list without repetition up to the given length (and a few with repetition),
/// with every keyword that one of its members would use present.
pub fn type_lists(max: usize, emit: Emit) {
    fn rec(cur: &mut Vec<&'static str>, max: usize, emit: &mut dyn FnMut(Value)) {
        if !cur.is_empty() {
            let l = json!(cur);
            emit(json!({ "type": l }));
            emit(json!({"type": l, "properties": {"a": {"type": "integer"}, "b": {"type": ["string", "null"]}}, "required": ["a", "b"]}));
            emit(json!({"type": l, "additionalProperties": {"type": "boolean"}}));
            emit(json!({"type": l, "items": {"type": "string"}}));
            emit(json!({"type": l, "items": {"type": "array", "items": {"type": "integer"}}, "oneOf": [{"type": "integer"}, {"type": "null"}]}));
            emit(json!({"type": l, "format": "date-time"}));
            emit(json!({"type": l, "items": [{"type": "integer"}, {"type": "string"}], "maxItems": 2, "minItems": 1}));
        }
        if cur.len() < max {
            for t in TYPES {
                if cur.contains(&t) && !(cur.len() == 1 && max > 1) {
                    continue;
                }
                cur.push(t);
                rec(cur, max, emit);
                cur.pop();
            }
        }
    }
    rec(&mut Vec::new(), max, emit);
}

/// The product of keyword presences: which keyword takes precedence in every combination.
pub fn keyword_product(big: bool, emit: Emit) {
    let none = || vec![None];
    let some = |vs: Vec<Value>| -> Vec<Option<Value>> { none().into_iter().chain(vs.into_iter().map(Some)).collect() };
    let types = some(vec![
        json!("object"),
        json!("array"),
        json!("string"),
        json!("integer"),
        json!("null"),
        json!(["object", "null"]),
        json!(["array", "null"]),
        json!(["object", "array"]),
        json!(["string", "null"]),
    ]);
    let props = some(vec![json!({}), json!({"a": {"type": "integer"}}), json!({"a": {}, "b": {"type": "string"}})]);
    let add = some(vec![json!(true), json!(false), json!({"type": "integer"}), json!({})]);
    let pat = some(vec![
        json!({}),
        json!({"^p": {"type": "integer"}}),
        json!({"^p": {"type": "integer"}, "^q": {"type": "number"}}),
        json!({"^p": {"type": "integer"}, "^q": {"type": "string"}}),
    ]);
    let one = some(vec![
        json!([{"type": "integer"}, {"type": "null"}]),
        json!([{"type": "integer"}, {"type": "string"}]),
        json!([{"type": "object", "properties": {"a": {"type": "integer"}}}]),
    ]);
    let req = some(vec![json!(["a"]), json!([])]);
    let fmt = some(vec![json!("date-time"), json!("email")]);
    let items = some(if big {
        vec![json!({"type": "integer"}), json!([{"type": "integer"}, {"type": "string"}])]
    } else {
        vec![json!({"type": "integer"})]
    });
    let put = |m: &mut Map<String, Value>, k: &str, v: &Option<Value>| {
        if let Some(v) = v {
            m.insert(k.to_string(), v.clone());
        }
    };
    for t in &types {
        for p in &props {
            for a in &add {
                for pp in &pat {
                    for o in &one {
                        for r in &req {
                            for f in &fmt {
                                if f.is_some() && !matches!(t, Some(Value::String(_))) && !big {
                                    continue;
                                }
                                for i in &items {
                                    let mut m = Map::new();
                                    put(&mut m, "type", t);
                                    put(&mut m, "properties", p);
                                    put(&mut m, "additionalProperties", a);
                                    put(&mut m, "patternProperties", pp);
                                    put(&mut m, "oneOf", o);
                                    put(&mut m, "required", r);
                                    put(&mut m, "format", f);
                                    put(&mut m, "items", i);
                                    emit(Value::Object(m));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
}

/// The tuple space: item lists x minItems x maxItems x additionalItems.
pub fn tuples(items: &[Value], max_len: usize, emit: Emit) {
    let mut lists: Vec<Vec<Value>> = vec![vec![]];
    let mut frontier = lists.clone();
    for _ in 0..max_len {
        let mut next = Vec::new();
        for l in &frontier {
            for i in items {
                let mut l = l.clone();
                l.push(i.clone());
                next.push(l);
            }
        }
        lists.extend(next.clone());
        frontier = next;
    }
    let add = [None, Some(json!(false)), Some(json!(true)), Some(json!({"type": "string"})), Some(json!({"type": ["integer", "null"]})), Some(json!({}))];
    for l in lists.into_iter().filter(|l| !l.is_empty()) {
        for min in std::iter::once(None).chain((0..=l.len() + 1).map(Some)) {
            for max in std::iter::once(None).chain((0..=l.len() + 2).map(Some)) {
                for a in &add {
                    let mut s = json!({"type": "array", "items": l});
                    if let Some(m) = min {
                        s["minItems"] = json!(m);
                    }
                    if let Some(m) = max {
                        s["maxItems"] = json!(m);
                    }
                    if let Some(a) = a {
                        s["additionalItems"] = a.clone();
                    }
                    emit(s);
                }
            }
        }
    }
}

/// Numbers of items far from the length of the list.
pub fn bounds(emit: Emit) {
    let huge: [u64; 10] = [255, 256, 257, 65535, 65536, 1 << 31, 1 << 32, (1 << 53) + 1, i64::MAX as u64, u64::MAX];
    let lists = [json!([{"type": "integer"}]), json!([{"type": "integer"}, {"type": ["string", "null"]}, {"type": "array", "items": {"type": "integer"}}]), json!({"type": "integer"})];
    let mut put = |s: Value| {
        emit(obj(vec![("a", s.clone()), ("b", ty("integer"))], Some(vec!["a"])));
        emit(s);
    };
    for items in &lists {
        let base = json!({"type": "array", "items": items});
        // what is added is an item of its own
        for max in [0u64, 1, 2, 3, 5, 9, 10, 11, 12, 16, 17, 32, 64, 101, 130] {
            for min in [0u64, 1, 2, 3, 16, 64, 65, 300] {
                let s = with(with(base.clone(), "minItems", json!(min)), "maxItems", json!(max));
                put(s.clone());
                put(with(s.clone(), "additionalItems", json!({"type": "string"})));
                put(with(s.clone(), "additionalItems", json!(false)));
                put(with(s, "additionalItems", json!(true)));
            }
        }
        for n in huge {
            put(with(with(base.clone(), "minItems", json!(n)), "additionalItems", json!(false)));
            put(with(with(base.clone(), "maxItems", json!(n)), "additionalItems", json!(false)));
            put(with(base.clone(), "maxItems", json!(n)));
            put(with(with(base.clone(), "minItems", json!(n)), "maxItems", json!(3)));
            put(with(with(base.clone(), "minItems", json!(n)), "maxItems", json!(n)));
            put(with(with(with(base.clone(), "minItems", json!(n)), "maxItems", json!(3)), "additionalItems", json!({"type": "string"})));
        }
    }
    for n in huge.iter().chain([&0, &1, &7]) {
        put(json!({"type": "array", "minItems": n, "maxItems": n}));
        put(json!({"type": "object", "minItems": n, "maxItems": n, "properties": {"a": {"type": "string", "minLength": n, "maxLength": n}}}));
        put(json!({"type": ["array", "null"], "items": {"type": "integer", "minimum": n, "multipleOf": n}, "minItems": n, "maxItems": n}));
    }
}

/// Linear families: the same construct repeated 1..=n times, in breadth or in depth.
pub fn stress(n: usize, emit: Emit) {
    for k in 1..=n {
        stress_k(k, emit);
    }
}

/// A column beside others: every representative, at three places among k others of seven kinds, with
/// all, none, only it, and all but it required.
pub fn populated(set: &[Value], ks: &[usize], emit: Emit) {
    let kinds = [ty("string"), json!({"type": "object", "additionalProperties": {"type": "integer"}}), obj(vec![("q", ty("integer"))], Some(vec!["q"])), json!({}),
        json!({"type": "array", "items": {"type": "number"}}), one_of(vec![ty("null"), ty("boolean")]), ty("null")];
    for (n, x) in set.iter().enumerate() {
        for k in ks {
            for place in 0..3 {
                let names: Vec<String> = (0..*k).map(|i| format!("{}{}", if i < k * place / 2 { "a" } else { "z" }, i)).collect();
                let mut fields: Vec<(&str, Value)> = names.iter().enumerate().map(|(i, s)| (s.as_str(), kinds[(i + n) % 7].clone())).collect();
                fields.push(("m", x.clone()));
                let o = obj(fields, None);
                for mode in 0..4 {
                    let r: Vec<&str> = match mode {
                        0 => vec![],
                        1 => vec!["m"],
                        2 => names.iter().map(String::as_str).collect(),
                        _ => names.iter().map(String::as_str).chain(["m"]).collect(),
                    };
                    emit(with(o.clone(), "required", json!(r)));
                }
            }
        }
    }
}

/// The same around powers of two, and large.
pub fn sizes(large: bool, emit: Emit) {
    for k in [20, 31, 32, 33, 50, 60, 63, 64, 65, 100, 127, 128, 129] {
        stress_k(k, emit);
    }
    if large {
        for k in [255, 256, 257, 511, 512, 513, 1000] {
            stress_k(k, emit);
        }
    }
}

pub fn stress_at(k: usize) -> Vec<Value> {
    let mut v = Vec::new();
    stress_k(k, &mut |x| v.push(x));
    v
}

fn stress_k(k: usize, emit: Emit) {
    let mix = |i: usize| -> Value {
        match i % 7 {
            0 => ty("integer"),
            1 => ty("string"),
            2 => json!({"type": ["boolean", "null"]}),
            3 => json!({"type": "array", "items": {"type": "number"}}),
            4 => json!({}),
            5 => obj(vec![("x", ty("integer")), ("yZ", ty("string"))], Some(vec!["yZ"])),
            _ => json!({"type": "object", "additionalProperties": {"type": "integer"}}),
        }
    };
    {
        // wide objects, with a required list of every third
        let mut m = Map::new();
        for i in 0..k {
            m.insert(format!("f{}", i), mix(i));
        }
        let req: Vec<String> = (0..k).filter(|i| i % 3 == 0).map(|i| format!("f{}", i)).collect();
        let wide = json!({"type": "object", "properties": m, "required": req});
        emit(wide.clone());
        emit(json!({"type": "array", "items": wide}));
        // wide objects merged with a shifted copy of themselves
        let mut m2 = Map::new();
        for i in k / 2..k + k / 2 {
            if i % 7 != 4 {
                m2.insert(format!("f{}", i), mix(i));
            }
        }
        let mut m1 = Map::new();
        for i in (0..k).filter(|i| i % 7 != 4) {
            m1.insert(format!("f{}", i), mix(i));
        }
        emit(one_of(vec![
            json!({"type": "object", "properties": m1, "required": req}),
            json!({"type": "object", "properties": m2, "required": ["f0", "f3", "f6", "f9", "f12"]}),
        ]));
        // many alternatives
        for x in [ty("integer"), json!({"type": "array", "items": {"type": "integer"}}), obj(vec![("a", ty("integer"))], Some(vec!["a"])), json!({"type": "object", "additionalProperties": {"type": "string"}})] {
            let mut v = vec![x.clone(); k];
            emit(one_of(v.clone()));
            v.push(ty("null"));
            emit(one_of(v.clone()));
            v.push(x.clone());
            emit(one_of(v.clone()));
            v.push(ty("boolean"));
            emit(one_of(v));
        }
        // k object variants that each add a property; the first is required in all
        let vs: Vec<Value> = (0..k)
            .map(|i| {
                let f = format!("f{}", i);
                let mut p = Map::new();
                p.insert("id".into(), ty("string"));
                p.insert(f.clone(), if i % 7 == 4 { ty("integer") } else { mix(i) });
                json!({"type": "object", "properties": p, "required": ["id", f]})
            })
            .collect();
        emit(one_of(vs));
        // depth
        let deep: Vec<fn(Value) -> Value> = vec![
            |x| json!({"type": "object", "properties": {"a": x}, "required": ["a"]}),
            |x| json!({"type": "object", "properties": {"a": x, "b": {"type": "integer"}}}),
            |x| json!({"type": "array", "items": x}),
            |x| json!({"type": "object", "additionalProperties": x}),
            |x| json!({"oneOf": [x, {"type": "null"}]}),
            |x| json!({"oneOf": [x]}),
            |x| json!({"type": ["object", "null"], "properties": {"a": x}, "required": ["a"]}),
            |x| json!({"type": ["array", "null"], "items": x}),
            |x| json!({"type": "array", "items": [x], "maxItems": 1}),
            |x| json!({"type": "array", "items": {"type": "object", "properties": {"a": x}, "required": ["a"]}}),
            |x| json!({"type": "object", "properties": {"aB": {"type": "object", "additionalProperties": x}}, "required": ["aB"]}),
        ];
        if k > 18 && (k == 32 || k == 60) {
            for (j, d) in deep.iter().enumerate() {
                let mut x = [ty("integer"), json!({}), json!({"type": ["string", "null"]})][j % 3].clone();
                for _ in 0..k {
                    x = d(x);
                }
                emit(x);
            }
        } else if k <= 24 {
            for (j, d) in deep.iter().enumerate() {
                for leaf in [ty("integer"), json!({}), json!({"type": ["string", "null"]})] {
                    let mut x = leaf;
                    for _ in 0..k {
                        x = d(x);
                    }
                    emit(x.clone());
                    // the same depth below a different construct
                    let e = deep[(j + 3) % deep.len()];
                    emit(e(x));
                }
            }
        }
        // many tuple items
        let items: Vec<Value> = (0..k).map(|i| if i % 7 == 4 { ty("number") } else { mix(i) }).collect();
        emit(json!({"type": "array", "items": items.clone(), "maxItems": k}));
        emit(json!({"type": "array", "items": items.clone(), "minItems": k / 2, "additionalItems": false}));
        emit(json!({"type": "array", "items": items, "minItems": k / 2, "additionalItems": {"type": "string"}, "maxItems": k + 3}));
        // many patterns
        let mut p = Map::new();
        for i in 0..k {
            p.insert(format!("^p{}", i), if i % 2 == 0 { ty("integer") } else { ty("number") });
        }
        emit(json!({"type": "object", "patternProperties": p}));
        emit(json!({"type": "object", "patternProperties": p, "additionalProperties": {"type": "null"}}));
        emit(json!({"type": "object", "patternProperties": p, "additionalProperties": {"type": "string"}}));
    }
}

/// Hand-picked combinations of features in one document, as a user would write them.
pub fn realistic(emit: Emit) {
    let dt = json!({"type": "string", "format": "date-time"});
    let ping = json!({
        "type": "object", "title": "ping", "description": "a ping", "$schema": "http://json-schema.org/draft-04/schema#",
        "properties": {
            "clientId": {"type": "string", "pattern": "^x"}, "creation-date": dt,
            "payload": {"type": "object", "properties": {
                "histograms": {"type": "object", "additionalProperties": {"type": "object", "properties": {
                    "bucketCount": {"type": "integer"}, "range": {"type": "array", "items": [{"type": "integer"}, {"type": "integer"}], "maxItems": 2},
                    "values": {"type": "object", "additionalProperties": {"type": "integer"}}}, "required": ["bucketCount", "range"]}},
                "events": {"type": "array", "items": {"type": "array", "items": [
                    {"type": "integer"}, {"type": "string"}, {"type": ["string", "null"]}, {"type": "object", "additionalProperties": {"type": "string"}}],
                    "minItems": 2, "maxItems": 4}},
                "simpleMeasurements": {"oneOf": [{"type": "object", "properties": {"main": {"type": "number"}, "uptime": {"type": "integer"}}, "required": ["main"]}, {"type": "null"}]},
                "lateWrites": {}, "64bit": {"type": "boolean"}},
                "required": ["histograms", "64bit"]},
            "version": {"oneOf": [{"type": "integer"}, {"type": "number"}]},
            "addons": {"type": ["object", "null"], "patternProperties": {"^.+$": {"type": "object", "properties": {"isSystem": {"type": "boolean"}, "installDay": {"type": ["integer", "null"]}}, "required": ["isSystem", "installDay"]}}}},
        "required": ["clientId", "payload", "version", "creation-date"]});
    emit(ping.clone());
    emit(json!({"type": "array", "items": ping}));
    emit(one_of(vec![ping.clone(), ty("null")]));
    emit(json!({"type": "object", "properties": {"aB": ping.clone(), "a-b": ty("integer")}, "required": ["aB"]}));
}

/// Put titles and descriptions on every subschema; which of them depends on the phase.
pub fn annotate(s: &Value, phase: usize) -> Value {
    fn go(s: &Value, n: &mut usize) -> Value {
        let Value::Object(m) = s else { return s.clone() };
        let i = *n;
        *n += 1;
        let mut o = serde_json::Map::new();
        for (k, v) in m {
            let w = match (k.as_str(), v) {
                ("properties" | "patternProperties", Value::Object(ps)) => Value::Object(ps.iter().map(|(k, v)| (k.clone(), go(v, n))).collect()),
                ("items" | "oneOf", Value::Array(xs)) => Value::Array(xs.iter().map(|v| go(v, n)).collect()),
                ("items" | "additionalProperties" | "additionalItems", _) => go(v, n),
                _ => v.clone(),
            };
            o.insert(k.clone(), w);
        }
        if i % 4 != 3 && i % 4 != 1 {
            o.insert("title".into(), json!(format!("title {}", i)));
        }
        if i % 4 == 1 || i % 4 == 2 {
            o.insert("description".into(), json!(format!("description {}", i)));
        }
        Value::Object(o)
    }
    go(s, &mut phase.clone())
}

/// A title, a description or both on one subschema at a time.
pub fn annotated(set: &[Value], emit: Emit) {
    fn go(s: &Value, n: &mut usize, at: usize, what: usize) -> Value {
        let Value::Object(m) = s else { return s.clone() };
        let i = *n;
        *n += 1;
        let mut o = serde_json::Map::new();
        for (k, v) in m {
            let w = match (k.as_str(), v) {
                ("properties" | "patternProperties", Value::Object(ps)) => Value::Object(ps.iter().map(|(k, v)| (k.clone(), go(v, n, at, what))).collect()),
                ("items" | "oneOf", Value::Array(xs)) => Value::Array(xs.iter().map(|v| go(v, n, at, what)).collect()),
                ("items" | "additionalProperties" | "additionalItems", _) => go(v, n, at, what),
                _ => v.clone(),
            };
            o.insert(k.clone(), w);
        }
        if i == at && what != 1 {
            o.insert("title".into(), json!("a title"));
        }
        if i == at && what != 0 {
            o.insert("description".into(), json!("a description"));
        }
        Value::Object(o)
    }
    for s in set {
        for what in 0..3 {
            let mut at = 0;
            loop {
                let mut n = 0;
                let v = go(s, &mut n, at, what);
                if at >= n {
                    break;
                }
                emit(v);
                at += 1;
            }
        }
    }
}

/// Properties whose names differ in case and separators, with every list of required ones.
pub fn similar_names(emit: Emit) {
    for set in [vec!["ab", "a_b", "x", "y"], vec!["aB", "a_b", "ab", "AB"], vec!["a1", "a_1", "1a", "_1a"], vec!["a", "b", "a_", "_a", "aa"], vec!["key", "value", "list", "Key", "k-ey"]] {
        let k = set.len();
        for mask in 1u32..1 << k {
            let mut r = mask;
            loop {
                let pick = |m: u32| set.iter().enumerate().filter(move |(i, _)| m >> i & 1 == 1).map(|(_, n)| *n);
                let o = json!({"type": "object", "properties": pick(mask).map(|n| (n.to_string(), ty("integer"))).collect::<serde_json::Map<_, _>>(), "required": pick(r).collect::<Vec<_>>()});
                emit(o.clone());
                if mask == (1 << k) - 1 {
                    emit(json!({"type": "object", "properties": {"w": {"type": "array", "items": o}}, "required": ["w"]}));
                    emit(json!({"oneOf": [o, {"type": "object", "properties": {set[0]: {"type": "integer"}, set[1]: {"type": "integer"}}, "required": [set[1]]}]}));
                }
                if r == 0 {
                    break;
                }
                r = (r - 1) & mask;
            }
        }
    }
}
