//! C07 column names.
use super::*;
use crate::diff::strip;
use serde_json::Map;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C07", builds: &["std"], families: c07_families }]
}

pub fn strings(alphabet: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut level = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for s in &level {
            for c in alphabet {
                let mut t = s.clone();
                t.push(*c);
                next.push(t);
            }
        }
        all.extend(next.clone());
        level = next;
    }
    all
}

const ALPHABET: [char; 8] = ['a', 'B', '7', '_', '-', '.', '$', 'z'];

fn named(n: &str, x: Value, required: bool) -> Value {
    let mut m = Map::new();
    m.insert(n.to_string(), x);
    let mut o = json!({"type": "object", "properties": m});
    if required {
        o["required"] = json!([n]);
    }
    o
}

fn special_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..128).map(char::from).collect();
    v.extend("é²½٣०Ａａß\u{301}\u{200d}\u{feff}中İıǅﬁſ\u{212a}\u{1F600}\u{2028}Δςªº".chars());
    v
}

/// Families of schemas whose interest is in the property names.
pub fn spaces(tier: Tier, check: Check) -> Vec<Family> {
    let len = tier.pick(4, 5);
    vec![
        family("names", format!("one required property, every name over {:?} up to length {}", ALPHABET, len), move |e| {
            for n in strings(&ALPHABET, len) {
                e(named(&n, json!({"type": "integer"}), true));
            }
        }, check),
        family("characters", "every ASCII character and 20 others, alone, first, last and inside of a name", |e| {
            for c in special_chars() {
                for n in [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("a{}b", c), format!("A{}B7", c), format!("{0}{0}", c), format!("a.b{}", c), format!("{}_-", c)] {
                    e(named(&n, json!({"type": "string"}), true));
                    e(named(&n, json!({"type": "string"}), false));
                    e(json!({"type": "object", "properties": {n.clone(): {"type": "string"}, "zz": {"type": "integer"}}, "required": ["zz"]}));
                }
            }
        }, check),
        family("unicode", "every character up to U+2FFF, of U+A600..A900, U+F900..FFFF and of the blocks with letters and digits above (thorough: every character), first and inside of a name", move |e| {
            let blocks: Vec<(u32, u32)> = tier.pick(vec![(0, 0x3000), (0xa600, 0xa900), (0xf900, 0x10000), (0x10400, 0x10500), (0x1d400, 0x1d800), (0x1f100, 0x1f200), (0x1fbc0, 0x1fc00), (0xe0000, 0xe0200)], vec![(0, 0x110000)]);
            for (a, b) in blocks {
                for at in (a..b).step_by(48) {
                    let cs: Vec<char> = (at..b.min(at + 48)).filter_map(char::from_u32).collect();
                    for (pre, post) in [("", "x"), ("x", "y"), ("aB", "")] {
                        let p: Map<String, Value> = cs.iter().map(|c| (format!("{}{}{}", pre, c, post), gen::ty("integer"))).chain([("a".to_string(), gen::ty("string"))]).collect();
                        let r: Vec<String> = p.keys().cloned().collect();
                        if r.len() > 1 {
                            e(json!({"type": "object", "properties": p, "required": r}));
                        }
                    }
                }
            }
        }, check),
        family("long names", "names of 1..=300 characters in four shapes", move |e| {
            for n in (1..=tier.pick(80usize, 300)).chain([299, 300, 301, 1024]) {
                for unit in ["a", "aB", "a-", "a1."] {
                    let s: String = unit.chars().cycle().take(n).collect();
                    e(named(&s, json!({"type": "integer"}), true));
                }
            }
        }, check),
        family("names in contexts", "36 names in every context", move |e| {
            for n in interesting() {
                for (_, c) in gen::all_ctx() {
                    e(c(named(n, json!({"type": "integer"}), true)));
                    e(c(named(n, json!({"type": "object", "properties": {n: {"type": "string"}}, "required": [n]}), true)));
                    if tier.thorough() {
                        for (_, d) in gen::CORE {
                            e(d(c(named(n, json!({"type": "integer"}), true))));
                        }
                    }
                }
            }
        }, check),
        family("pairs of names", "pairs of 36 names in one object, in two alternatives, and nested", move |e| {
            for n in interesting() {
                for m in interesting() {
                    if n == m {
                        continue;
                    }
                    for req in [json!([]), json!([n]), json!([m]), json!([n, m])] {
                        e(json!({"type": "object", "properties": {n: {"type": "integer"}, m: {"type": "integer"}}, "required": req}));
                        e(json!({"type": "object", "properties": {n: {"type": "object", "properties": {m: {"type": "integer"}}, "required": req}}, "required": req}));
                    }
                    e(json!({"oneOf": [named(n, gen::ty("integer"), true), named(m, gen::ty("integer"), true)]}));
                    e(json!({"oneOf": [named(n, gen::ty("integer"), true), named(m, gen::ty("number"), false)]}));
                }
            }
        }, check),
    ]
}

pub fn interesting() -> Vec<&'static str> {
    vec![
        "a", "A", "aB", "a_b", "a-b", "a.b", "AB", "ABc", "a1", "1a", "_1a", "_a", "__a", "a__b", "1", "_", "__", "-", ".", "", "$a", "a b", "a$",
        "list", "key", "value", "root", "f0_", "camelCase", "camel-case", "XMLHttpRequest", "64bit", "é", "type", "default", "name",
    ]
}

fn c07_families(t: Tier) -> Vec<Family> {
    let mut v = spaces(t, c07::<false>);
    v.push(family("groups of names", "four to six colliding and non-colliding properties at once", |e| {
        for set in [
            vec!["aB", "a_b", "a-b", "a.b"], vec!["1a", "_1a", "a1", "a_1"], vec!["$a", "a", "A", "a b"], vec!["fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo.bar", "foo-bar"],
            vec!["x1", "x-1", "x_1", "X1"], vec!["b", "a", "d", "c", "e"], vec!["", "a", "_", "-"],
        ] {
            let k = set.len();
            for mask in 1u32..1 << k {
                for rmask in [0, mask, mask & 0x15, mask & 0x2a] {
                    let mut p = Map::new();
                    let mut r = Vec::new();
                    for (i, n) in set.iter().enumerate() {
                        if mask >> i & 1 == 1 {
                            p.insert(n.to_string(), gen::ty("integer"));
                        }
                        if rmask >> i & 1 == 1 {
                            r.push(n.to_string());
                        }
                    }
                    let o = json!({"type": "object", "properties": p, "required": r});
                    e(o.clone());
                    e(gen::obj(vec![("w", o)], Some(vec!["w"])));
                }
            }
        }
    }, c07::<false>));
    v.push(family("which one is kept", "every ordered pair and triple of 12 names that collide, each with a type of its own, flat, nested and among alternatives", |e| {
        let ns = ["aB", "a_b", "a-b", "a.b", "AB", "a_B", "1a", "_1a", "a__b", "_a_b", "A-b", "c"];
        let ts = [gen::ty("integer"), gen::ty("string"), gen::ty("boolean")];
        for i in 0..ns.len() {
            for j in i + 1..ns.len() {
                for k in j..ns.len() {
                    let set = if k == j { vec![i, j] } else { vec![i, j, k] };
                    for req in 0..=set.len() {
                        let mut p = Map::new();
                        for (t, n) in set.iter().enumerate() {
                            p.insert(ns[*n].to_string(), ts[t].clone());
                        }
                        let mut o = json!({"type": "object", "properties": p});
                        if req > 0 {
                            o["required"] = json!([ns[set[req - 1]]]);
                        }
                        e(o.clone());
                        if req < 2 {
                            e(gen::obj(vec![("w", o.clone())], Some(vec!["w"])));
                            e(json!({"type": "array", "items": o.clone()}));
                            e(json!({"oneOf": [{"type": "null"}, o]}));
                        }
                    }
                }
            }
        }
    }, |s, l| {
        for case in [false, true] {
            for o in [Opts::cast().case(case), Opts::new(Res::Drop).case(case).force(true)] {
                for f in FMTS {
                    conform(s, f, &o, &[K::Abort, K::NoAbort, K::Type, K::Null, K::Default, K::Missing, K::Extra, K::Order, K::Naming], l);
                }
            }
        }
    }));
    v.extend(options(t, c07::<true>));
    v.extend(standard(t, c07::<false>));
    v
}

fn columns(f: Fmt, v: &Value, path: &str, out: &mut BTreeSet<String>) {
    let mut field = |n: &Value, t: &Value| {
        let p = format!("{}/{}", path, n.as_str().unwrap_or("<unnamed>"));
        out.insert(p.clone());
        columns(f, t, &p, out);
    };
    match f {
        Fmt::Avro => {
            if let Some((_, t)) = strip(v) {
                match t["type"].as_str() {
                    Some("record") => t["fields"].as_array().into_iter().flatten().for_each(|x| field(&x["name"], &x["type"])),
                    Some("array") => columns(f, &t["items"], path, out),
                    Some("map") => columns(f, &t["values"], &format!("{}/{{}}", path), out),
                    _ => (),
                }
            }
        }
        Fmt::Bq => v.as_array().into_iter().flatten().for_each(|x| field(&x["name"], x.get("fields").unwrap_or(&Value::Null))),
    }
}

/// The columns are those of the naming rules, and the required list follows the renaming.
fn c07<const ALL: bool>(s: &Value, l: &mut Local) {
    let few: Vec<Opts> = [false, true].iter().flat_map(|c| [Opts::cast().case(*c).tuple(true), Opts::new(Res::Drop).case(*c).tuple(true)]).collect();
    {
        for o in every::<ALL>(&few, &RES) {
            for f in FMTS {
                let a = imp::conv(f, s, &o);
                let e = model::expect(f, s, &o);
                l.ran(1);
                l.compared += 1;
                l.outcome(&a.show());
                let detail = |x: String, y: String| json!({"options": o.json(), "format": format!("{:?}", f), "actual": short(x), "expected": short(y)});
                match (&a, &e) {
                    (Out::Ok(a), Ok(e)) => {
                        let (mut x, mut y) = (BTreeSet::new(), BTreeSet::new());
                        columns(f, a, "", &mut x);
                        columns(f, e, "", &mut y);
                        if x != y {
                            l.violation("the columns are not those of the naming rules", detail(format!("{:?}", x), format!("{:?}", y)));
                        }
                        let ds = diff::diff(f, a, e);
                        if let Some(d) = ds.iter().find(|d| matches!(d.kind, K::Naming | K::Null | K::Default | K::Order)) {
                            l.violation(&format!("the required list or record names do not follow the naming rules at {}", d.path), detail(d.actual.clone(), d.expected.clone()));
                        }
                    }
                    (Out::Panic(m), Ok(e)) => l.violation("a property name aborts the translation", detail(m.clone(), e.to_string())),
                    (Out::Ok(a), Err(_)) => l.violation("a column is kept that should be omitted", detail(a.to_string(), "<aborts>".into())),
                    _ => l.count("no output"),
                }
            }
        }
    }
}
