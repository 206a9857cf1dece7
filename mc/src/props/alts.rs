//! C08 merging of alternatives. A state is a list of alternatives; all reorderings, duplications
//! and groupings of the list are explored from it.
use super::*;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C08", builds: &["std"], families: c08_families }]
}

/// Alternatives of every kind, so that lists of them are sometimes compatible and sometimes not.
fn atoms() -> Vec<Value> {
    vec![
        gen::ty("null"),
        gen::ty("integer"),
        gen::ty("number"),
        gen::ty("string"),
        gen::ty("boolean"),
        json!({"type": "string", "format": "date-time"}),
        json!({"type": "string", "format": "bytes"}),
        json!({"type": ["integer", "null"]}),
        json!({}),
    ]
}

fn objects() -> Vec<Value> {
    let i = gen::ty("integer");
    let mut v = Vec::new();
    let inner = [
        i.clone(),
        gen::ty("number"),
        json!({"type": ["integer", "null"]}),
        gen::obj(vec![("c", i.clone())], Some(vec!["c"])),
        gen::obj(vec![("d", i.clone())], None),
        json!({"type": "array", "items": {"type": "integer"}}),
        gen::ty("null"),
    ];
    for (k, x) in inner.iter().enumerate() {
        v.push(gen::obj(vec![("a", x.clone())], Some(vec!["a"])));
        if k < 4 {
            v.push(gen::obj(vec![("a", x.clone())], None));
            v.push(gen::obj(vec![("a", x.clone()), ("b", i.clone())], Some(vec!["a", "b"])));
        }
    }
    v.push(gen::obj(vec![("b", i.clone())], Some(vec!["b"])));
    v.push(gen::obj(vec![("b", i.clone())], Some(vec![])));
    v.push(json!({"type": ["object", "null"], "properties": {"a": {"type": "integer"}, "b": {"type": "integer"}}, "required": ["a"]}));
    v.push(gen::obj(vec![("a", gen::one_of(vec![i.clone(), gen::ty("null")]))], Some(vec!["a"])));
    v.push(gen::ty("null"));
    v
}

fn containers() -> Vec<Value> {
    let mut v = Vec::new();
    for x in [gen::ty("integer"), gen::ty("number"), json!({"type": ["string", "null"]}), gen::obj(vec![("a", gen::ty("integer"))], Some(vec!["a"])), gen::obj(vec![("b", gen::ty("integer"))], Some(vec!["b"]))] {
        v.push(json!({"type": "array", "items": x}));
        v.push(json!({"type": "object", "additionalProperties": x}));
    }
    v.push(json!({"type": "array", "items": {"type": "array", "items": {"type": "integer"}}}));
    v.push(json!({"type": ["array", "null"], "items": {"type": "integer"}}));
    v.push(json!({"type": "object", "patternProperties": {"^p": {"type": "integer"}, "^q": {"type": "null"}}}));
    v.push(json!({"type": "array", "items": [{"type": "integer"}], "maxItems": 1}));
    v.push(gen::ty("null"));
    v.push(gen::ty("integer"));
    v
}

fn multisets(set: &[Value], k: usize, from: usize, cur: &mut Vec<Value>, emit: &mut dyn FnMut(Value)) {
    if !cur.is_empty() {
        emit(json!({ "alts": cur }));
    }
    if cur.len() == k {
        return;
    }
    for i in from..set.len() {
        cur.push(set[i].clone());
        multisets(set, k, i, cur, emit);
        cur.pop();
    }
}

fn c08_families(t: Tier) -> Vec<Family> {
    let (ka, ko, kc) = t.pick((3, 3, 3), (5, 4, 4));
    let mut v = vec![
        family("atomic alternatives", format!("multisets of <= {} of 9", ka), move |e| multisets(&atoms(), ka, 0, &mut vec![], e), c08),
        family("object alternatives", format!("multisets of <= {} of {}", ko, objects().len()), move |e| multisets(&objects(), ko, 0, &mut vec![], e), c08),
        family("array and map alternatives", format!("multisets of <= {} of 16", kc), move |e| multisets(&containers(), kc, 0, &mut vec![], e), c08),
        family("any alternatives", "pairs of the representatives of all families", move |e| multisets(&pair_set(t), 2, 0, &mut vec![], e), c08),
        family("many alternatives", format!("up to {} alternatives", t.pick(6, 24)), move |e| {
            for k in 4..=t.pick(6usize, 24) {
                for base in [objects(), containers(), atoms()] {
                    for start in 0..base.len() {
                        for step in [0usize, 1, 3] {
                            let alts: Vec<Value> = (0..k).map(|i| base[(start + i * step) % base.len()].clone()).collect();
                            e(json!({ "alts": alts }));
                            let mut b = vec![base[start].clone(); k];
                            b[k - 1] = base[(start + 1) % base.len()].clone();
                            e(json!({ "alts": b }));
                        }
                    }
                }
            }
        }, c08),
    ];
    v.extend(options(t, c08_conform::<true>));
    // unions of the standard families, in any context
    v.push(family("pairs", "pairs x binary constructors", move |e| gen::pairs(&pair_set(t), gen::BINARY, e), c08_conform::<false>));
    v.push(family("triples", "triples", move |e| gen::triples(&triple_set(t), e), c08_conform::<false>));
    v.push(family("stress", "linear families", move |e| gen::stress(t.pick(16, 60), e), c08_conform::<false>));
    v.push(family("type lists", "ordered type lists", move |e| gen::type_lists(t.pick(3, 5), e), c08_conform::<false>));
    v
}

const MERGE: &[K] = &[K::Type, K::Null, K::Default, K::Missing, K::Extra, K::Abort, K::NoAbort, K::Other];

fn c08_conform<const ALL: bool>(s: &Value, l: &mut Local) {
    for o in every::<ALL>(&[Opts::cast().tuple(true), Opts::cast().case(true), Opts::new(Res::Drop).tuple(true).maps(true)], &RES) {
        both(s, &o, MERGE, l);
    }
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                rec(cur, n, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut vec![], n, &mut out);
    out
}

/// The ways the same alternatives can be written down.
fn variants(alts: &[Value]) -> Vec<(&'static str, Vec<Value>)> {
    let n = alts.len();
    let one = gen::one_of;
    let mut v: Vec<(&'static str, Vec<Value>)> = Vec::new();
    if n <= 4 {
        for p in permutations(n) {
            v.push(("another order", p.iter().map(|i| alts[*i].clone()).collect()));
        }
    } else {
        for r in 1..n {
            v.push(("another order", alts[r..].iter().chain(&alts[..r]).cloned().collect()));
        }
        v.push(("another order", alts.iter().rev().cloned().collect()));
    }
    for i in 0..n {
        let mut d = alts.to_vec();
        d.push(alts[i].clone());
        v.push(("a duplicate", d));
        let mut d = alts.to_vec();
        d.insert(i, alts[i].clone());
        v.push(("a duplicate", d));
        let mut d = alts.to_vec();
        d[i] = one(vec![alts[i].clone()]);
        v.push(("a nested alternative", d));
    }
    for k in 1..n {
        let mut d = vec![one(alts[..k].to_vec())];
        d.extend(alts[k..].iter().cloned());
        v.push(("a nested prefix", d));
        let mut d = alts[..k].to_vec();
        d.push(one(alts[k..].to_vec()));
        v.push(("a nested suffix", d));
        v.push(("two groups", vec![one(alts[..k].to_vec()), one(alts[k..].to_vec())]));
    }
    v.push(("one group", vec![one(alts.to_vec())]));
    v
}

fn c08(c: &Value, l: &mut Local) {
    let alts: Vec<Value> = c["alts"].as_array().unwrap().clone();
    let has_tuple = c["alts"].to_string().contains("\"items\":[");
    let wraps: [(&str, fn(Value) -> Value); 4] = [
        ("root", |x| x),
        ("property", |x| gen::obj(vec![("a", x), ("b", gen::ty("integer"))], Some(vec!["a"]))),
        ("items", |x| json!({"type": "array", "items": x})),
        ("values", |x| gen::obj(vec![("m", json!({"type": "object", "additionalProperties": x}))], None)),
    ];
    for (wi, (wn, w)) in wraps.iter().enumerate() {
        let o = match wi {
            0 => Opts::cast(),
            1 => Opts::cast().tuple(true),
            2 => Opts::new(Res::Drop).tuple(true),
            _ => Opts::cast().tuple(true).case(true),
        };
        let s = w(gen::one_of(alts.clone()));
        for f in FMTS {
            let base = conform(&s, f, &o, MERGE, l);
            let check = |what: &str, t: Value, l: &mut Local| {
                let a = imp::conv(f, &t, &o);
                l.ran(1);
                l.compared += 1;
                let same = match (&a, &base) {
                    (Out::Ok(x), Out::Ok(y)) => x == y,
                    (Out::Panic(_), Out::Panic(_)) => true,
                    _ => false,
                };
                if !same {
                    l.violation(&format!("the same alternatives give another result: {} ({})", what, wn),
                        json!({"options": o.json(), "format": format!("{:?}", f), "schema": s, "other": t, "result": short(base.show()), "result of the other": short(a.show())}));
                }
            };
            if wi == 0 || wi == 1 {
                for (what, v) in variants(&alts) {
                    // tuples are not merged, not even with themselves
                    if what == "a duplicate" && has_tuple {
                        continue;
                    }
                    check(what, w(gen::one_of(v)), l);
                }
            } else {
                for (what, v) in variants(&alts).into_iter().filter(|x| (x.0 != "another order" || alts.len() < 4) && !(x.0 == "a duplicate" && has_tuple)) {
                    check(what, w(gen::one_of(v)), l);
                }
            }
            if wi == 3 {
                // the patterns of a map are alternatives of its values
                let pats: serde_json::Map<String, Value> = alts.iter().enumerate().map(|(i, a)| (format!("^p{}", i), a.clone())).collect();
                check("as patterns", gen::obj(vec![("m", json!({"type": "object", "patternProperties": pats}))], None), l);
                if alts.len() > 1 {
                    let pats: serde_json::Map<String, Value> = alts.iter().skip(1).enumerate().map(|(i, a)| (format!("^p{}", i), a.clone())).collect();
                    check("as patterns and additional properties", gen::obj(vec![("m", json!({"type": "object", "patternProperties": pats, "additionalProperties": alts[0]}))], None), l);
                }
            }
            // alternatives that are bare types can be written as a type list
            if alts.iter().all(|a| a.as_object().unwrap().len() == 1 && a["type"].is_string() && a["type"] != "object" && a["type"] != "array") {
                let ts: Vec<Value> = alts.iter().map(|a| a["type"].clone()).collect();
                check("as a type list", w(json!({ "type": ts })), l);
            }
        }
        // one more null makes the result nullable and changes nothing else
        let mut with_null = alts.clone();
        with_null.insert(alts.len() / 2, gen::ty("null"));
        let t = w(gen::one_of(with_null));
        for f in FMTS {
            let (a, b) = (imp::conv(f, &s, &o), imp::conv(f, &t, &o));
            l.ran(2);
            match (&a, &b) {
                (Out::Ok(a), Out::Ok(b)) => {
                    for d in diff::diff(f, b, a) {
                        let ok = match (d.kind, f) {
                            (K::Null, Fmt::Bq) => d.actual == "\"NULLABLE\"" && d.expected == "\"REQUIRED\"",
                            (K::Null, Fmt::Avro) => d.actual.starts_with('['),
                            (K::Default, Fmt::Avro) => d.actual == "null",
                            _ => false,
                        };
                        if !ok {
                            l.violation(&format!("a null alternative changes more than nullability at {} ({})", d.path, wn),
                                json!({"options": o.json(), "format": format!("{:?}", f), "schema": t, "with null": d.actual, "without": d.expected}));
                            break;
                        }
                    }
                }
                (Out::Panic(_), Out::Panic(_)) => (),
                _ => l.violation("a null alternative decides whether there is an output", json!({"options": o.json(), "schema": t, "with null": b.show(), "without": a.show()})),
            }
        }
    }
}
