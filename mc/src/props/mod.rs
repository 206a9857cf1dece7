use crate::diff::{self, D, K};
use crate::explore::{family, Check, Family, Local, Tier};
use crate::gen;
use crate::imp::{self, Fmt, Out, FMTS};
use crate::model;
use crate::opts::*;
use serde_json::{json, Value};

pub mod alts;
pub mod batch;
pub mod canon;
pub mod casing;
pub mod cli;
pub mod config;
pub mod data;
pub mod docs;
pub mod effort;
pub mod history;
pub mod names;
pub mod order;
pub mod relate;
pub mod report;
pub mod shape;
pub mod special;
pub mod text;

pub struct Prop {
    pub id: &'static str,
    /// the builds of the code this property is checked on
    pub builds: &'static [&'static str],
    pub families: fn(Tier) -> Vec<Family>,
}

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(shape::props());
    v.extend(names::props());
    v.extend(text::props());
    v.extend(alts::props());
    v.extend(special::props());
    v.extend(casing::props());
    v.extend(cli::props());
    v.extend(docs::props());
    v.extend(data::props());
    v.extend(batch::props());
    v.extend(order::props());
    v.extend(history::props());
    v.extend(relate::props());
    v.extend(report::props());
    v.extend(effort::props());
    v.extend(canon::props());
    v
}

pub fn short(s: String) -> String {
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "..."
    } else {
        s
    }
}

/// Run one configuration against the code and against the model; report differences of the kinds asked for.
pub fn conform(s: &Value, f: Fmt, o: &Opts, kinds: &[K], l: &mut Local) -> Out {
    let a = imp::conv(f, s, o);
    let e = model::expect(f, s, o);
    l.ran(1);
    l.compared += 1;
    let ds: Vec<D> = diff::diff_out(f, &a, &e).into_iter().filter(|d| kinds.contains(&d.kind)).collect();
    if let Some(d) = ds.first() {
        l.violation(
            &format!("{:?} output differs from the model ({:?} at {:?})", f, d.kind, d.path),
            json!({"options": o.json(), "format": format!("{:?}", f), "differences": ds.iter().take(5).map(|d|
                json!({"kind": format!("{:?}", d.kind), "path": d.path, "actual": short(d.actual.clone()), "expected": short(d.expected.clone())})).collect::<Vec<_>>(),
                "actual": short(a.show()), "expected": short(match &e { Ok(v) => v.to_string(), Err(x) => format!("<aborts: {:?}>", x) })}),
        );
    }
    l.outcome(&a.show());
    a
}

/// The families every structural property is checked on.
pub fn standard(tier: Tier, check: Check) -> Vec<Family> {
    let mut v = vec![
        family("compositions", "every composition of <= 2 of 44 contexts over 14 leaves", |e| {
            gen::compositions(&gen::all_ctx(), &gen::leaves(), 2, e)
        }, check),
        family("realistic", "whole documents", |e| gen::realistic(e), check),
        family("stress", format!("linear families up to n={}", tier.pick(18, 60)), move |e| gen::stress(tier.pick(18, 60), e), check),
        family("sizes", "linear families at 13 sizes around powers of two up to 129 (thorough: 20 up to 1000)", move |e| gen::sizes(tier.thorough(), e), check),
        family("deepest", "every context and binary construct nested in itself as deep as the parser allows", move |e| {
            for u in effort::units(tier.pick(1, 3)) {
                for leaf in tier.pick(vec![gen::ty("integer")], gen::few_leaves()) {
                    e(effort::deepest(&effort::unit(&u), &leaf));
                }
            }
        }, check),
        family("large bounds", "minItems and maxItems up to 2^64-1, up to 130 additional items", |e| gen::bounds(e), check),
        family("type lists", format!("ordered type lists up to length {}", tier.pick(3, 4)), move |e| {
            gen::type_lists(tier.pick(3, 4), e)
        }, check),
        family("populated objects", "every composition of <= 1 of 15 (thorough: 44) contexts over 4 (thorough: 14) leaves beside 1..=9 others, at three places, with four required lists", move |e| {
            let set = tier.pick(gen::level(gen::CORE, &gen::few_leaves()[..4], 1), gen::level(&gen::all_ctx(), &gen::leaves(), 1));
            gen::populated(&set, &tier.pick(vec![1, 3, 8], vec![1, 2, 3, 4, 5, 8, 9, 17]), e)
        }, check),
        family("texts", "every composition of <= 2 of 15 (thorough: 44) contexts over 3 leaves, with a title, a description or both on one subschema", move |e| {
            let set = tier.pick(gen::CORE, &gen::all_ctx()[..]).to_vec();
            for depth in 0..=2 {
                gen::annotated(&gen::level(&set, &gen::few_leaves()[..3], depth), e)
            }
        }, check),
        family("similar names", "up to five properties with similar names, every list of required ones", |e| gen::similar_names(e), check),
        family("names of any length", "every context of 44 around a property with a name of 1..=1025 characters (29 lengths), optional and required, and nests of such", |e| {
            for n in [1usize, 5, 9, 15, 16, 17, 21, 25, 31, 32, 33, 41, 47, 49, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1024, 1025] {
                let name: String = "abcDe_fgh1".chars().cycle().take(n).collect();
                let o = |k: &str, x: Value, r: bool| gen::obj(vec![(k, x), ("z", gen::ty("string"))], Some(if r { vec![k, "z"] } else { vec!["z"] }));
                for r in [false, true] {
                    for leaf in [gen::ty("integer"), json!({"type": "string", "format": "date-time"}), json!({})] {
                        e(o(&name, leaf.clone(), r));
                        e(o(&name, o(&name, leaf.clone(), !r), r));
                    }
                    for (_, c) in gen::all_ctx() {
                        e(c(o(&name, gen::ty("integer"), r)));
                        e(o(&name, c(gen::ty("integer")), r));
                    }
                }
            }
        }, check),
        family("triples", format!("{}^3 x 3", tier.pick(9, 20)), move |e| gen::triples(&triple_set(tier), e), check),
        family("pairs", format!("{}^2 x {}", pair_set(tier).len(), gen::BINARY.len()), move |e| {
            gen::pairs(&pair_set(tier), gen::BINARY, e)
        }, check),
    ];
    if tier.thorough() {
        v.push(family("deep compositions", "every composition of <= 3 of 44 contexts over 6 leaves", |e| {
            gen::compositions(&gen::all_ctx(), &gen::few_leaves(), 3, e)
        }, check));
        v.push(family("deep core compositions", "every composition of <= 4 of 15 contexts over 3 leaves", |e| {
            gen::compositions(gen::CORE, &gen::few_leaves()[..3], 4, e)
        }, check));
        v.push(family("keyword product", "presence and value of 8 keywords", |e| gen::keyword_product(true, e), check));
    } else {
        v.push(family("core compositions", "every composition of <= 3 of 15 contexts over 4 leaves", |e| {
            gen::compositions(gen::CORE, &gen::few_leaves()[..4], 3, e)
        }, check));
        v.push(family("keyword product", "presence and value of 8 keywords", |e| gen::keyword_product(false, e), check));
    }
    v
}

/// The options of a check: a few for the large families, all of them for the family `options`.
pub fn every<const ALL: bool>(few: &[Opts], res: &[Res]) -> Vec<Opts> {
    if !ALL {
        return few.to_vec();
    }
    let mut v = all_opts(res);
    for i in 0..v.len() {
        v.push(v[i].clone().path(["a", ".*"][(i / 16 + i.count_ones() as usize) % 2]));
    }
    v
}

/// A smaller space of schemas, checked with every combination of options.
pub fn options(tier: Tier, check: Check) -> Vec<Family> {
    vec![family("every option", "every strategy, every combination of the four flags, with and without a JSON path", move |e| {
        let mut i = 0;
        let mut emit = |x: Value| {
            i += 1;
            e(if i % 3 == 0 { gen::annotate(&x, i) } else { x })
        };
        gen::realistic(&mut emit);
        gen::compositions(&gen::all_ctx(), &gen::leaves(), 1, &mut emit);
        gen::pairs(&gen::few_leaves(), gen::BINARY, &mut emit);
        gen::tuples(&[gen::ty("integer"), json!({}), json!({"type": ["string", "null"]})], 2, &mut emit);
        gen::stress(tier.pick(4, 14), &mut emit);
        for n in names::interesting() {
            for m in names::interesting() {
                if n < m {
                    emit(json!({"type": "object", "properties": {n: {"type": "integer"}, m: {"type": ["string", "null"]}}, "required": [n, m]}));
                }
            }
        }
        gen::compositions(&tier.pick(gen::CORE.to_vec(), gen::all_ctx()), &gen::few_leaves()[..tier.pick(4, 6)], 2, &mut emit);
    }, check)]
}

pub fn pair_set(tier: Tier) -> Vec<Value> {
    let mut v = gen::leaves();
    let inner: Vec<Value> = tier.pick(vec![gen::ty("integer"), json!({"type": ["integer", "null"]})], gen::few_leaves());
    for x in inner {
        for (i, (_, c)) in gen::CORE.iter().enumerate() {
            if !tier.thorough() && [2, 7, 9].contains(&i) {
                continue;
            }
            v.push(c(x.clone()));
        }
    }
    v
}

pub fn triple_set(tier: Tier) -> Vec<Value> {
    let mut v = vec![
        gen::ty("integer"),
        gen::ty("null"),
        gen::ty("number"),
        gen::ty("string"),
        json!({"type": ["integer", "null"]}),
        json!({"type": "array", "items": {"type": "integer"}}),
        json!({"type": "object", "properties": {"b": {"type": "integer"}}, "required": ["b"]}),
        json!({"type": "object", "additionalProperties": {"type": "integer"}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
    ];
    if tier.thorough() {
        v.extend(vec![
            json!({}),
            gen::ty("boolean"),
            json!({"type": "string", "format": "date-time"}),
            json!({"type": "string", "format": "bytes"}),
            json!({"type": ["string", "integer"]}),
            json!({"type": "array", "items": {"type": ["integer", "null"]}}),
            json!({"type": ["array", "null"], "items": {"type": "number"}}),
            json!({"type": "object", "properties": {"b": {"type": "number"}, "c": {"type": "string"}}, "required": ["c"]}),
            json!({"type": ["object", "null"], "properties": {"b": {"type": "integer"}}, "required": ["b"]}),
            json!({"type": "object", "patternProperties": {"^p": {"type": "number"}}}),
            json!({"type": "array", "items": [{"type": "integer"}], "maxItems": 1}),
        ]);
    }
    v
}

pub fn both(s: &Value, o: &Opts, kinds: &[K], l: &mut Local) {
    for f in FMTS {
        conform(s, f, o, kinds, l);
    }
}
