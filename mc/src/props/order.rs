//! C09 the result does not depend on the iteration order of hash maps.
//!
//! In the build with `--cfg jst_mc` every hash map of the code under test asks the explorer for its
//! order. An execution is a sequence of choices, one per map; the default is the sorted order. The
//! explorer takes every execution in which all maps have the same permutation, and every execution
//! in which up to `bound` maps deviate from the default, on every map that ever sees two keys.
//! In the plain build (the order of a map the hook does not know is not ours) the seed of the
//! standard hasher is enumerated instead.
use super::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C09", builds: &["std", "hook"], families: c09_families }]
}

thread_local! {
    static SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// The source of the seeds of the standard hasher (std asks for this symbol).
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x = SEED.with(|s| s.get()).wrapping_mul(0x9e37_79b9_7f4a_7c15).wrapping_add(0x1234_5678_9abc_def1);
    let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
    for b in out {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 32) as u8;
    }
    len as libc::ssize_t
}

/// The keys that can be told apart: all of the schema but the keywords.
fn names_of(s: &Value, out: &mut BTreeSet<String>) {
    const KEYWORDS: [&str; 17] = ["type", "properties", "required", "items", "additionalProperties", "additionalItems", "patternProperties", "minItems", "maxItems",
        "oneOf", "anyOf", "allOf", "format", "title", "description", "json_object_path_regex", "$schema"];
    match s {
        Value::Object(m) => {
            for (k, x) in m {
                if !KEYWORDS.contains(&k.as_str()) {
                    out.insert(k.clone());
                }
                names_of(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| names_of(x, out)),
        _ => (),
    }
}

/// All permutations up to 4 keys; rotations and the reverse above.
#[cfg(jst_mc)]
fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn all(n: usize) -> Vec<Vec<usize>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = Vec::new();
        for p in all(n - 1) {
            for i in (0..n).rev() {
                let mut q = p.clone();
                q.insert(i, n - 1);
                out.push(q);
            }
        }
        out
    }
    if n <= 4 {
        return all(n);
    }
    let mut v: Vec<Vec<usize>> = (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect();
    v.push((0..n).rev().collect());
    v
}

fn options() -> Vec<Opts> {
    vec![
        Opts::cast(),
        Opts::cast().case(true).tuple(true),
        Opts::new(Res::Drop).maps(true).force(true),
        Opts::new(Res::Panic).case(true),
    ]
}

/// every seed has its own thread: the standard hasher asks once per thread
fn with_seeds(s: &Value, seeds: u64, l: &mut Local) {
    let mut first: Option<Vec<Out>> = None;
    for seed in 0..seeds {
        let s2 = s.clone();
        let r = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                SEED.with(|x| x.set(seed + 1));
                let mut v = Vec::new();
                for o in options() {
                    for f in FMTS {
                        v.push(imp::conv(f, &s2, &o));
                    }
                }
                v
            })
            .unwrap()
            .join();
        let r = match r {
            Ok(r) => r,
            Err(_) => continue,
        };
        l.ran(r.len() as u64);
        l.compared += r.len() as u64;
        l.inner_states += 1;
        match &first {
            None => {
                for x in &r {
                    l.outcome(&x.show());
                }
                first = Some(r)
            }
            Some(a) => {
                for (i, (x, y)) in a.iter().zip(&r).enumerate() {
                    if !same(x, y) {
                        l.violation(
                            "the result depends on the seed of the hash maps",
                            json!({"options": options()[i / 2].json(), "format": format!("{:?}", FMTS[i % 2]), "seed 0": short(x.show()), "other": short(y.show()), "seed": seed}),
                        );
                        return;
                    }
                }
            }
        }
    }
}

fn same(a: &Out, b: &Out) -> bool {
    match (a, b) {
        (Out::Ok(x), Out::Ok(y)) => x == y,
        (Out::Panic(_), Out::Panic(_)) => true,
        _ => false,
    }
}

fn c09_seeds(s: &Value, l: &mut Local) {
    with_seeds(s, 16, l)
}
fn c09_many_seeds(s: &Value, l: &mut Local) {
    with_seeds(s, 64, l)
}

#[cfg(not(jst_mc))]
fn orders(_: &Value, _: usize, _: &[Opts], _: &mut Local) {}

#[cfg(jst_mc)]
fn orders(s: &Value, bound: usize, opts: &[Opts], l: &mut Local) {
    let mut names = BTreeSet::new();
    names_of(s, &mut names);
    let names: Vec<String> = names.into_iter().collect();
    let bases = permutations(names.len());
    for o in opts {
        for f in FMTS {
            let mut go = |choices: &[Vec<usize>], base: &[usize], l: &mut Local| {
                l.ran(1);
                l.compared += 1;
                l.inner_states += 1;
                jst::order::run(&names, choices, base, || imp::conv(f, s, &o))
            };
            let (first, points) = go(&[], &bases[0], l);
            l.outcome(&first.show());
            let mut bad = |choices: &[Vec<usize>], base: &[usize], x: &Out, l: &mut Local| {
                if same(&first, x) {
                    return false;
                }
                l.violation(
                    "the result depends on the iteration order of a hash map",
                    json!({"options": o.json(), "format": format!("{:?}", f), "keys": names, "positions of the keys in the n-th map": choices,
                        "in all others": base, "sorted order": short(first.show()), "this order": short(x.show())}),
                );
                true
            };
            // every map in the same order
            for b in &bases[1..] {
                let (x, _) = go(&[], b, l);
                if bad(&[], b, &x, l) {
                    return;
                }
            }
            // deviations, depth first; the points of an execution are those of its own run
            let mut stack: Vec<(Vec<Vec<usize>>, Vec<BTreeSet<usize>>, usize)> = vec![(vec![], points, 0)];
            while let Some((prefix, points, deviations)) = stack.pop() {
                if deviations == bound {
                    continue;
                }
                for (i, seen) in points.iter().enumerate().skip(prefix.len()) {
                    if seen.len() < 2 {
                        continue;
                    }
                    l.count("choice points");
                    for c in &permutations(seen.len())[1..] {
                        // the keys of this map in this order, all others behind
                        let mut positions: Vec<usize> = (0..names.len()).map(|r| r + seen.len()).collect();
                        for (rank, p) in seen.iter().zip(c) {
                            positions[*rank] = *p;
                        }
                        let mut choices = prefix.clone();
                        choices.resize(i, vec![]);
                        choices.push(positions);
                        let (x, p) = go(&choices, &bases[0], l);
                        if bad(&choices, &bases[0], &x, l) {
                            return;
                        }
                        if deviations + 1 < bound {
                            stack.push((choices, p, deviations + 1));
                        }
                    }
                }
            }
        }
    }
}

fn c09_1(s: &Value, l: &mut Local) {
    orders(s, 1, &options(), l)
}
fn c09_large(s: &Value, l: &mut Local) {
    orders(s, 1, &options()[1..2], l)
}
fn c09_2(s: &Value, l: &mut Local) {
    orders(s, 2, &options()[..2], l)
}
fn c09_3(s: &Value, l: &mut Local) {
    orders(s, 3, &options()[1..2], l)
}

/// The choices reach every order: for every subset of up to 5 keys, in maps built up by insertion.
#[cfg(jst_mc)]
fn c09_reach(s: &Value, l: &mut Local) {
    let n = s["keys"].as_u64().unwrap() as usize;
    let names: Vec<String> = (0..n).map(|i| format!("k{}", i)).collect();
    let perms = permutations(n);
    let mut seen = BTreeSet::new();
    for c in 0..perms.len() {
        let (order, points) = jst::order::run(&names, &[perms[c].clone()], &[], || {
            let mut m: jst::order::HashMap<String, u8> = Default::default();
            for k in &names {
                m.insert(k.clone(), 0);
            }
            m.into_keys().collect::<Vec<String>>()
        });
        assert_eq!(points[0].len(), n);
        seen.insert(order);
        l.inner_states += 1;
    }
    let want = if n <= 4 { (1..=n).product() } else { n };
    l.outcome(&n);
    if seen.len() < want {
        // about the hook, not about the code
        panic!("the hook reaches {} of {} orders of {} keys", seen.len(), want, n);
    }
}
#[cfg(not(jst_mc))]
fn c09_reach(_: &Value, _: &mut Local) {}

/// Schemas whose names collide, overlap between alternatives, or are renamed.
fn colliding(deep: bool, e: &mut dyn FnMut(Value)) {
    let names = ["aB", "a_b", "a.b", "a-b", "AB", "$ab", "ab", "_a_b", "1a", "_1a", "f0_"];
    let ty = |i: usize| [gen::ty("integer"), gen::ty("string"), json!({"type": "object", "properties": {"x": {"type": "integer"}}}), json!({})][i % 4].clone();
    for a in 0..names.len() {
        for b in a + 1..names.len() {
            for req in 0..4 {
                let mut r = Vec::new();
                if req & 1 != 0 {
                    r.push(names[a]);
                }
                if req & 2 != 0 {
                    r.push(names[b]);
                }
                let s = json!({"type": "object", "properties": {names[a]: ty(0), names[b]: ty(1)}, "required": r});
                e(s.clone());
                e(json!({"type": "object", "properties": {"o": s}}));
                e(json!({"oneOf": [s, {"type": "object", "properties": {names[b]: ty(0)}, "required": [names[b]]}]}));
            }
            for c in b + 1..names.len() {
                e(json!({"type": "object", "properties": {names[a]: ty(0), names[b]: ty(1), names[c]: ty(2)}, "required": [names[b]]}));
                if deep {
                    for d in c + 1..names.len() {
                        e(json!({"type": "object", "properties": {names[a]: ty(0), names[b]: ty(1), names[c]: ty(2), names[d]: ty(3)}, "required": [names[b], names[d]]}));
                    }
                }
            }
        }
    }
}

fn two(e: &mut dyn FnMut(Value)) {
    colliding(false, &mut |s| {
        let mut n = BTreeSet::new();
        names_of(&s, &mut n);
        if n.len() <= 2 {
            e(s);
        }
    });
}

/// Objects of the named properties, and what their alternatives have in common.
fn overlapping(e: &mut dyn FnMut(Value)) {
    let vals = [gen::ty("integer"), gen::ty("number"), gen::ty("string"), gen::ty("null"), json!({}), json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
        json!({"type": "object", "properties": {"p": {"type": "integer"}, "q": {"type": "string"}}, "required": ["q"]}), json!({"type": "array", "items": {"type": "integer"}})];
    for x in &vals {
        for y in &vals {
            for r in [vec!["a"], vec!["a", "b"], vec![]] {
                e(json!({"oneOf": [{"type": "object", "properties": {"a": x, "b": y}, "required": r}, {"type": "object", "properties": {"b": x, "c": y}, "required": ["b", "c"]}]}));
                e(json!({"type": "object", "properties": {"a": x, "b": y, "c": {"type": "object", "properties": {"a": y, "b": x}}}, "required": r}));
            }
            e(json!({"type": "object", "patternProperties": {"^a": x, "^b": y}}));
            e(json!({"type": "object", "patternProperties": {"^a": x, "^b": y, "^c": x}}));
            e(json!({"type": "object", "properties": {"m": {"type": "object", "patternProperties": {"^a": x, "^b": y}, "additionalProperties": x}}}));
        }
    }
}

fn c09_families(t: Tier) -> Vec<Family> {
    let hook = std::env::var("MC_LABEL").map_or(false, |x| x == "hook");
    if !hook {
        return vec![
            family("seeds", "realistic schemas, 64 seeds", |e| gen::realistic(e), c09_many_seeds),
            family("seeds, colliding names", "16 seeds", |e| colliding(false, e), c09_seeds),
            family("seeds, overlapping objects", "16 seeds", |e| overlapping(e), c09_seeds),
            family("seeds, overlapping objects with texts", "16 seeds", |e| overlapping(&mut |s| e(gen::annotate(&s, 0))), c09_seeds),
            family("seeds, compositions", "every composition of <= 1 (thorough: 2) of 44 contexts over 14 leaves, 16 seeds", move |e| {
                gen::compositions(&gen::all_ctx(), &gen::leaves(), t.pick(1, 2), e)
            }, c09_seeds),
            family("seeds, pairs", "pairs of 6 (thorough: 14) leaves in 22 ways, 16 seeds", move |e| gen::pairs(&t.pick(gen::few_leaves(), gen::leaves()), gen::BINARY, e), c09_seeds),
        ];
    }
    let mut v = vec![
        family("control", "the hook reaches every order of n keys", |e| (0..8).for_each(|n| e(json!({ "keys": n }))), c09_reach),
        family("colliding names", "all pairs and triples of 11 names, up to 1 deviating map", |e| colliding(false, e), c09_1),
        family("overlapping objects", "up to 1 deviating map", |e| overlapping(e), c09_1),
        family("overlapping objects with texts", "titles and descriptions on all subschemas, up to 1 deviating map", |e| overlapping(&mut |s| e(gen::annotate(&s, 0))), c09_1),
        family("two colliding names", "all pairs of 11 names, up to 2 deviating maps", |e| two(e), c09_2),
        family("realistic", "up to 1 deviating map", |e| gen::realistic(e), c09_large),
        family("compositions", format!("every composition of <= 2 of 44 contexts over {} leaves, up to 1 deviating map", t.pick(4, 14)), move |e| {
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves()[..4].to_vec(), gen::leaves()), 2, e)
        }, c09_1),
        family("pairs", format!("{}^2 x 22, up to 1 deviating map", pair_set(t).len()), move |e| gen::pairs(&pair_set(t), gen::BINARY, e), c09_1),
        family("triples", format!("{}^3 x 3, up to 1 deviating map", triple_set(t).len()), move |e| gen::triples(&triple_set(t), e), c09_1),
    ];
    if t.thorough() {
        v.push(family("colliding names, deep", "quadruples too, up to 3 deviating maps", |e| colliding(true, e), c09_3));
        v.push(family("compositions, two deviations", "every composition of <= 2 of 44 contexts over 6 leaves, up to 2 deviating maps", |e| {
            gen::compositions(&gen::all_ctx(), &gen::few_leaves(), 2, e)
        }, c09_2));
        v.push(family("core compositions", "every composition of <= 3 of 15 contexts over 4 leaves, up to 1 deviating map", |e| {
            gen::compositions(gen::CORE, &gen::few_leaves()[..4], 3, e)
        }, c09_1));
    }
    v
}
