//! C24 the effort of a translation is bounded by a polynomial of what is read and written.
//! The measure is the number of calls of the memory allocator, which is the same in every run.
use super::*;
use crate::sched::counted;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C24", builds: &["std"], families: c24_families }]
}

/// work may grow by the power of this of the growth of the documents
const DEGREE: f64 = 5.0;
/// ... and the effort for one that has up to this many values is not judged
const SMALL: u64 = 50_000;

fn size(v: &Value) -> u64 {
    match v {
        Value::Array(xs) => 1 + xs.iter().map(size).sum::<u64>(),
        Value::Object(m) => 1 + m.values().map(size).sum::<u64>(),
        _ => 1,
    }
}

/// The size of a schema in which the additional items of tuples are written out.
pub fn expanded(v: &Value) -> u64 {
    match v {
        Value::Array(xs) => 1 + xs.iter().map(expanded).sum::<u64>(),
        Value::Object(m) => {
            let copies = match (m.get("items"), m.get("maxItems").and_then(Value::as_u64)) {
                (Some(Value::Array(xs)), Some(n)) => n.saturating_sub(xs.len() as u64),
                _ => 1,
            };
            1 + m.iter().map(|(k, x)| expanded(x) * if k == "additionalItems" { copies } else { 1 }).sum::<u64>()
        }
        _ => 1,
    }
}

pub type Unit = Box<dyn Fn(Value) -> Value>;

pub fn unit(name: &str) -> Unit {
    if let Some((_, f)) = gen::all_ctx().into_iter().find(|c| c.0 == name) {
        return Box::new(f);
    }
    for (n, f) in gen::BINARY {
        for (i, y) in partners().into_iter().enumerate() {
            let f = *f;
            if name == format!("{} left {}", n, i) {
                return Box::new(move |x| f(x, y.clone()));
            }
            if name == format!("{} right {}", n, i) {
                return Box::new(move |x| f(y.clone(), x));
            }
        }
    }
    panic!("no unit {}", name)
}

/// what stands beside the part that grows
fn partners() -> Vec<Value> {
    vec![gen::ty("integer"), json!({"type": "object", "properties": {"a": {"type": "integer"}}, "required": ["a"]}), gen::ty("null")]
}

pub fn units(partners_used: usize) -> Vec<String> {
    let mut v: Vec<String> = gen::all_ctx().iter().map(|c| c.0.to_string()).collect();
    for (n, _) in gen::BINARY {
        for i in 0..partners_used {
            v.push(format!("{} left {}", n, i));
            v.push(format!("{} right {}", n, i));
        }
    }
    v
}

/// The unit in itself, as deep as the text of the result can be read.
pub fn deepest(u: &Unit, leaf: &Value) -> Value {
    fn depth(v: &Value) -> usize {
        match v {
            Value::Array(xs) => 1 + xs.iter().map(depth).max().unwrap_or(0),
            Value::Object(m) => 1 + m.values().map(depth).max().unwrap_or(0),
            _ => 0,
        }
    }
    let mut x = leaf.clone();
    loop {
        let y = u(x.clone());
        // the parser allows for 127 levels
        if y == x || depth(&y) > 127 || expanded(&y) > 2000 {
            return x;
        }
        x = y;
    }
}

fn build(us: &[Unit], leaf: &Value, n: usize, limit: u64) -> Option<Value> {
    let mut x = leaf.clone();
    for _ in 0..n {
        for u in us.iter().rev() {
            x = u(x);
            if expanded(&x) > limit {
                return None;
            }
        }
    }
    Some(x)
}

fn effort(s: &Value, o: &Opts, l: &mut Local) -> (u64, u64) {
    let mut work = 0;
    let mut vol = expanded(s);
    for f in FMTS {
        let (a, n) = counted(|| imp::conv(f, s, o));
        work += n;
        vol += a.ok().map_or(0, size);
        l.ran(1);
    }
    (work, vol)
}

/// Executes the documents one after another, and compares each with the one `back` steps before it, so
/// that what grows exponentially is found before it takes long.
fn judge(docs: &[Value], back: usize, detail: Value, l: &mut Local) {
    for o in [Opts::cast().tuple(true), Opts::cast().tuple(true).case(true).force(true), Opts::new(Res::Drop).maps(true).tuple(true), Opts::cast().path(".*nothing.*")] {
        let mut e: Vec<(u64, u64)> = Vec::new();
        for s in docs {
            e.push(effort(s, &o, l));
            if e.len() <= back {
                continue;
            }
            let ((w1, v1), (w2, v2)) = (e[e.len() - 1 - back], e[e.len() - 1]);
            l.compared += 1;
            let growth = (v2.max(v1 + 1) as f64 / v1 as f64).max(1.2);
            let degree = (w2 as f64 / w1 as f64).ln() / growth.ln();
            l.count(["degree <= 1", "degree <= 2", "degree <= 3", "degree <= 4", "a higher degree, but little effort"][(degree.ceil().max(1.0) as usize).min(5) - 1]);
            if w2 > SMALL && degree > DEGREE {
                l.violation(
                    "the effort grows faster than the documents allow",
                    json!({"unit": detail, "options": o.json(), "degree": format!("{:.1}", degree), "values in the documents": [v1, v2], "calls of the allocator": [w1, w2]}),
                );
                return;
            }
        }
        l.outcome(&format!("{:?}", e));
    }
}

/// {"units": [...], "leaf": schema}: the units around each other, n and 2n times
fn nested(c: &Value, l: &mut Local) {
    let us: Vec<Unit> = c["units"].as_array().unwrap().iter().map(|u| unit(u.as_str().unwrap())).collect();
    let most = if us.len() == 1 { 16 } else { 10 };
    let n = (1..=most / 2).rev().find(|n| build(&us, &c["leaf"], 2 * n, 1200).is_some());
    let Some(n) = n else { return };
    l.inner_states += 2;
    let grow = |n: usize| {
        let x = build(&us, &c["leaf"], n, u64::MAX).unwrap();
        match c.get("other") {
            // the same in two alternatives that differ in the leaf
            Some(y) => json!({"oneOf": [x, build(&us, y, n, u64::MAX).unwrap()]}),
            None => x,
        }
    };
    // n/2 and n, 3n/4 and 3n/2, n and 2n
    let docs: Vec<Value> = match n {
        n if n >= 4 => [n / 2, n * 3 / 4, n, n / 2 * 3, 2 * n].into_iter().map(grow).collect(),
        n => vec![grow(n), grow(2 * n)],
    };
    judge(&docs, if docs.len() == 2 { 1 } else { 2 }, c.clone(), l);
}

fn c24_families(t: Tier) -> Vec<Family> {
    let leaves = move || t.pick(vec![gen::ty("integer")], vec![gen::ty("integer"), json!({}), json!({"type": ["integer", "null"]})]);
    let mut v = vec![
        family("nested once", "every context and binary construct with 3 partners, 8 and 16 times inside of itself", |e| {
            for u in units(3) {
                for leaf in gen::few_leaves() {
                    e(json!({"units": [u], "leaf": leaf}));
                }
            }
        }, nested),
        family("nested alternately", format!("every ordered pair of {} constructs, alternately, 5 and 10 times", units(t.pick(1, 2)).len()), move |e| {
            let us = units(t.pick(1, 2));
            for u in &us {
                for w in &us {
                    for leaf in leaves() {
                        e(json!({"units": [u, w], "leaf": leaf}));
                    }
                }
            }
        }, nested),
    ];
    v.push(family("merged", format!("two alternatives, each an alternation of two of {} constructs: nested 5 and 10 times below the alternatives", gen::all_ctx().len()), |e| {
        for u in units(0) {
            for w in units(0) {
                if u <= w {
                    e(json!({"units": [u, w], "leaf": gen::ty("integer"), "other": gen::ty("number")}));
                    e(json!({"units": [u, w], "leaf": gen::ty("integer"), "other": gen::ty("null")}));
                }
            }
        }
    }, nested));
    v.push(family("wide", "linear families at n = 12, 24 (thorough: 24, 48, 96)", move |e| {
        let ks: Vec<usize> = t.pick(vec![12, 24], vec![12, 24, 48, 96]);
        for i in 0..gen::stress_at(12).len() {
            e(json!({"stress": i, "n": ks}));
        }
    }, |c, l| {
        let ks: Vec<usize> = c["n"].as_array().unwrap().iter().map(|k| k.as_u64().unwrap() as usize).collect();
        let i = c["stress"].as_u64().unwrap() as usize;
        let xs: Vec<Value> = ks.iter().filter_map(|k| gen::stress_at(*k).into_iter().nth(i)).collect();
        judge(&xs, 1, c.clone(), l);
    }));
    v
}
