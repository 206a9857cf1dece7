//! C19 a conversion depends on its arguments only: neither on the conversions before it, nor on the
//! thread it runs in, nor on conversions that failed. A state is a history of conversions; it is
//! executed in a process of its own, and every step is compared with the same conversion as the
//! only one of another process.
use super::*;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{mpsc, Mutex, OnceLock};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C19", builds: &["std", "onig"], families: c19_families }]
}

pub fn run_call(c: &Value) -> Value {
    let o = Opts::from_json(&c["o"]);
    let f = if c["f"] == "avro" { Fmt::Avro } else { Fmt::Bq };
    match imp::conv(f, &c["s"], &o) {
        Out::Ok(v) => json!({ "ok": v }),
        Out::Panic(_) => json!("abort"),
    }
}

/// Two concurrent conversions: every schedule with one preemption, or two at coarser points.
fn c19_concurrent(s: &Value, l: &mut Local) {
    let (a, b) = match (alone(&s["a"]), alone(&s["b"])) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(m), _) | (_, Err(m)) => return l.violation(&m, Value::Null),
    };
    let mut v = s.clone();
    v["expect"] = json!([a, b]);
    match process("sched", &v) {
        Ok(r) => {
            let n = r["schedules"].as_u64().unwrap_or(0);
            l.ran(2 * n);
            l.inner_states += n;
            l.compared += 2 * n;
            l.outcome(&a.to_string());
            for _ in 0..r["blocked"].as_u64().unwrap_or(0) {
                l.count("schedules in which one thread waited for the other");
            }
            if r.get("bad").is_some() || r.get("failed").is_some() {
                l.violation("a conversion is disturbed by a concurrent one", json!({"schedule": r, "alone": [short(a.to_string()), short(b.to_string())]}));
            }
        }
        Err(m) => l.violation(&format!("the schedules cannot be executed: {}", m), Value::Null),
    }
}

/// The process that executes a history.
pub fn seq() -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let mut out: Vec<Value> = Vec::new();
    // two threads that live as long as the process
    let mut pool: Vec<(mpsc::Sender<Value>, mpsc::Receiver<Value>)> = Vec::new();
    if v["mode"] == "two" {
        for _ in 0..2 {
            let (tx, jobs) = mpsc::channel::<Value>();
            let (done, rx) = mpsc::channel::<Value>();
            std::thread::spawn(move || {
                for c in jobs {
                    let _ = done.send(run_call(&c));
                }
            });
            pool.push((tx, rx));
        }
    }
    for c in v["calls"].as_array().unwrap() {
        let n = c["repeat"].as_u64().unwrap_or(1);
        let mut r = Value::Null;
        for i in 0..n {
            let c = c.clone();
            let x = if v["mode"] == "threads" {
                std::thread::spawn(move || run_call(&c)).join().unwrap()
            } else if v["mode"] == "two" {
                let (tx, rx) = &pool[c["thread"].as_u64().unwrap_or(0) as usize];
                tx.send(c).unwrap();
                rx.recv().unwrap_or(json!("the thread died"))
            } else {
                run_call(&c)
            };
            if i > 0 && x != r {
                r = json!({"repetitions differ": [r, x], "at": i});
                break;
            }
            r = x;
        }
        out.push(r);
    }
    println!("{}", Value::Array(out));
    0
}

fn spawn(v: &Value) -> Result<Vec<Value>, String> {
    match process("seq", v) {
        Ok(Value::Array(a)) => Ok(a),
        Ok(_) => Err("no answer".into()),
        Err(m) => Err(m),
    }
}

fn process(command: &str, v: &Value) -> Result<Value, String> {
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg(command)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    c.stdin.take().unwrap().write_all(v.to_string().as_bytes()).map_err(|e| e.to_string())?;
    let o = c.wait_with_output().map_err(|e| e.to_string())?;
    if !o.status.success() {
        return Err(format!("the process ended with {:?}", o.status));
    }
    serde_json::from_slice(&o.stdout).map_err(|_| "no answer".to_string())
}

/// The result of a conversion in a process of its own.
fn alone(c: &Value) -> Result<Value, String> {
    static CACHE: OnceLock<Mutex<HashMap<String, Value>>> = OnceLock::new();
    let cache = CACHE.get_or_init(Default::default);
    let mut c = c.clone();
    c.as_object_mut().unwrap().remove("repeat");
    c.as_object_mut().unwrap().remove("thread");
    let k = c.to_string();
    if let Some(v) = cache.lock().unwrap().get(&k) {
        return Ok(v.clone());
    }
    let v = spawn(&json!({"mode": "same", "calls": [c]}))?.remove(0);
    cache.lock().unwrap().insert(k, v.clone());
    Ok(v)
}

fn c19(s: &Value, l: &mut Local) {
    let calls = s["calls"].as_array().unwrap();
    let r = match spawn(s) {
        Ok(r) => r,
        Err(m) => {
            l.violation(&format!("the history cannot be executed: {}", m), Value::Null);
            return;
        }
    };
    for (i, (c, x)) in calls.iter().zip(&r).enumerate() {
        l.ran(c["repeat"].as_u64().unwrap_or(1));
        l.compared += 1;
        l.outcome(&x.to_string());
        match alone(c) {
            Ok(y) if y == *x => (),
            Ok(y) => {
                l.violation(
                    &format!("conversion {} of the history differs from the same conversion on its own", i),
                    json!({"in history": short(x.to_string()), "alone": short(y.to_string())}),
                );
                return;
            }
            Err(m) => {
                l.violation(&m, Value::Null);
                return;
            }
        }
    }
}

fn call(f: &str, s: Value, o: Opts) -> Value {
    json!({"f": f, "s": s, "o": o.json()})
}

/// The alphabet: calls that share names, paths, and options in pairs, and calls that abort.
fn alphabet() -> Vec<Value> {
    let rich = json!({"type": "object", "required": ["fooBar"], "properties": {
        "fooBar": {"type": "integer"}, "b": {}, "t": {"type": "array", "items": [{"type": "integer"}, {"type": "string"}]},
        "c": {"type": "object", "properties": {"d": {"type": "object", "properties": {"x": {"type": "integer"}}}}}}});
    let meta = |p: &str| {
        let mut s = rich.clone();
        s["mozPipelineMetadata"] = json!({ "json_object_path_regex": p });
        s
    };
    let other = json!({"type": "object", "properties": {"fooBar": {"type": "string"}, "foo_bar2": {"type": "boolean"}, "c": {"type": "array", "items": {"type": "number"}}}});
    let map = json!({"type": "object", "additionalProperties": {}});
    let union = json!({"oneOf": [{"type": "object", "properties": {"fooBar": {"type": "integer"}}, "required": ["fooBar"]}, {"type": "null"}]});
    let cast = Opts::cast;
    vec![
        call("avro", rich.clone(), cast()),
        call("bq", rich.clone(), cast()),
        call("bq", rich.clone(), cast().case(true)),
        call("avro", other.clone(), cast().case(true)),
        call("bq", meta(r"c\.d"), cast()),
        call("bq", meta("fooBar|c"), cast()),
        call("bq", rich.clone(), cast().path("c")),
        call("avro", rich.clone(), Opts::new(Res::Panic)),
        call("bq", json!({"type": 3}), cast()),
        call("bq", rich.clone(), cast().path("(")),
        call("avro", rich.clone(), cast().tuple(true).force(true)),
        call("bq", map.clone(), Opts::new(Res::Drop).maps(true)),
        call("bq", map, Opts::new(Res::Drop)),
        call("avro", union, cast()),
        call("bq", rich.clone(), Opts::new(Res::Drop).tuple(true)),
        call("bq", other, cast()),
    ]
}

/// Small calls for the exploration of schedules: they share names and differ in options and paths.
fn concurrent_alphabet() -> Vec<Value> {
    let cast = Opts::cast;
    let s = json!({"type": "object", "required": ["fooBar"], "properties": {"fooBar": {"type": "integer"}, "b": {}}});
    let m = json!({"type": "object", "properties": {"fooBar": {"type": "object", "additionalProperties": {}}}});
    let u = json!({"type": "object", "properties": {"fooBar": {"oneOf": [{"type": "string"}, {"type": "null"}]}, "b": {"type": "array", "items": {"type": ["integer", "number"]}}}});
    let t = json!({"type": "object", "properties": {"b": {"type": "array", "items": [{"type": "integer"}], "maxItems": 1, "description": "d"}}});
    vec![
        call("bq", s.clone(), cast()),
        call("avro", s.clone(), cast().case(true)),
        call("bq", s.clone(), cast().path("b")),
        call("bq", json!({"type": 3}), cast()),
        call("avro", s.clone(), Opts::new(Res::Panic)),
        call("bq", u.clone(), Opts::new(Res::Drop).force(true)),
        call("avro", m.clone(), Opts::new(Res::Drop).maps(true)),
        call("bq", m, Opts::new(Res::Drop).maps(true)),
        call("bq", s.clone(), cast().path("(")),
        call("avro", t.clone(), cast().tuple(true)),
        call("bq", t, cast().tuple(true).case(true)),
        call("avro", u, cast().force(true)),
        call("bq", s.clone(), cast().path("fooBar.value|f")),
        call("avro", s.clone(), Opts::new(Res::Drop)),
        call("bq", s.clone(), Opts::new(Res::Drop).case(true)),
        call("avro", s, cast()),
    ]
}

/// Many calls that share names: documents x options.
fn many_calls(t: Tier) -> Vec<Value> {
    let mut docs = vec![
        json!({"type": "object", "required": ["aB", "1x"], "properties": {"aB": {"type": "integer"}, "1x": {"type": "string"}}}),
        json!({"type": "object", "properties": {"aB": {}, "c": {"type": "object", "properties": {"aB": {"type": "array", "items": {}}}}}}),
        json!({"type": "object", "properties": {"aB": {"oneOf": [{"type": "object", "properties": {"aB": {"type": "integer"}}}, {"type": "object", "properties": {"c": {"type": "string"}}}]}}}),
        json!({"type": "array", "items": {"type": "array", "items": {"type": "object", "additionalProperties": {"type": ["integer", "null"]}}}}),
        json!({"type": "array", "items": [{"type": "integer"}, {"properties": {"aB": {}}}], "maxItems": 3, "additionalItems": {"type": "string"}, "title": "t", "description": "d"}),
        json!({"oneOf": [{"type": "integer"}, {"type": "string"}]}),
        json!({"type": "object", "patternProperties": {"^a": {"type": "integer"}, "^b": {"type": "number"}}, "mozPipelineMetadata": {"json_object_path_regex": "root"}}),
        json!({"type": "object", "properties": {"a_b": {"type": "boolean", "title": "x"}, "aB": {"type": "null"}, "c": {"type": "string", "format": "date-time"}}}),
    ];
    docs.truncate(t.pick(6, 8));
    let opts = [Opts::cast(), Opts::cast().case(true), Opts::new(Res::Drop).tuple(true).maps(true), Opts::cast().force(true).tuple(true), Opts::cast().path("aB"), Opts::cast().path("c|.*aB"), Opts::new(Res::Panic)];
    let mut v = Vec::new();
    for s in docs {
        for o in &opts {
            v.push(call("bq", s.clone(), o.clone()));
            if o.path.is_none() {
                v.push(call("avro", s.clone(), o.clone()));
            }
        }
    }
    v
}

fn c19_families(t: Tier) -> Vec<Family> {
    // what differs in the other build is the conversion of names
    let onig = std::env::var("MC_LABEL").map_or(false, |x| x == "onig");
    let depth = t.pick(4, 5) - onig as usize;
    let letters = t.pick(11, 13);
    let one = t.pick(7, 16) - 3 * onig as usize;
    let two = t.pick(6, 16) - 3 * onig as usize;
    vec![
        family("pairs of calls", "every history of 2 of 16 calls, one thread or a thread per call", |e| {
            let a = alphabet();
            for m in ["same", "threads"] {
                for x in &a {
                    for y in &a {
                        e(json!({"mode": m, "calls": [x, y]}));
                    }
                }
            }
        }, c19),
        family("many pairs of calls", "every history of 2 of 72 (thorough: 96) calls", move |e| {
            let a = many_calls(t);
            for x in &a {
                for y in &a {
                    e(json!({"mode": "same", "calls": [x, y]}));
                }
            }
        }, c19),
        family("two threads", format!("every history of up to {} of 6 calls on two threads that persist, in every assignment", t.pick(4, 5)), move |e| {
            let a = concurrent_alphabet();
            fn go(a: &[Value], left: usize, cur: &mut Vec<Value>, e: &mut dyn FnMut(Value)) {
                if !cur.is_empty() {
                    e(json!({"mode": "two", "calls": cur}));
                }
                if left > 0 {
                    for x in a {
                        for k in 0..2 {
                            if cur.is_empty() && k == 1 {
                                continue;
                            }
                            let mut x = x.clone();
                            x["thread"] = json!(k);
                            cur.push(x);
                            go(a, left - 1, cur, e);
                            cur.pop();
                        }
                    }
                }
            }
            go(&a[..6], t.pick(4, 5) - onig as usize, &mut vec![], e);
        }, c19),
        family("one preemption", format!("every ordered pair of {} calls on two threads, the first interrupted at each of its allocator calls", one), move |e| {
            let a = concurrent_alphabet();
            for x in a.iter().take(one) {
                for y in a.iter().take(one) {
                    e(json!({"a": x, "b": y, "second": null}));
                }
            }
        }, c19_concurrent),
        family("two preemptions", format!("every ordered pair of {} calls, both interrupted, at {} evenly spaced allocator calls each", two, t.pick(16, 40)), move |e| {
            let a = concurrent_alphabet();
            for x in a.iter().take(two) {
                for y in a.iter().take(two) {
                    e(json!({"a": x, "b": y, "second": t.pick(16, 40)}));
                }
            }
        }, c19_concurrent),
        family("repetition", "every call after n repetitions of another, or n conversions of other names or other paths, n in 2, 70 (and 300, 1100 if thorough)", move |e| {
            let a = alphabet();
            for n in t.pick(vec![2u64, 70], vec![2, 70, 300, 1100]) {
                for x in &a {
                    for y in &a {
                        let mut x = x.clone();
                        x["repeat"] = json!(n);
                        e(json!({"mode": "same", "calls": [x, y]}));
                    }
                }
                for y in &a {
                    for kind in 0..3 {
                        let mut calls: Vec<Value> = (0..n)
                            .map(|i| match kind {
                                0 => call("bq", json!({"type": "object", "properties": {format!("fooBar{}", i): {"type": "integer"}}}), Opts::cast().case(true)),
                                1 => call("bq", json!({"type": "object", "properties": {"fooBar": {"type": "object"}}}), Opts::cast().path(&format!("foo{}", i))),
                                _ => call("avro", json!({"type": 3, "n": i}), Opts::cast()),
                            })
                            .collect();
                        // the steps in between are not compared one by one
                        let first = calls[0].clone();
                        calls.push(y.clone());
                        calls.push(first);
                        e(json!({"mode": "same", "calls": calls}));
                    }
                }
            }
        }, c19_tail),
        family("long repetition", "n repetitions of a call and then every call, n = 1100 (thorough: 300, 1100, 5000, and 70000 for 3 calls)", move |e| {
            let a = alphabet();
            for n in t.pick(vec![1100u64], vec![300, 1100, 5000, 70000]) {
                for x in &a[..if n > 5000 { 3 } else { a.len() }] {
                    let mut x = x.clone();
                    x["repeat"] = json!(n);
                    let mut calls = vec![x];
                    calls.extend(a.iter().cloned());
                    e(json!({"mode": "same", "calls": calls}));
                }
            }
        }, c19),
        family("sweeps", format!("{} different documents and options in one process: forwards, backwards and from the middle, each twice in succession or not", sweep(t).len()), move |e| {
            let parts = 12;
            for order in 0..3 {
                for twice in [false, true] {
                    for part in 0..parts {
                        e(json!({"sweep": order, "twice": twice, "part": part, "of": parts}));
                    }
                }
            }
        }, if t.thorough() { c19_sweep::<true> } else { c19_sweep::<false> }),
        family("histories", format!("every history of up to {} of {} calls", depth, letters), move |e| {
            let a: Vec<Value> = alphabet().into_iter().take(letters).collect();
            fn go(a: &[Value], left: usize, cur: &mut Vec<Value>, e: &mut dyn FnMut(Value)) {
                if !cur.is_empty() {
                    e(json!({"mode": "same", "calls": cur}));
                }
                if left > 0 {
                    for x in a {
                        cur.push(x.clone());
                        go(a, left - 1, cur, e);
                        cur.pop();
                    }
                }
            }
            go(&a, depth, &mut vec![], e);
        }, c19),
    ]
}

/// Many different conversions: whole documents, all constructs, names and texts of many lengths, widths around powers of two.
fn sweep(t: Tier) -> Vec<Value> {
    let mut v = Vec::new();
    let mut n = 0;
    let mut add = |s: Value| {
        let opts = [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true).maps(true), Opts::cast().case(true).force(true), Opts::cast().path("a"), Opts::new(Res::Panic).tuple(true), Opts::new(Res::Drop).case(true)];
        for (i, o) in opts.iter().enumerate() {
            if t.thorough() || i % 3 == n % 3 {
                v.push(call(if (n / 3 + i) % 2 == 0 || o.path.is_some() { "bq" } else { "avro" }, s.clone(), o.clone()));
            }
        }
        n += 1;
    };
    gen::realistic(&mut add);
    gen::stress(t.pick(5, 9), &mut add);
    for k in [33, 65] {
        gen::stress_at(k).into_iter().for_each(&mut add);
    }
    for (i, s) in gen::level(gen::CORE, &gen::few_leaves(), 1).iter().enumerate() {
        add(gen::annotate(s, i));
    }
    for k in 1..=131 {
        for name in ["a".repeat(k), "aB".repeat(k), format!("a{}B", "-".repeat(k)), format!("{}", 10u128.pow(k as u32 % 38))] {
            add(json!({"type": "object", "properties": {name: {"type": "integer"}}}));
        }
        add(json!({"type": "string", "title": "t".repeat(k), "description": "d".repeat(k * k)}));
    }
    v
}

/// One history; the steps of one part of it are compared.
fn c19_sweep<const THOROUGH: bool>(s: &Value, l: &mut Local) {
    static CALLS: OnceLock<Vec<Value>> = OnceLock::new();
    let calls = CALLS.get_or_init(|| sweep(if THOROUGH { Tier::Thorough } else { Tier::Quick }));
    let n = calls.len();
    let twice = s["twice"] == true;
    let mut h: Vec<Value> = (0..n)
        .map(|i| match s["sweep"].as_u64() {
            Some(0) => calls[i].clone(),
            Some(1) => calls[n - 1 - i].clone(),
            _ => calls[(i * 7 + n / 2) % n].clone(),
        })
        .collect();
    if twice {
        for c in &mut h {
            c["repeat"] = json!(2);
        }
    }
    let (part, of) = (s["part"].as_u64().unwrap() as usize, s["of"].as_u64().unwrap() as usize);
    match spawn(&json!({"mode": "same", "calls": h})) {
        Ok(r) => {
            l.ran(n as u64 * (1 + twice as u64));
            for i in (0..n).filter(|i| i % of == part) {
                l.compared += 1;
                l.outcome(&r[i].to_string());
                match alone(&h[i]) {
                    Ok(y) if y == r[i] => (),
                    Ok(y) => {
                        return l.violation(
                            &format!("conversion {} of the history differs from the same conversion on its own", i),
                            json!({"conversion": short(h[i].to_string()), "in history": short(r[i].to_string()), "alone": short(y.to_string())}),
                        )
                    }
                    Err(m) => return l.violation(&m, Value::Null),
                }
            }
        }
        Err(m) => l.violation(&format!("the history cannot be executed: {}", m), Value::Null),
    }
}

/// Compare only the last two steps (the many conversions before them are the history).
fn c19_tail(s: &Value, l: &mut Local) {
    let calls = s["calls"].as_array().unwrap();
    if calls.len() <= 2 {
        return c19(s, l);
    }
    match spawn(s) {
        Ok(r) => {
            l.ran(calls.len() as u64);
            for i in calls.len() - 2..calls.len() {
                l.compared += 1;
                l.outcome(&r[i].to_string());
                match alone(&calls[i]) {
                    Ok(y) if y == r[i] => (),
                    Ok(y) => {
                        l.violation(
                            &format!("conversion {} of the history differs from the same conversion on its own", i),
                            json!({"in history": short(r[i].to_string()), "alone": short(y.to_string())}),
                        );
                        return;
                    }
                    Err(m) => l.violation(&m, Value::Null),
                }
            }
        }
        Err(m) => l.violation(&format!("the history cannot be executed: {}", m), Value::Null),
    }
}
