//! C27 the script that serializes documents writes data of the Avro schema. A state is a schema; from
//! it all documents of a small scope are enumerated, and the script itself converts them.
use super::docs::{collides, documents};
use super::*;
use crate::diff::strip;
use crate::model::column;
use crate::validate::is_tuple;
use std::cell::{Cell, RefCell};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C27", builds: &["std"], families: c27_families }]
}

struct Worker {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
}
impl Worker {
    fn new() -> Worker {
        let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
        let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        let mut child = Command::new("python3")
            .args(["-S", "-B", "-X", "utf8", &format!("{}/mc/py/convert.py", root), &format!("{}/scripts/mps-generate-avro-data-helper.py", repo)])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("python3");
        let to = child.stdin.take();
        let from = BufReader::new(child.stdout.take().unwrap());
        Worker { child, to, from }
    }
    fn ask(&mut self, q: &Value) -> Value {
        let w = self.to.as_mut().unwrap();
        writeln!(w, "{}", q).and_then(|_| w.flush()).expect("the script cannot be run");
        let mut line = String::new();
        self.from.read_line(&mut line).unwrap();
        // documents may be nested deeper than the default limit of the parser
        serde_json::from_str(&line).expect("no reply")
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        self.to = None;
        let _ = self.child.wait();
    }
}
thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}
fn convert(schema: &Value, docs: &[Value]) -> Value {
    WORKER.with(|w| w.borrow_mut().get_or_insert_with(Worker::new).ask(&json!({"schema": schema, "docs": docs})))
}

fn same_number(a: &Value, b: &Value) -> bool {
    a.is_number() && b.is_number() && (a == b || a.as_f64() == b.as_f64())
}
/// Equality of JSON values, numbers by value.
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| same(v, w))),
        (Value::Number(_), Value::Number(_)) => same_number(a, b),
        _ => a == b,
    }
}

type R = Result<(), String>;

/// Is `x` the document `d` as a datum of the Avro type `t`? Columns that are not in the schema are not
/// in the datum; a field that is missing is null for the encoder.
fn datum(d: &Value, x: &Value, t: &Value, text: &Cell<bool>, p: &str) -> R {
    let (n, t) = strip(t).ok_or(format!("{}: not a type", p))?;
    if n && d.is_null() {
        return if x.is_null() { Ok(()) } else { Err(format!("{}: null was written as {}", p, x)) };
    }
    let no = || Err(format!("{}: {} was written as {}, of type {}", p, d, x, short(t["type"].to_string())));
    match t["type"].as_str() {
        Some("null") if x.is_null() => Ok(()),
        Some("boolean") if x.is_boolean() && x == d => Ok(()),
        Some("long") if x.is_i64() && x == d => Ok(()),
        Some("double") if same_number(x, d) => Ok(()),
        Some("string") => match x {
            Value::String(s) if d.is_string() && x == d || !d.is_string() && serde_json::from_str::<Value>(s).map_or(false, |y| same(&y, d)) => Ok(()),
            _ => no(),
        },
        Some("bytes") if x.get("\0bytes").is_some() && d.is_string() => Ok(()),
        // an encoder wants bytes, not text
        Some("bytes") if x == d && d.is_string() => {
            text.set(true);
            Ok(())
        }
        Some("array") => match (d, x) {
            (Value::Array(a), Value::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().try_for_each(|(i, (d, x))| datum(d, x, &t["items"], text, &format!("{}[{}]", p, i))),
            _ => no(),
        },
        Some("map") => match (d, x) {
            (Value::Object(a), Value::Object(b)) if a.len() == b.len() => a.iter().try_for_each(|(k, d)| match b.get(k) {
                Some(x) => datum(d, x, &t["values"], text, &format!("{}{{{}}}", p, k)),
                None => Err(format!("{}: the key {} is missing", p, k)),
            }),
            _ => no(),
        },
        Some("record") => {
            let fields = t["fields"].as_array().unwrap();
            let names: Vec<&str> = fields.iter().filter_map(|f| f["name"].as_str()).collect();
            let x = match x {
                Value::Object(m) => m,
                _ => return no(),
            };
            let doc: serde_json::Map<String, Value> = match d {
                Value::Object(m) => m.iter().filter_map(|(k, d)| column(k, false).map(|c| (c, d.clone()))).collect(),
                Value::Array(a) if is_tuple(&names) => a.iter().enumerate().map(|(i, d)| (format!("f{}_", i), d.clone())).collect(),
                // the record around a list or a null inside of a list
                Value::Array(_) | Value::Null if names == ["list"] => [("list".to_string(), d.clone())].into_iter().collect(),
                _ => return no(),
            };
            if let Some(k) = x.keys().find(|k| !names.contains(&k.as_str())) {
                return Err(format!("{}: there is no field {}", p, k));
            }
            fields.iter().try_for_each(|f| {
                let k = f["name"].as_str().unwrap();
                datum(doc.get(k).unwrap_or(&Value::Null), x.get(k).unwrap_or(&Value::Null), &f["type"], text, &format!("{}.{}", p, k))
            })
        }
        _ => no(),
    }
}

fn c27<const ALL: bool>(s: &Value, l: &mut Local) {
    let few = [Opts::cast().tuple(true), Opts::new(Res::Drop).tuple(true), Opts::cast().force(true)];
    let mut seen: Vec<(Value, Vec<Value>)> = Vec::new();
    for o in if ALL { all_opts(&[Res::Cast, Res::Drop]).into_iter().filter(|o| !o.case).collect() } else { few.to_vec() } {
        if collides(s, &o) {
            l.count("colliding names");
            continue;
        }
        let t = match imp::avro(s, &o) {
            Out::Ok(t) => t,
            _ => continue,
        };
        l.ran(1);
        let top = strip(&t).map(|x| x.0) == Some(false);
        let ds: Vec<Value> = documents(s, &o)
            .into_iter()
            // a document that is null as a whole is not a record
            .filter(|d| !(d.is_null() && top && strip(&t).unwrap().1["type"] == "record"))
            .collect();
        if ds.is_empty() || seen.iter().any(|(x, y)| x == &t && y == &ds) {
            continue;
        }
        let r = convert(&t, &ds);
        l.ran(1);
        l.outcome(&r.to_string());
        let out = r["out"].as_array().cloned().unwrap_or_default();
        let bad = |what: String, l: &mut Local| {
            l.violation(&what, json!({"options": o.json(), "schema": s, "documents": ds, "avro": t, "reply": short(r.to_string())}));
        };
        let text = Cell::new(false);
        l.compared += ds.len() as u64;
        if !r["error"].is_null() {
            bad(format!("the script fails: {}", short(r["error"].to_string())), l);
        } else if out.len() != ds.len() {
            bad(format!("{} data were written for {} documents", out.len(), ds.len()), l);
        } else if let Some(e) = ds.iter().zip(&out).find_map(|(d, x)| datum(d, x, &t, &text, "root").err()) {
            bad(format!("a datum is not its document: {}", e), l);
        }
        if text.get() {
            l.known("script-bytes", || json!({"schema": s, "documents": ds, "avro": t, "data": out}));
        }
        seen.push((t, ds));
    }
}

fn c27_families(t: Tier) -> Vec<Family> {
    let mut v = vec![
        family("realistic", "whole documents, every combination of the strategies cast and drop with the other flags", |e| gen::realistic(e), c27::<true>),
        family("compositions of one", "every composition of <= 1 of 44 contexts over 14 leaves, every combination of the flags", |e| gen::compositions(&gen::all_ctx(), &gen::leaves(), 1, e), c27::<true>),
        family("compositions", format!("every composition of <= 2 of 44 contexts over {} leaves", t.pick(6, 14)), move |e| {
            gen::compositions(&gen::all_ctx(), &t.pick(gen::few_leaves(), gen::leaves()), 2, e)
        }, c27::<false>),
        family("core compositions", format!("every composition of <= {} of 15 contexts over 3 leaves", t.pick(3, 4)), move |e| gen::compositions(gen::CORE, &gen::few_leaves()[..3], t.pick(3, 4), e), c27::<false>),
        family("pairs", format!("{}^2 x {}", pair_set(t).len(), gen::BINARY.len()), move |e| gen::pairs(&pair_set(t), gen::BINARY, e), c27::<false>),
        family("type lists", "ordered type lists up to length 3", |e| gen::type_lists(3, e), c27::<false>),
        family("tuples", "item lists up to length 2 with every bound", |e| gen::tuples(&[gen::ty("integer"), json!({"type": ["string", "null"]}), json!({"type": "array", "items": {"type": "array", "items": {"type": "integer"}}})], 2, e), c27::<false>),
        family("stress", format!("linear families up to n={}", t.pick(10, 40)), move |e| gen::stress(t.pick(10, 40), e), c27::<false>),
    ];
    v.push(family("names", "one property with each of the names and each of 6 schemas, required or not, and beside another", |e| {
        for n in names::interesting() {
            for x in gen::few_leaves() {
                for r in [json!([]), json!([n])] {
                    e(json!({"type": "object", "properties": {n: x, "zz": {"type": "string"}}, "required": r}));
                    e(json!({"type": "array", "items": {"type": "object", "properties": {n: {"type": "object", "properties": {n: x}}}, "required": r}}));
                }
            }
        }
    }, c27::<false>));
    v
}
