//! C15 the command line tool is the library: for every spelling of the options, every way of giving
//! the input, and every answer of the environment. A state is an invocation.
use super::*;
use std::io::Write;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C15", builds: &["std"], families: c15_families }]
}

fn bin() -> &'static PathBuf {
    static B: OnceLock<PathBuf> = OnceLock::new();
    B.get_or_init(|| PathBuf::from(std::env::var("MC_JST").unwrap_or_else(|_| "/verif/target/cli/release/jsonschema-transpiler".into())))
}
fn shim() -> &'static str {
    static B: OnceLock<String> = OnceLock::new();
    B.get_or_init(|| std::env::var("MC_SHIM").unwrap_or_else(|_| "/verif/target/shim.so".into()))
}

/// A scratch directory of this process.
struct Scratch(PathBuf, AtomicU64);
impl Scratch {
    fn file(&self) -> PathBuf {
        self.0.join(format!("f{}", self.1.fetch_add(1, Ordering::Relaxed)))
    }
}
fn scratch() -> &'static Scratch {
    static S: OnceLock<Scratch> = OnceLock::new();
    S.get_or_init(|| {
        let base = if std::path::Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("mc-cli-{}", std::process::id()));
        if std::fs::create_dir_all(&d).is_ok() {
            return Scratch(d, AtomicU64::new(0));
        }
        let d = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d, AtomicU64::new(0))
    })
}
pub fn cleanup(id: &str) {
    if id != "C15" {
        return;
    }
    let _ = std::fs::remove_dir_all(&scratch().0);
}

struct Run {
    stdout: Vec<u8>,
    code: Option<i32>,
    taken: usize,
}

/// The input: {"text"}, of which at most the byte at one place is another one: "byte": [place, value].
fn bytes(s: &Value) -> Vec<u8> {
    let mut t = s["text"].as_str().unwrap().as_bytes().to_vec();
    if let (Some(i), Some(b)) = (s["byte"][0].as_u64(), s["byte"][1].as_u64()) {
        t[i as usize] = b as u8;
    }
    t
}

/// {"text": .., "args": [..] with "@" for the input file, "env": {..}, "dev": ".."}
fn invoke(s: &Value) -> Result<Run, String> {
    let text = bytes(s);
    let args: Vec<String> = s["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_string()).collect();
    let mut file = None;
    let args: Vec<String> = args
        .into_iter()
        .map(|a| {
            if a == "@" {
                let f = file.get_or_insert_with(|| scratch().file()).clone();
                f.to_str().unwrap().to_string()
            } else {
                a
            }
        })
        .collect();
    let mut c = Command::new(bin());
    c.args(&args).stdout(Stdio::piped()).stderr(Stdio::null()).env_remove("RUST_LOG").env_remove("RUST_BACKTRACE").current_dir(&scratch().0);
    if let Some(Value::Object(m)) = s.get("env") {
        for (k, v) in m {
            c.env(k, v.as_str().unwrap());
        }
    }
    let mut log = None;
    if let Some(d) = s["dev"].as_str() {
        let f = scratch().file();
        c.env("LD_PRELOAD", shim()).env("MC_DEV", d).env("MC_LOG", &f);
        if let Some(i) = &file {
            c.env("MC_INPUT", i);
        }
        log = Some(f);
    }
    if let Some(f) = &file {
        std::fs::write(f, &text).map_err(|e| e.to_string())?;
        c.stdin(Stdio::null());
    } else {
        c.stdin(Stdio::piped());
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let feed = child.stdin.take().map(|mut i| {
        let t = text;
        std::thread::spawn(move || {
            let _ = i.write_all(&t);
        })
    });
    let out = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        let mut out = out;
        let _ = std::io::Read::read_to_end(&mut out, &mut v);
        v
    });
    let t = Instant::now();
    let mut status = None;
    while t.elapsed() < Duration::from_secs(60) {
        match child.try_wait() {
            Ok(Some(s)) => {
                status = Some(s);
                break;
            }
            _ => std::thread::sleep(Duration::from_micros(200)),
        }
    }
    if status.is_none() {
        let _ = child.kill();
        let _ = child.wait();
    }
    let stdout = reader.join().unwrap();
    if let Some(f) = feed {
        let _ = f.join();
    }
    let taken = log.as_ref().and_then(|f| std::fs::read_to_string(f).ok()).map_or(0, |s| s.lines().count());
    for f in file.iter().chain(log.iter()) {
        let _ = std::fs::remove_file(f);
    }
    let status = status.ok_or("the tool does not end")?;
    Ok(Run { stdout, code: status.code(), taken })
}

/// The options the arguments ask for (the meaning of the command line, written down once more).
fn meaning(s: &Value) -> (Fmt, Opts) {
    let m = &s["means"];
    (if m["type"] == "bigquery" { Fmt::Bq } else { Fmt::Avro }, Opts::from_json(&m["opts"]))
}

/// Whether this is the text of the value, which may be too deep for the parser.
fn prints(text: &[u8], v: &Value) -> bool {
    match serde_json::from_slice::<Value>(text) {
        Ok(x) => x == *v,
        Err(_) => {
            let bare = |s: &[u8]| -> Vec<u8> { s.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect() };
            bare(text) == bare(v.to_string().as_bytes())
        }
    }
}

fn c15(s: &Value, l: &mut Local) {
    let r = match invoke(s) {
        Ok(r) => r,
        Err(m) => {
            l.violation(&m, Value::Null);
            return;
        }
    };
    l.ran(1);
    l.compared += 1;
    for _ in 0..r.taken {
        l.count("deviations taken");
    }
    let detail = |want: String| json!({"exit code": r.code, "stdout": short(String::from_utf8_lossy(&r.stdout).to_string()), "expected": short(want)});
    // what must happen: an exit code of 0 with this output, or a failure without output
    let want = if s["means"] == "error" {
        None
    } else {
        let (f, o) = meaning(s);
        match serde_json::from_slice::<Value>(&bytes(s)) {
            Err(_) => None,
            Ok(v) => imp::conv(f, &v, &o).ok().cloned(),
        }
    };
    match want {
        None => {
            l.outcome(&"fails");
            let broken_pipe = s["dev"].as_str().map_or(false, |d| d.contains('w'));
            if r.code == Some(0) {
                l.violation("the tool reports success", detail("failure".into()));
            } else if !r.stdout.is_empty() && !broken_pipe {
                l.violation("the tool fails and prints a schema", detail("failure".into()));
            }
        }
        Some(v) => {
            l.outcome(&v.to_string());
            let fatal = s["fatal"] == true && r.taken > 0;
            if fatal {
                if r.code == Some(0) && !prints(&r.stdout, &v) {
                    l.violation("the environment failed and the tool reports success", detail(v.to_string()));
                } else if r.code != Some(0) && s["failed"] == "read" && !r.stdout.is_empty() {
                    l.violation("the input could not be read and the tool prints a schema", detail(v.to_string()));
                }
            } else if r.code != Some(0) {
                l.violation("the tool fails where the library succeeds", detail(v.to_string()));
            } else if !prints(&r.stdout, &v) {
                l.violation("the tool prints something else than the library returns", detail(v.to_string()));
            } else if r.stdout.last() != Some(&b'\n') {
                l.violation("the output does not end with a newline", detail(v.to_string()));
            }
        }
    }
}

/// C15, options given as data: every subset of the keys.
fn c15_context(s: &Value, l: &mut Local) {
    let c: jst::Context = match serde_json::from_value(s["context"].clone()) {
        Ok(c) => c,
        Err(e) => {
            l.violation(&format!("the options are not accepted: {}", e), Value::Null);
            return;
        }
    };
    let o = Opts::from_json(&s["means"]);
    for f in FMTS {
        let doc = flagged();
        let c = c.clone();
        let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match f {
            Fmt::Avro => jst::convert_avro(&doc, c),
            Fmt::Bq => jst::convert_bigquery(&doc, c),
        }))
        .ok();
        l.ran(1);
        l.compared += 1;
        let b = imp::conv(f, &doc, &o).ok().cloned();
        l.outcome(&format!("{:?}", b));
        if a != b {
            l.violation("options given as data mean something else", json!({"as data": format!("{:?}", a), "as values": format!("{:?}", b)}));
        }
    }
}

/// A schema on which every option shows.
fn flagged() -> Value {
    json!({"type": "object", "required": ["fooBar", "b"], "properties": {
        "fooBar": {"type": "integer"}, "b": {"type": "string"}, "u": {}, "m": {"type": "object", "additionalProperties": {}},
        "t": {"type": "array", "items": [{"type": "integer"}, {"type": "boolean"}]},
        "n": {"type": "object", "properties": {"x": {"type": "number"}}}}})
}
/// The same without a part that cannot be resolved.
fn plain() -> Value {
    json!({"type": "object", "required": ["fooBar", "b"], "properties": {
        "fooBar": {"type": "integer"}, "b": {"type": "string"}, "m": {"type": "object", "additionalProperties": {"type": "number"}},
        "n": {"type": "object", "properties": {"x": {"type": "number"}}}}})
}
fn documents() -> Vec<Value> {
    vec![
        flagged(),
        plain(),
        json!({"type": "integer"}),
        json!({"type": "object", "mozPipelineMetadata": {"json_object_path_regex": "n"}, "properties": {"n": {"type": "object", "properties": {"x": {"type": "integer"}}}}}),
        json!({"oneOf": [{"type": "integer"}, {"type": "string"}, {"type": "null"}]}),
        json!({"type": "object", "additionalProperties": {"oneOf": [{"type": "string"}, {"type": "integer"}]}}),
    ]
}

fn inv(text: String, args: Vec<&str>, f: &str, o: &Opts) -> Value {
    json!({"text": text, "args": args, "means": {"type": f, "opts": o.json()}})
}

/// Every combination of options in the long or the short spelling, with the input at every place.
fn options(e: &mut dyn FnMut(Value)) {
    for doc in documents() {
        for (ti, ty) in [("", "avro"), ("avro", "avro"), ("bigquery", "bigquery")] {
            for (ri, res) in [("", Res::Cast), ("cast", Res::Cast), ("drop", Res::Drop), ("panic", Res::Panic)] {
                for bits in 0..16u32 {
                    let o = Opts { res, tuple: bits & 1 != 0, case: bits & 2 != 0, force: bits & 4 != 0, maps: bits & 8 != 0, path: None };
                    for spelling in 0..3 {
                        let mut args: Vec<String> = Vec::new();
                        if !ti.is_empty() {
                            match spelling {
                                0 => args.push(format!("--type={}", ti)),
                                1 => args.extend(["-t".to_string(), ti.to_string()]),
                                _ => args.extend(["--type".to_string(), ti.to_string()]),
                            }
                        }
                        if !ri.is_empty() {
                            match spelling {
                                0 => args.extend(["--resolve".to_string(), ri.to_string()]),
                                1 => args.push(format!("-r{}", ri)),
                                _ => args.push(format!("--resolve={}", ri)),
                            }
                        }
                        let flags: Vec<(&str, &str)> = [(o.case, "--normalize-case", "c"), (o.force, "--force-nullable", "n"), (o.maps, "--allow-maps-without-value", "w")]
                            .iter()
                            .filter(|x| x.0)
                            .map(|x| (x.1, x.2))
                            .collect();
                        match spelling {
                            0 => args.extend(flags.iter().map(|x| x.0.to_string())),
                            1 => {
                                if !flags.is_empty() {
                                    args.push(format!("-{}", flags.iter().map(|x| x.1).collect::<String>()))
                                }
                            }
                            _ => args.extend(flags.iter().rev().map(|x| format!("-{}", x.1))),
                        }
                        if o.tuple {
                            args.push("--tuple-struct".into());
                        }
                        let mut a: Vec<&str> = args.iter().map(String::as_str).collect();
                        match spelling {
                            0 => a.push("@"),
                            1 => a.insert(0, "@"),
                            _ => (),
                        }
                        e(inv(doc.to_string(), a, ty, &o));
                    }
                }
            }
        }
    }
}

fn inputs(e: &mut dyn FnMut(Value)) {
    let o = Opts::cast();
    for doc in documents() {
        for text in [
            doc.to_string(),
            serde_json::to_string_pretty(&doc).unwrap(),
            format!("\n\t {} \r\n\n", doc),
            doc.to_string().replace("fooBar", "foo\\u0042ar"),
        ] {
            for place in [vec![], vec!["-"], vec!["@"], vec!["--", "@"], vec!["--", "-"]] {
                for (env, v) in [("", ""), ("RUST_LOG", "trace"), ("RUST_LOG", "off"), ("RUST_LOG", "jst=debug"), ("RUST_BACKTRACE", "1"), ("LC_ALL", "tr_TR.UTF-8"), ("TERM", "dumb")] {
                    for ty in ["avro", "bigquery"] {
                        let mut a = vec!["-t", ty];
                        a.extend(place.iter());
                        let mut s = inv(text.clone(), a, ty, &o);
                        if !env.is_empty() {
                            s["env"] = json!({ env: v });
                        }
                        e(s);
                    }
                }
            }
        }
        // every prefix of the text is an error, and so is every byte too many
        let t = doc.to_string();
        for k in 0..t.len() {
            if t.is_char_boundary(k) {
                e(inv(t[..k].to_string(), vec![], "avro", &o));
            }
        }
        for x in ["}", "x", "{}", ",", "\"", "\u{0}"] {
            e(inv(format!("{}{}", t, x), vec![], "avro", &o));
            e(inv(format!("{}{}", x, t), vec!["@"], "avro", &o));
        }
        for (i, p) in permuted(&doc).into_iter().enumerate() {
            let ty = ["avro", "bigquery"][i % 2];
            e(inv(p, vec!["-t", ty], ty, &o));
        }
    }
    for x in ["", " ", "null", "1", "\"a\"", "[]", "true", "{}", "{\"type\":\"nope\"}", "{\"type\":null}", "\u{feff}{}", "{\"type\":\"integer\",\"type\":\"string\"}", "{'type':'integer'}", "// c\n{}"] {
        for ty in ["avro", "bigquery"] {
            e(inv(x.to_string(), vec!["-t", ty], ty, &o));
            e(inv(x.to_string(), vec!["-t", ty, "@"], ty, &o));
        }
    }
    // an invocation that is not understood does nothing
    let t = plain().to_string();
    for a in [
        vec!["--nope"], vec!["-t", "nope"], vec!["-t"], vec!["-r", "nope"], vec!["-r"], vec!["--type="], vec!["-x"], vec!["@", "@"],
        vec!["/nonexistent/file"], vec!["."], vec!["--normalize-case=1"], vec!["-t", "avro", "-t", "bigquery"], vec!["--resolve=CAST"], vec!["--type=Avro"], vec![""], vec!["-c", "-c"],
    ] {
        e(json!({"text": t, "args": a, "means": "error"}));
    }
}

/// Every text that is one edit away from a document, several documents one after another, bytes that
/// are no text.
fn edits(more: bool, e: &mut dyn FnMut(Value)) {
    let o = Opts::cast();
    let t = "{\"properties\": {\"a\": {\"type\": [\"null\", \"number\"]}}, \"maxItems\": 10}";
    let mut n = 0;
    let mut add = |text: String, byte: Option<(usize, u8)>| {
        n += 1;
        let ty = ["avro", "bigquery"][n % 2];
        let mut s = inv(text, if n % 3 == 0 { vec!["-t", ty, "@"] } else { vec!["-t", ty] }, ty, &o);
        if let Some((i, b)) = byte {
            s["byte"] = json!([i, b]);
        }
        e(s);
    };
    let symbols = ["{", "}", "[", "]", ",", ":", "\"", "\\", "0", "-", " ", "\n", "\t", "\u{0}", "\u{b}", "e", "null", "\u{a0}", "//", "\u{e9}"];
    for i in 0..t.len() {
        add(format!("{}{}", &t[..i], &t[i + 1..]), None);
        if i + 1 < t.len() {
            add(format!("{}{}{}{}", &t[..i], &t[i + 1..i + 2], &t[i..i + 1], &t[i + 2..]), None);
        }
        for x in symbols {
            add(format!("{}{}{}", &t[..i], x, &t[i..]), None);
            add(format!("{}{}{}", &t[..i], x, &t[i + 1..]), None);
        }
        for b in [0x00u8, 0x1f, 0x7f, 0x80, 0xbf, 0xc3, 0xe2, 0xf0, 0xfe, 0xff] {
            add(t.to_string(), Some((i, b)));
        }
        if more {
            for b in 0..=255 {
                add(t.to_string(), Some((i, b)));
            }
        }
    }
    let docs: Vec<String> = documents().iter().chain(&[json!({}), json!(null), json!([]), json!({"type": "integer"})]).map(Value::to_string).collect();
    for a in &docs {
        for b in &docs {
            for sep in ["", " ", "\n", "\r\n", ",", "\n\n", "\n---\n", "\u{0}", "\u{1e}", ";", "\u{feff}"] {
                add(format!("{}{}{}", a, sep, b), None);
            }
        }
        for x in ["\u{feff}", "\u{1e}", "\u{c}", "\u{a0}", "\u{2028}", "/**/", "#\n", ")]}'\n"] {
            add(format!("{}{}", x, a), None);
            add(format!("{}{}", a, x), None);
            add(format!("{}\n{}", a, x), None);
        }
    }
}

fn sizes(max: usize, e: &mut dyn FnMut(Value)) {
    let mut n = 1;
    while n <= max {
        for d in 0..3usize {
            let m = (n + d).saturating_sub(1);
            let mut p = serde_json::Map::new();
            for i in 0..m {
                p.insert(format!("property{}", i), json!({"type": ["integer", "null"], "description": "x".repeat(i % 97)}));
            }
            let s = json!({"type": "object", "properties": p});
            for (ty, place) in [("avro", vec![]), ("bigquery", vec!["@"]), ("bigquery", vec![]), ("avro", vec!["@"])] {
                let mut a = vec!["-t", ty];
                a.extend(place.iter());
                e(inv(s.to_string(), a, ty, &Opts::cast()));
            }
        }
        n *= 4;
    }
}

/// At most `bound` deviations of the environment, at every point.
fn environment(points: usize, bound: usize, e: &mut dyn FnMut(Value)) {
    let mut letters: Vec<(String, &str)> = Vec::new();
    for i in 0..points {
        for d in ["s1", "s7", "s4096", "i", "e"] {
            letters.push((format!("r{}={}", i, d), if d == "e" { "read" } else { "" }));
            letters.push((format!("w{}={}", i, d), if d == "e" { "write" } else { "" }));
        }
        letters.push((format!("r{}=z", i), "read"));
    }
    let mut big = serde_json::Map::new();
    for i in 0..400 {
        big.insert(format!("p{}", i), json!({"type": "integer"}));
    }
    let docs = [plain(), json!({"type": "integer"}), json!({"type": "object", "properties": big})];
    let mut emit = |devs: &[&(String, &str)]| {
        for (i, doc) in docs.iter().enumerate() {
            for (ty, place) in [("avro", vec![]), ("bigquery", vec!["@"])] {
                let mut a = vec!["-t", ty];
                a.extend(place.iter());
                let mut s = inv(doc.to_string(), a, ty, &Opts::cast());
                s["dev"] = json!(devs.iter().map(|d| d.0.as_str()).collect::<Vec<_>>().join(","));
                if devs.iter().any(|d| !d.1.is_empty()) {
                    s["fatal"] = json!(true);
                }
                if devs.iter().all(|d| d.1 != "write") && devs.iter().any(|d| d.1 == "read") && !devs.iter().any(|d| d.0.ends_with('z')) {
                    s["failed"] = json!("read");
                }
                let _ = i;
                e(s);
            }
        }
    };
    emit(&[]);
    for (i, a) in letters.iter().enumerate() {
        emit(&[a]);
        if bound > 1 {
            for b in &letters[i + 1..] {
                if a.0[..2] != b.0[..2] {
                    emit(&[a, b]);
                }
            }
        }
    }
}

/// Every split of the input into two reads.
fn splits(e: &mut dyn FnMut(Value)) {
    for doc in [flagged(), json!({"type": "string", "description": "\u{e9}\u{4e2d}\u{1f600}\\\""})] {
        let t = doc.to_string();
        for k in 1..t.len() {
            for place in ["@", "-"] {
                let mut s = inv(t.clone(), vec!["-t", "bigquery", place], "bigquery", &Opts::cast());
                s["dev"] = json!(format!("r0=s{}", k));
                e(s);
            }
        }
        let mut s = inv(t.clone(), vec![], "avro", &Opts::cast());
        s["dev"] = json!((0..t.len()).map(|i| format!("r{}=s1", i)).collect::<Vec<_>>().join(","));
        e(s);
    }
}

fn contexts(e: &mut dyn FnMut(Value)) {
    for (r, res) in [(None, Res::Cast), (Some("Cast"), Res::Cast), (Some("Drop"), Res::Drop), (Some("Panic"), Res::Panic)] {
        for present in 0..32u32 {
            for on in 0..32u32 {
                if on & !present != 0 {
                    continue;
                }
                let mut c = serde_json::Map::new();
                if let Some(r) = r {
                    c.insert("resolve_method".into(), json!(r));
                }
                for (i, k) in ["normalize_case", "force_nullable", "tuple_struct", "allow_maps_without_value"].iter().enumerate() {
                    if present & (1 << i) != 0 {
                        c.insert(k.to_string(), json!(on & (1 << i) != 0));
                    }
                }
                let mut o = Opts { res, case: on & 1 != 0, force: on & 2 != 0, tuple: on & 4 != 0, maps: on & 8 != 0, path: None };
                if present & 16 != 0 {
                    c.insert("json_object_path_regex".into(), if on & 16 != 0 { json!("n") } else { Value::Null });
                    if on & 16 != 0 {
                        o = o.path("n");
                    }
                }
                e(json!({"context": c, "means": o.json()}));
            }
        }
    }
}

fn c15_families(t: Tier) -> Vec<Family> {
    let mut v = vec![
        family("options", "6 schemas x 192 combinations of options x 3 spellings and places of the input", options, c15),
        family("inputs", "texts, places, environment variables, every truncation, invalid invocations", inputs, c15),
        family("edits", "every deletion, exchange, insertion and replacement of a character of a document, bytes that are no text, two documents in one input", move |e| edits(t.thorough(), e), c15),
        family("splits", "every split of the input into two reads, and one byte per read", splits, c15),
        family("environment", "every answer of the environment with up to 2 deviations", move |e| environment(t.pick(3, 5), 2, e), c15),
        family("sizes", format!("objects with n-1, n, n+1 columns, n=4^k up to {}", t.pick(4096, 65536)), move |e| sizes(t.pick(4096, 65536), e), c15),
        family("options as data", "every subset of the keys with every value", contexts, c15_context),
        family("schemas", "every composition of <= 1 (thorough: 2) of 44 contexts over 14 leaves", move |e| {
            gen::compositions(&gen::all_ctx(), &gen::leaves(), t.pick(1, 2), &mut |s| {
                for ty in ["avro", "bigquery"] {
                    e(inv(s.to_string(), vec!["--type", ty], ty, &Opts::cast()));
                }
            })
        }, c15),
    ];
    v.push(family("deep", "every context and binary construct nested in itself as deep as the parser allows", move |e| {
        for u in effort::units(t.pick(1, 3)) {
            for leaf in [gen::ty("integer"), json!({})] {
                let s = effort::deepest(&effort::unit(&u), &leaf);
                for ty in ["avro", "bigquery"] {
                    e(inv(s.to_string(), vec!["--type", ty, "--tuple-struct"], ty, &Opts::cast().tuple(true)));
                }
            }
        }
    }, c15));
    v.extend(config::families(t));
    v
}

/// The text of a document with the keys of one of its objects in every order (all orders up to four
/// keys, every rotation and the reverse above).
fn permuted(doc: &Value) -> Vec<String> {
    fn perms(n: usize) -> Vec<Vec<usize>> {
        if n > 4 {
            let mut v: Vec<Vec<usize>> = (0..n).map(|k| (0..n).map(|i| (i + k) % n).collect()).collect();
            v.push((0..n).rev().collect());
            return v;
        }
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = Vec::new();
        for p in perms(n - 1) {
            for i in 0..n {
                let mut q = p.clone();
                q.insert(i, n - 1);
                out.push(q);
            }
        }
        out
    }
    fn objects(v: &Value) -> usize {
        match v {
            Value::Object(m) => 1 + m.values().map(objects).sum::<usize>(),
            Value::Array(a) => a.iter().map(objects).sum(),
            _ => 0,
        }
    }
    fn keys(v: &Value, at: &mut isize) -> Option<usize> {
        match v {
            Value::Object(m) => {
                if *at == 0 {
                    *at -= 1;
                    return Some(m.len());
                }
                *at -= 1;
                m.values().find_map(|x| keys(x, at))
            }
            Value::Array(a) => a.iter().find_map(|x| keys(x, at)),
            _ => None,
        }
    }
    fn text(v: &Value, at: &mut isize, p: &[usize]) -> String {
        match v {
            Value::Object(m) => {
                let mine = *at == 0;
                *at -= 1;
                let parts: Vec<String> = m.iter().map(|(k, x)| format!("{}:{}", json!(k), text(x, at, p))).collect();
                let parts = if mine { p.iter().map(|i| parts[*i].clone()).collect() } else { parts };
                format!("{{{}}}", parts.join(","))
            }
            Value::Array(a) => format!("[{}]", a.iter().map(|x| text(x, at, p)).collect::<Vec<_>>().join(",")),
            x => x.to_string(),
        }
    }
    let mut out = Vec::new();
    for i in 0..objects(doc) {
        let n = keys(doc, &mut (i as isize)).unwrap_or(0);
        for p in perms(n) {
            out.push(text(doc, &mut (i as isize), &p));
        }
    }
    out
}
