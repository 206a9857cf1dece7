//! C28 the scripts that go over a directory. A state is a directory, what becomes of each of its files,
//! and the arguments; the real script runs in a scratch directory (as an unprivileged user), with
//! stand-ins for the programs that it starts.
use super::*;
use std::collections::BTreeMap;
use std::fs;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C28", builds: &["std"], families: c28_families }]
}

const NOBODY: u32 = 65534;

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("mc-batch-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn write(&self, name: &str, text: &str) {
        let p = self.0.join(name);
        fs::create_dir_all(p.parent().unwrap()).unwrap();
        fs::write(&p, text).unwrap();
        fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
    }
    fn give(&self) {
        fn go(p: &Path) {
            let _ = std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY));
            if p.is_dir() {
                fs::read_dir(p).unwrap().for_each(|e| go(&e.unwrap().path()));
            }
        }
        go(&self.0);
    }
    /// Every file below, with its text.
    fn files(&self) -> BTreeMap<String, String> {
        fn go(base: &Path, p: &Path, m: &mut BTreeMap<String, String>) {
            for e in fs::read_dir(p).into_iter().flatten().flatten() {
                let q = e.path();
                if q.is_dir() {
                    go(base, &q, m);
                } else {
                    m.insert(q.strip_prefix(base).unwrap().to_string_lossy().to_string(), fs::read_to_string(&q).unwrap_or_default());
                }
            }
        }
        let mut m = BTreeMap::new();
        go(&self.0, &self.0, &mut m);
        m
    }
    fn script(&self, name: &str) {
        let repo = std::env::var("MC_REPO").unwrap_or_else(|_| "/repo".into());
        self.write(&format!("work/scripts/{}", name), &fs::read_to_string(format!("{}/scripts/{}", repo, name)).expect("the script"));
    }
    /// Runs a script as an unprivileged user: did it succeed, stdout, stderr.
    fn run(&self, name: &str, args: &[String], cwd: &str, env: &[(&str, &str)]) -> (bool, String, String) {
        fs::create_dir_all(self.0.join("tmp")).unwrap();
        self.give();
        let mut c = Command::new(if name.ends_with(".py") { "python3" } else { "bash" });
        c.arg(self.0.join("work/scripts").join(name))
            .args(args)
            .current_dir(self.0.join(cwd))
            .env_clear()
            .env("PATH", format!("{}:/usr/local/bin:/usr/bin:/bin", self.0.join("bin").display()))
            .env("HOME", &self.0)
            .env("TMPDIR", self.0.join("tmp"))
            .env("PYTHONPATH", self.0.join("python"))
            .env("PYTHONDONTWRITEBYTECODE", "1")
            .env("LC_ALL", "C.UTF-8")
            .envs(env.iter().copied())
            .stdin(Stdio::null());
        if unsafe { libc::geteuid() } == 0 {
            c.uid(NOBODY).gid(NOBODY);
        }
        let o = c.output().expect("bash");
        (o.status.success(), String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string())
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Stands for the tool: what it does is said by the file it is given; it records its options.
const TOOL: &str = r#"#!/bin/bash
for f; do :; done
case $(head -n 1 "$f") in
ok) echo "translated ${*:1:$#-1} $(tail -n 1 "$f")" ;;
ok-bare) printf '%s' "translated ${*:1:$#-1} $(tail -n 1 "$f")" ;;
partial) echo "trans"; exit 101 ;;
killed) echo "trans"; kill -9 $$ ;;
*) exit 1 ;;
esac
"#;
const CARGO: &str = r#"#!/bin/bash
[ "$1" = run ] || exit 0
while [ $# -gt 0 ] && [ "$1" != -- ]; do shift; done
shift
exec target/debug/jsonschema-transpiler "$@"
"#;
/// Stands for the script that converts one document.
const HELPER: &str = r#"import os, sys
name = sys.argv[1]
what = open(f"data/{name}.ndjson").read()
os.makedirs("avro-data", exist_ok=True)
if what in ("ok", "partial"):
    with open(f"avro-data/{name}.avro", "w") as f:
        f.write("data of " + name)
sys.exit(0 if what == "ok" else 1)
"#;

fn summary(stdout: &str, n: usize, total: usize) -> bool {
    stdout.lines().any(|l| l.starts_with(&format!("{}/{} ", n, total)))
}

fn c28(s: &Value, l: &mut Local) {
    let scratch = Scratch::new();
    let args: Vec<String> = s["arguments"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    let files: Vec<(&str, &str)> = s["files"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap(), x[1].as_str().unwrap())).collect();
    let schemas = s["script"] == "schemas";
    for (name, outcome) in &files {
        scratch.write(&format!("work/{}", name), &if schemas { format!("{}\n{}", outcome, name) } else { outcome.to_string() });
    }
    let (script, out) = if schemas {
        scratch.write("work/target/debug/jsonschema-transpiler", TOOL);
        scratch.write("work/target/release/jsonschema-transpiler", TOOL);
        scratch.write("bin/cargo", CARGO);
        ("mps-generate-schemas.sh", args.first().cloned().unwrap_or("avro".into()))
    } else {
        scratch.write("work/scripts/mps-generate-avro-data-helper.py", HELPER);
        ("mps-generate-avro-data.sh", "avro-data".into())
    };
    scratch.script(script);
    if s["stale"] == true {
        scratch.write(&format!("work/{}/{}", out, if schemas { "old.old.1.schema.json" } else { "old.old.1.avro" }), "old");
    }
    let mut expected = scratch.files();
    let work: Vec<(&str, &str)> = files.iter().filter(|f| !schemas || f.0.ends_with(".schema.json")).copied().collect();
    let mut done = 0;
    if schemas {
        // the directory is made anew
        expected.retain(|k, _| !k.starts_with(&format!("work/{}/", out)));
    }
    for (name, outcome) in &work {
        if !outcome.starts_with("ok") {
            continue;
        }
        done += 1;
        let parts: Vec<&str> = name.split('/').collect();
        if schemas {
            let flags = args.get(1..).unwrap_or(&[]).join(" ");
            let text = format!("translated {} {}{}", flags, name, if *outcome == "ok" { "\n" } else { "" });
            expected.insert(format!("work/{}/{}.{}", out, parts[parts.len() - 3], parts[parts.len() - 1]), text);
        } else {
            let document = parts[1].strip_suffix(".ndjson").unwrap();
            expected.insert(format!("work/avro-data/{}.avro", document), format!("data of {}", document));
        }
    }
    let (_, stdout, _) = scratch.run(script, &args, s["from"].as_str().unwrap_or("."), &[]);
    let actual = scratch.files();
    l.ran(1);
    l.compared += 1;
    l.outcome(&(&stdout, actual.len()));
    let bad = |what: &str, detail: Value, l: &mut Local| l.violation(what, json!({"state": s, "stdout": short(stdout.clone()), "detail": detail}));
    for (k, v) in &expected {
        match actual.get(k) {
            None => return bad("a file is missing", json!(k), l),
            Some(w) if w != v => return bad("a file has another text", json!({"file": k, "actual": w, "expected": v}), l),
            _ => (),
        }
    }
    if let Some(k) = actual.keys().find(|k| !expected.contains_key(*k)) {
        return bad("a file should not be there", json!(k), l);
    }
    if !summary(&stdout, done, work.len()) {
        return bad("the summary does not say how many succeeded", json!(format!("{}/{}", done, work.len())), l);
    }
    for (name, outcome) in &work {
        let n = name.rsplit('/').next().unwrap();
        let n = if schemas { n } else { n.strip_suffix(".ndjson").unwrap() };
        let mentioned = stdout.lines().any(|l| l.split(|c: char| c.is_whitespace() || c == '/').any(|w| w == n));
        if !outcome.starts_with("ok") && !mentioned {
            return bad("a failure is not reported", json!(name), l);
        }
    }
}

/// Compares the files; None if they are as expected.
fn difference(expected: &BTreeMap<String, String>, actual: &BTreeMap<String, String>) -> Option<(&'static str, Value)> {
    for (k, v) in expected {
        match actual.get(k) {
            None => return Some(("a file is missing", json!(k))),
            Some(w) if w != v => return Some(("a file has another text", json!({"file": k, "actual": w, "expected": v}))),
            _ => (),
        }
    }
    actual.keys().find(|k| !expected.contains_key(*k)).map(|k| ("a file should not be there", json!(k)))
}

// ---- loading into BigQuery

/// Stand for the programs of the cloud: buckets are directories in ~/gs, tables are files in ~/tables.
const GCLOUD: &str = "#!/bin/bash\necho a-project\n";
const GSUTIL: &str = r#"#!/bin/bash
while [[ $1 == -* ]]; do shift; done
[ "$1" = cp ] || exit 1
shift
to=$HOME/gs/${!##gs://}
mkdir -p "$to"
for f in "${@:1:$#-1}"; do cp "$f" "$to/"; done
"#;
const BQ: &str = r#"#!/bin/bash
command=$1; shift
while [[ $1 == -* ]]; do shift; done
case $command in
rm) rm -rf "$HOME/tables/$1" ;;
mk) mkdir "$HOME/tables/$1" ;;
ls) [ -z "$(ls "$HOME/tables/$1")" ] || { printf '       tableId          Type    Labels\n --------------------- ------- --------\n'; for t in $(ls "$HOME/tables/$1"); do printf '  %s   TABLE\n' "$t"; done; } ;;
load) f=$HOME/gs/${2#gs://}; [ -e "$f" ] && [ "$(cut -d' ' -f1 "$f")" = ok ] && cp "$f" "$HOME/tables/${1/.//}" ;;
*) exit 1 ;;
esac
"#;

fn c28_load(s: &Value, l: &mut Local) {
    let scratch = Scratch::new();
    for (n, text) in [("gcloud", GCLOUD), ("gsutil", GSUTIL), ("bq", BQ)] {
        scratch.write(&format!("bin/{}", n), text);
    }
    scratch.script("mps-load-avro-bq.sh");
    scratch.write("tables/other/t", "other");
    let files: Vec<(&str, &str)> = s["files"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap(), x[1].as_str().unwrap())).collect();
    for (name, outcome) in &files {
        scratch.write(&format!("work/avro-data/{}.avro", name), &format!("{} {}", outcome, name));
    }
    let mut expected = scratch.files();
    if s["stale"] == true {
        scratch.write("tables/test_avro/telemetry__main_v4", "old");
    }
    let mut done = 0;
    for (name, outcome) in &files {
        expected.insert(format!("gs/a-project/data/{}.avro", name), format!("{} {}", outcome, name));
        if *outcome == "ok" {
            done += 1;
            let p: Vec<String> = name.split('.').map(|x| x.replace('-', "_")).collect();
            expected.insert(format!("tables/test_avro/{}__{}_v{}", p[0], p[1], p[2]), format!("ok {}", name));
        }
    }
    let skip: &[(&str, &str)] = if s["skip existing"] == true { &[("SKIP_EXISTING", "true")] } else { &[] };
    let (_, stdout, _) = scratch.run("mps-load-avro-bq.sh", &[], ".", skip);
    let actual = scratch.files();
    l.ran(1);
    l.compared += 1;
    l.outcome(&(&stdout, actual.len()));
    let bad = |what: &str, detail: Value, l: &mut Local| l.violation(what, json!({"state": s, "stdout": short(stdout.clone()), "detail": detail}));
    if let Some((what, d)) = difference(&expected, &actual) {
        return bad(what, d, l);
    }
    if !summary(&stdout, done, files.len()) {
        return bad("the summary does not say how many succeeded", json!(format!("{}/{}", done, files.len())), l);
    }
}

// ---- validation

const JSON_TOOL: &str = r#"#!/bin/bash
file=; type=
while [ $# -gt 0 ]; do
    case $1 in
    --type|-t) type=$2; shift ;;
    --type=*) type=${1#--type=} ;;
    -*) exit 1 ;;
    *) [ -z "$file" ] || exit 1; file=$1 ;;
    esac
    shift
done
[ "$type" = avro ] || exit 1
case $(cat "$file") in
ok) echo '{"type": "long", "of": "'"$file"'"}' ;;
invalid) echo '{"type": "invalid", "of": "'"$file"'"}' ;;
partial) echo '{"type"'; exit 101 ;;
*) exit 1 ;;
esac
"#;
const AVRO: &str = r#"import json
class SchemaParseException(Exception): pass
AvroException = SchemaParseException
def parse(text, *args, **kwargs):
    with open("parsed", "a") as f:
        f.write(json.loads(text)["of"].split("/")[-1] + "\n")
    if json.loads(text)["type"] == "invalid":
        raise SchemaParseException("not valid")
    return object()
Parse = parse
"#;

fn c28_validate(s: &Value, l: &mut Local) {
    let scratch = Scratch::new();
    scratch.script("mps-validate-avro-schemas.py");
    scratch.write("work/target/debug/jsonschema-transpiler", JSON_TOOL);
    scratch.write("work/target/release/jsonschema-transpiler", JSON_TOOL);
    scratch.write("bin/cargo", CARGO);
    scratch.write("python/avro/__init__.py", "");
    scratch.write("python/avro/schema.py", AVRO);
    let files: Vec<(&str, &str)> = s["files"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap(), x[1].as_str().unwrap())).collect();
    for (name, outcome) in &files {
        scratch.write(&format!("work/{}", name), outcome);
    }
    let mut expected = scratch.files();
    let work: Vec<(&str, &str)> = files.iter().filter(|f| f.0.ends_with(".schema.json")).copied().collect();
    let (_, stdout, stderr) = scratch.run("mps-validate-avro-schemas.py", &[], "work", &[]);
    let mut actual = scratch.files();
    let printed = format!("{}\n{}", stdout, stderr);
    l.ran(1);
    l.compared += 1;
    l.outcome(&(&printed, actual.len()));
    let bad = |what: &str, detail: Value, l: &mut Local| l.violation(what, json!({"state": s, "printed": short(printed.clone()), "detail": detail}));
    let parsed = actual.remove("work/parsed").unwrap_or_default();
    expected.remove("work/parsed");
    let mut parsed: Vec<&str> = parsed.lines().collect();
    parsed.sort();
    let mut wanted: Vec<&str> = work.iter().filter(|f| ["ok", "invalid"].contains(&f.1)).map(|f| f.0.rsplit('/').next().unwrap()).collect();
    wanted.sort();
    if parsed != wanted {
        return bad("the translations that are parsed are not those that there are", json!({"parsed": parsed, "expected": wanted}), l);
    }
    if let Some((what, d)) = difference(&expected, &actual) {
        return bad(what, d, l);
    }
    let invalid = work.iter().filter(|f| f.1 == "invalid").count();
    let sum = format!("{}/{} parsing errors, {} skipped", invalid, wanted.len(), work.len() - wanted.len());
    if !printed.lines().any(|l| l.split(':').last().map_or(false, |x| x.trim() == sum)) {
        return bad("the summary is wrong", json!(sum), l);
    }
    for (name, outcome) in &work {
        let p: Vec<&str> = name.split('/').collect();
        let n = format!("{}.{}", p[p.len() - 3], p[p.len() - 1].strip_suffix(".schema.json").unwrap());
        let mentioned = printed.lines().any(|l| l.split_whitespace().any(|w| w == n));
        if *outcome != "ok" && !mentioned {
            return bad("a failure is not reported", json!(n), l);
        }
    }
}

// ---- comparison of two versions

const GENERATE: &str = r#"#!/bin/bash
out=$1; shift
mkdir -p "$out"
grep -F "$(cat version) $* : " outputs | sed 's/^.* : //' > "$out/a.b.1.schema.json"
"#;
const GIT: &str = r#"#!/bin/bash
[ "$1" = checkout ] || exit 1
while [[ $2 == -?* ]]; do shift; done
case $2 in
-) mv previous swap && mv version previous && mv swap version ;;
v*) mv version previous; echo control > version ;;
*) exit 1 ;;
esac
"#;
const OPTIONS: [&str; 4] = ["--type avro --resolve drop", "--type avro --resolve drop --tuple-struct", "--type bigquery --resolve drop", "--type bigquery --resolve drop --tuple-struct"];

fn c28_verify(s: &Value, l: &mut Local) {
    let scratch = Scratch::new();
    let script = s["script"].as_str().unwrap();
    scratch.script(script);
    scratch.write("bin/git", GIT);
    scratch.write("work/scripts/mps-generate-schemas.sh", GENERATE);
    scratch.write("work/scripts/mps-download-schemas.sh", "#!/bin/bash\nmkdir -p schemas\n");
    scratch.write("work/version", "current\n");
    let text = |v: &str, i: usize| s["outputs"][v][i].as_str().unwrap().to_string();
    scratch.write("work/outputs", &["control", "current"].iter().flat_map(|v| (0..4).map(move |i| format!("{} {} : {}\n", v, OPTIONS[i], text(v, i)))).collect::<String>());
    let mut expected = scratch.files();
    expected.insert("work/previous".into(), "control\n".into());
    let nested = script.contains("nested");
    let pairs: Vec<(&str, (&str, usize), (&str, usize))> = if nested {
        vec![("avro-no-tuple", ("control", 0), ("current", 0)), ("avro-tuple", ("control", 1), ("current", 1)), ("bq-no-tuple", ("control", 2), ("current", 2)), ("bq-tuple", ("control", 3), ("current", 3))]
    } else {
        vec![("avro-no-tuple", ("control", 0), ("current", 0)), ("bq-no-tuple", ("control", 2), ("current", 2)), ("avro-tuple", ("current", 0), ("current", 1)), ("bq-tuple", ("current", 2), ("current", 3))]
    };
    let (_, stdout, stderr) = scratch.run(script, &[], s["from"].as_str().unwrap(), &[]);
    let mut actual = scratch.files();
    l.ran(1);
    l.compared += 1;
    l.outcome(&actual);
    let bad = |what: &str, detail: Value, l: &mut Local| l.violation(what, json!({"state": s, "stdout": short(stdout.clone()), "stderr": short(stderr.clone()), "detail": detail}));
    let dir = if nested { "test_nested_list_results" } else { "test_tuple_results" };
    for (name, a, b) in pairs {
        let Some(d) = actual.remove(&format!("work/{}/{}.diff", dir, name)) else { return bad("a comparison is missing", json!(name), l) };
        let (x, y) = (text(a.0, a.1), text(b.0, b.1));
        let lines: Vec<&str> = d.lines().filter(|l| l.starts_with('<') || l.starts_with('>')).collect();
        if if x == y { !d.is_empty() } else { lines != [format!("< {}", x), format!("> {}", y)] } {
            return bad("a comparison is wrong", json!({"file": name, "left": x, "right": y, "diff": d}), l);
        }
    }
    if let Some((what, d)) = difference(&expected, &actual) {
        return bad(what, d, l);
    }
}

/// Every subset of at most k files, with every outcome of each.
fn histories(files: &[&str], outcomes: &[&str], k: usize, emit: &mut dyn FnMut(Vec<Value>)) {
    fn go(files: &[&str], outcomes: &[&str], k: usize, cur: &mut Vec<Value>, emit: &mut dyn FnMut(Vec<Value>)) {
        emit(cur.clone());
        if k == 0 {
            return;
        }
        for (i, f) in files.iter().enumerate() {
            for o in outcomes {
                cur.push(json!([f, o]));
                go(&files[i + 1..], outcomes, k - 1, cur, emit);
                cur.pop();
            }
        }
    }
    go(files, outcomes, k, &mut Vec::new(), emit);
}

const SCHEMAS: &[&str] = &[
    "schemas/telemetry/main/main.4.schema.json",
    "schemas/telemetry/main/main.5.schema.json",
    "schemas/telemetry/event/event.4.schema.json",
    "schemas/org-mozilla/main/main.4.schema.json",
    "schemas/a.b/c-d/c-d.1.schema.json",
    "schemas/telemetry/main/README.md",
    "schemas/telemetry/main/main.schema.json.bak",
];
const DATA: &[&str] = &["data/telemetry.main.4.ndjson", "data/telemetry.event.4.ndjson", "data/telemetry.main.40.ndjson", "data/org-mozilla.x.1.ndjson", "data/xndjson.main.1.ndjson", "data/a.ndjson-b.1.ndjson", "data/telemetry.main.4-b.1.ndjson"];

const LOAD: &[&str] = &["telemetry.main.4", "telemetry.main.40", "telemetry-x.main.4", "x.main.4", "org-mozilla-a.b-c.1", "xavro.main.1", "a.avro-b.1", "a.main.4"];

fn c28_families(t: Tier) -> Vec<Family> {
    vec![
        family("schemas", format!("every set of <= {} of {} files x 5 outcomes of each (<= 2: all, more: 3), without a directory, with one, and with options", t.pick(3, 4), SCHEMAS.len()), move |e| {
            let mut emit = |files: Vec<Value>| {
                if files.is_empty() {
                    return;
                }
                // from other directories
                if files.len() == 1 {
                    for from in ["work", "work/scripts"] {
                        e(json!({"script": "schemas", "files": files, "arguments": ["out"], "stale": true, "from": from}));
                    }
                }
                for args in [json!([]), json!(["out"]), json!(["out", "--type", "bigquery", "--resolve", "drop", "-c"])] {
                    for stale in [false, true] {
                        if (stale || args == json!([])) && files.len() > 2 {
                            continue;
                        }
                        e(json!({"script": "schemas", "files": files, "arguments": args, "stale": stale}));
                    }
                }
            };
            histories(SCHEMAS, &["ok", "ok-bare", "fail", "partial", "killed"], 2, &mut emit);
            histories(SCHEMAS, &["ok", "fail", "partial"], t.pick(3, 4), &mut emit);
        }, c28),
        family("data", format!("every set of <= {} of {} files x 3 outcomes of each", t.pick(3, 5), DATA.len()), move |e| {
            histories(DATA, &["ok", "fail", "partial"], t.pick(3, 5), &mut |files| {
                if !files.is_empty() {
                    for stale in [false, true] {
                        if stale && files.len() > 2 {
                            continue;
                        }
                        e(json!({"script": "data", "files": files, "arguments": [], "stale": stale}));
                    }
                }
                if files.len() == 1 {
                    for from in ["work", "work/scripts"] {
                        e(json!({"script": "data", "files": files, "arguments": [], "from": from}));
                    }
                }
            });
        }, c28),
        family("load", format!("every set of <= {} of {} documents x success and failure of each, with and without an earlier run, skipping existing tables or not", t.pick(3, 5), LOAD.len()), move |e| {
            histories(LOAD, &["ok", "fail"], t.pick(3, 5), &mut |files| {
                if !files.is_empty() {
                    for i in 0..4 {
                        if files.len() > 2 && i != 1 && i != 2 && !t.thorough() {
                            continue;
                        }
                        e(json!({"script": "load", "files": files, "skip existing": i % 2 == 1, "stale": i / 2 == 1}));
                    }
                }
            });
        }, c28_load),
        family("validate", format!("every set of <= {} of {} files x 4 outcomes of each", t.pick(3, 4), SCHEMAS.len()), move |e| {
            histories(SCHEMAS, &["ok", "invalid", "fail", "partial"], t.pick(3, 4), &mut |files| {
                let n = files.len();
                if n > 0 && (n < 3 || t.thorough() || files.iter().all(|f| f[1] != "partial")) {
                    e(json!({"script": "validate", "files": files}));
                }
            });
        }, c28_validate),
        family("verify", "both scripts that compare with an earlier version, for all equalities and differences among the eight translations, from three directories", move |e| {
            for script in ["mps-verify-nested-list.sh", "mps-verify-tuple-struct.sh"] {
                for mask in 0..256u32 {
                    let o = |k: u32| (0..4).map(|i| format!("text {}", mask >> (4 * k + i) & 1)).collect::<Vec<_>>();
                    for from in ["work", ".", "work/scripts"] {
                        if from == "work" || mask == 0xa5 || mask == 0x36 || t.thorough() {
                            e(json!({"script": script, "outputs": {"control": o(0), "current": o(1)}, "from": from}));
                        }
                    }
                }
                // all of them different
                e(json!({"script": script, "outputs": {"control": ["a", "b", "c", "d"], "current": ["e", "f", "g", "h"]}, "from": "work"}));
            }
        }, c28_verify),
    ]
}
