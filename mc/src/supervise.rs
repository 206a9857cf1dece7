//! The supervisor. The exploration runs in a child process per build of the code under test, so
//! that a stack overflow, an abort or an endless loop in that code becomes a verdict about the
//! state that was being executed, not the end of the check.
use crate::explore::{self, explore, hash2, Local, Report, Shared, Tier, SLOT, SLOTS};
use crate::props;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn prop(id: &str) -> Option<props::Prop> {
    props::all().into_iter().find(|p| p.id == id)
}

fn report_json(r: &Report) -> Value {
    json!({"states": r.states, "transitions": r.transitions, "runs": r.runs, "compared": r.compared, "outcomes": r.outcomes.len(),
        "counters": r.counters, "families": r.families, "samples": r.samples, "violations": r.violations,
        "known": r.known.iter().map(|(k, (n, d))| (k.clone(), json!([n, d]))).collect::<BTreeMap<_, _>>(), "complete": r.complete})
}

pub fn dev(id: &str, tier: Tier, only: Option<&str>) -> i32 {
    let p = prop(id).unwrap();
    let fams: Vec<_> = (p.families)(tier).into_iter().filter(|f| only.map_or(true, |o| o == f.name)).collect();
    let r = explore(&fams, 780.0, None);
    for f in &r.families {
        println!("{}", f);
    }
    for v in r.violations.iter().take(2) {
        println!("{:#}", v);
    }
    println!("violations {} known {:?} counters {:?}", r.violations.len(), r.known.keys(), r.counters);
    println!("{}", json!({"states": r.states, "runs": r.runs, "compared": r.compared, "outcomes": r.outcomes.len(), "complete": r.complete}));
    props::cli::cleanup(id);
    !r.violations.is_empty() as i32
}

pub fn inner(id: &str, tier: Tier, label: &str, shm: &str, out: &str, cap: f64) -> i32 {
    // the check must not outlive its supervisor
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    std::env::set_var("MC_LABEL", label);
    let p = prop(id).unwrap();
    let r = explore(&(p.families)(tier), cap, Shared::open(shm));
    std::fs::write(out, report_json(&r).to_string()).unwrap();
    props::cli::cleanup(id);
    0
}

/// Run one state of a family again; a violation is reported on stdout with exit code 1.
fn run_case(id: &str, fam: &str, case: &Value, tier: Tier) -> i32 {
    let p = prop(id).unwrap();
    let fams = (p.families)(tier);
    let fams2 = (p.families)(Tier::Thorough);
    let f = match fams.iter().chain(fams2.iter()).find(|f| f.name == fam) {
        Some(f) => f,
        None => return 2,
    };
    let mut l = Local::default();
    explore::guarded(f.check, case, &mut l);
    for v in &l.violations {
        println!("{:#}", v);
    }
    for k in l.known.keys() {
        println!("known finding: {}", k);
    }
    !l.violations.is_empty() as i32
}

fn in_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
    std::thread::Builder::new().stack_size(explore::STACK).spawn(f).unwrap().join().unwrap_or(2)
}

pub fn one(id: &str, tier: Tier, fam: &str, hash: &str) -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let case = match find(id, tier, fam, hash) {
        Some(c) => c,
        None => return 2,
    };
    println!("FOUND");
    let (id, fam) = (id.to_string(), fam.to_string());
    in_big_stack(move || run_case(&id, &fam, &case, tier))
}

fn find(id: &str, tier: Tier, fam: &str, hash: &str) -> Option<Value> {
    let p = prop(id)?;
    let mut found = None;
    for f in (p.families)(tier) {
        if f.name == fam {
            (f.gen)(&mut |v| {
                if found.is_none() && format!("{:032x}", hash2(&v.to_string())) == hash {
                    found = Some(v);
                }
            });
        }
    }
    found
}

pub fn case(id: &str, fam: &str) -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut de = serde_json::Deserializer::from_str(&s);
    de.disable_recursion_limit();
    let v: Value = serde::Deserialize::deserialize(&mut de).unwrap();
    let (id, fam) = (id.to_string(), fam.to_string());
    in_big_stack(move || run_case(&id, &fam, &v, Tier::Thorough))
}

pub fn replay(file: &str) -> i32 {
    let s = std::fs::read_to_string(file).unwrap();
    let mut de = serde_json::Deserializer::from_str(&s);
    de.disable_recursion_limit();
    let v: Value = serde::Deserialize::deserialize(&mut de).unwrap();
    let id = v["property"].as_str().unwrap().to_string();
    let fam = v["family"].as_str().unwrap_or("").to_string();
    let label = v["build"].as_str().unwrap_or("std").to_string();
    if label != std::env::var("MC_LABEL").unwrap_or_else(|_| "std".into()) {
        if let Some((_, bin)) = bins(&prop(&id).unwrap()).into_iter().find(|b| b.0 == label) {
            let st = Command::new(bin).args(["replay", file]).env("MC_LABEL", &label).status().unwrap();
            return st.code().unwrap_or(134);
        }
    }
    let case = v["case"].clone();
    in_big_stack(move || run_case(&id, &fam, &case, Tier::Thorough))
}

/// The builds of the code under test that a property is checked on: label and executable.
fn bins(p: &props::Prop) -> Vec<(String, PathBuf)> {
    let me = std::env::current_exe().unwrap();
    let mut v = Vec::new();
    for b in p.builds {
        match *b {
            "std" => v.push(("std".to_string(), me.clone())),
            other => {
                if let Ok(path) = std::env::var(format!("MC_BIN_{}", other)) {
                    if !path.is_empty() {
                        v.push((other.to_string(), PathBuf::from(path)));
                    }
                }
            }
        }
    }
    if v.is_empty() {
        v.push(("std".to_string(), me));
    }
    v
}

enum End {
    Done(Value),
    /// in-flight states: (family, hash of the state)
    Dead(String, Vec<(String, String)>),
}

fn wait_timeout(c: &mut Child, d: Duration) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > d {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// longest time a single state may take before it counts as "does not end"
const STALL: u64 = 90;

fn run_inner(id: &str, tier: Tier, label: &str, bin: &Path, dir: &Path, cap: f64) -> End {
    let shm = dir.join("shm");
    let out = dir.join("out.json");
    let _ = std::fs::remove_file(&out);
    std::fs::File::create(&shm).unwrap().set_len((SLOT * SLOTS) as u64).unwrap();
    let tiername = if tier.thorough() { "thorough" } else { "quick" };
    let mut c = Command::new(bin)
        .args(["inner", id, tiername, label])
        .arg(&shm)
        .arg(&out)
        .arg(cap.to_string())
        .stdout(Stdio::null())
        .spawn()
        .unwrap();
    let sh = Shared::open(shm.to_str().unwrap()).unwrap();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); SLOTS];
    loop {
        if let Some(st) = c.try_wait().unwrap() {
            if st.success() {
                if let Ok(s) = std::fs::read_to_string(&out) {
                    let mut de = serde_json::Deserializer::from_str(&s);
                    de.disable_recursion_limit();
                    let v: Value = serde::Deserialize::deserialize(&mut de).unwrap();
                    return End::Done(v);
                }
            }
            let how = match st.signal() {
                Some(s) => format!("the process was ended by signal {}", s),
                None => format!("the process exited with {:?}", st.code()),
            };
            let fl = (0..SLOTS).filter_map(|i| sh.get(i)).map(|(_, f, h)| (f, h)).collect();
            return End::Dead(how, fl);
        }
        for i in 0..SLOTS {
            match sh.get(i) {
                Some((seq, f, h)) => {
                    if last[i].0 != seq {
                        last[i] = (seq, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(STALL) {
                        let _ = c.kill();
                        let _ = c.wait();
                        return End::Dead(format!("a state was still executing after {} s", STALL), vec![(f, h)]);
                    }
                }
                None => last[i] = (0, Instant::now()),
            }
        }
        std::thread::sleep(Duration::from_millis(50));
    }
}

fn merge(into: &mut Value, label: &str, r: Value) {
    if into.is_null() {
        *into = json!({"states": 0, "transitions": 0, "runs": 0, "compared": 0, "outcomes": 0, "counters": {}, "families": [], "samples": [], "violations": [], "known": {}, "complete": true});
    }
    for k in ["states", "transitions", "runs", "compared", "outcomes"] {
        into[k] = json!(into[k].as_u64().unwrap() + r[k].as_u64().unwrap());
    }
    for (k, v) in r["counters"].as_object().unwrap() {
        into["counters"][k] = json!(into["counters"][k].as_u64().unwrap_or(0) + v.as_u64().unwrap());
    }
    for k in ["families", "samples", "violations"] {
        for x in r[k].as_array().unwrap() {
            let mut x = x.clone();
            x["build"] = json!(label);
            into[k].as_array_mut().unwrap().push(x);
        }
    }
    for (k, v) in r["known"].as_object().unwrap() {
        into["known"][k] = v.clone();
    }
    into["complete"] = json!(into["complete"] == true && r["complete"] == true);
}

fn known_keys(id: &str) -> Vec<(String, String)> {
    let s = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut w = l.splitn(3, ' ');
            let p = w.next()?.strip_prefix("property=")?;
            let k = w.next()?.strip_prefix("key=")?;
            (p == id).then(|| (k.to_string(), w.next().unwrap_or("").to_string()))
        })
        .collect()
}

pub fn check(id: &str, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let p = match prop(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let tiername = if tier.thorough() { "thorough" } else { "quick" };
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let bins = bins(&p);
    let cap: f64 = std::env::var("MC_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(400.0, 3000.0)) / bins.len() as f64;
    let mut total = Value::Null;
    let mut code = 0;
    for (label, bin) in &bins {
        match run_inner(id, tier, label, bin, &dir, cap) {
            End::Done(r) => merge(&mut total, label, r),
            End::Dead(how, inflight) => {
                // which of the states in flight does it?
                let mut found = false;
                for (fam, hash) in &inflight {
                    let mut c = Command::new(bin)
                        .args(["one", id, tiername, fam, hash])
                        .env("MC_LABEL", label)
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let r = wait_timeout(&mut c, Duration::from_secs(STALL));
                    let what = match r {
                        None => Some(format!("the conversion does not end ({} s)", STALL)),
                        Some(s) if s.signal().is_some() => Some(format!("the conversion ends the process with signal {}", s.signal().unwrap())),
                        Some(s) if s.code() == Some(1) => Some("violation".to_string()),
                        _ => None,
                    };
                    if let Some(w) = what {
                        found = true;
                        merge(&mut total, label, json!({"states": 1, "transitions": 1, "runs": 1, "compared": 1, "outcomes": 1, "counters": {}, "families": [],
                            "samples": [], "known": {}, "complete": false,
                            "violations": [{"what": w, "detail": how, "family": fam, "case": find(id, tier, fam, hash)}]}));
                        break;
                    }
                }
                if !found {
                    // not a verdict about the code: nothing reproduces it
                    eprintln!("check {} died ({}) and no state in flight reproduces it: {:?}", id, how, inflight);
                    code = 2;
                }
            }
        }
        if total["violations"].as_array().map_or(false, |v| !v.is_empty()) {
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    if total.is_null() {
        return 2;
    }
    let listed = known_keys(id);
    let mut violations: Vec<Value> = total["violations"].as_array().unwrap().clone();
    let mut findings = Vec::new();
    for (k, v) in total["known"].as_object().unwrap() {
        match listed.iter().find(|(l, _)| l == k) {
            Some((_, text)) => {
                println!("KNOWN-FINDING: property={} {}: {}", id, k, text);
                findings.push(json!({"key": k, "states": v[0], "example": v[1]}));
            }
            None => violations.push(json!({"what": k, "detail": v[1], "case": v[1]["schema"], "family": "known"})),
        }
    }
    let states = total["states"].as_u64().unwrap();
    let mut assumptions = vec![
        "the bounds and alphabets of the families listed in coverage.families; nothing is claimed outside them".to_string(),
        "the oracle named in DESIGN.md for this property, in /verif/mc/src".to_string(),
    ];
    if bins.len() != p.builds.len() {
        assumptions.push(format!("builds missing: wanted {:?}", p.builds));
    }
    let ev = json!({
        "property": id, "tier": tiername,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": total["transitions"],
            "traces_validated_against_impl": total["compared"],
            "executions_of_the_code": total["runs"],
            "distinct_outcomes": total["outcomes"],
            "families": total["families"],
            "samples": total["samples"],
            "counters": total["counters"],
            "known_findings": findings,
            "builds": bins.iter().map(|b| b.0.clone()).collect::<Vec<_>>(),
            "exhaustive": total["complete"],
            "explanation": "every state of every family listed was generated, deduplicated by its text and evaluated; transitions counts the steps of the generators before deduplication; traces_validated_against_impl counts results of the real code that were compared with the oracle",
        },
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    std::fs::write(evdir.join(format!("{}.json", id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if !violations.is_empty() {
        let rdir = root().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        // the smallest counterexample
        violations.sort_by_key(|v| v["case"].to_string().len());
        let v = &violations[0];
        let file = rdir.join(format!("{}.json", id));
        let text = json!({"property": id, "tier": tiername, "build": v["build"].as_str().unwrap_or("std"), "family": v["family"], "what": v["what"],
            "case": v["case"], "detail": v["detail"], "replay_with": format!("MC_ROOT={} {} replay {}", root().display(), "mc", file.display())});
        std::fs::write(&file, serde_json::to_string_pretty(&text).unwrap()).unwrap();
        let s = serde_json::to_string_pretty(&text).unwrap();
        println!("{}", if s.len() > 6000 { format!("{}...", s.chars().take(6000).collect::<String>()) } else { s });
        println!("VIOLATION property={} replay={}", id, file.display());
        return 1;
    }
    if code == 0 {
        println!("{} held on {} states ({} executions, {} distinct outcomes, exhaustive within the bounds: {})", id, states, total["runs"], total["outcomes"], total["complete"]);
    }
    code
}
