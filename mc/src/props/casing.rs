//! C10 snake_case. A state is a block of strings (a prefix and how many letters follow); every
//! string of a block is evaluated against the word-boundary automaton of the model, on both backends.
use super::names::strings;
use super::*;
use std::sync::OnceLock;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C10", builds: &["std", "onig"], families: c10_families }]
}

const LETTERS: [char; 8] = ['a', 'B', '7', '_', 'c', '-', 'D', '.'];

const WORDS: [&str; 62] = [
    "ID", "Id", "id", "IDs", "ids", "URL", "Url", "url", "URLs", "HTTP", "http", "Https", "XML", "iOS", "IPv4", "ipv6", "WiFi", "OAuth2", "API", "Api", "v1", "V2", "2", "10", "0", "x86", "A",
    "a", "I", "i", "user", "User", "USER", "name", "Name", "GUID", "UUID", "GPU", "CPU0", "RAM", "os", "OS", "macOS", "eTLD", "dAU", "ms", "MB", "99th", "3rd", "1st", "DoH", "TLS13", "sha256", "SHA1",
    "utf8", "UTF", "K", "k", "S", "s", "Z9", "z0",
];

fn ascii() -> Vec<char> {
    (0u8..128).map(char::from).collect()
}

fn one(s: &str, l: &mut Local) {
    let out = match std::panic::catch_unwind(|| jst::casing::to_snake_case(s)) {
        Ok(o) => o,
        Err(_) => {
            l.violation("snake_case aborts", json!({ "input": s }));
            return;
        }
    };
    l.ran(1);
    l.compared += 1;
    let want = model::snake(s);
    let bad = if out != want {
        "snake_case differs from the automaton"
    } else if !out.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') {
        "snake_case has other characters than a-z, 0-9 and _"
    } else if out.starts_with('_') || out.ends_with('_') || out.contains("__") {
        "snake_case has an underscore that separates nothing"
    } else if out.chars().filter(|c| *c != '_').ne(s.chars().filter(|c| c.is_ascii_alphanumeric()).map(|c| c.to_ascii_lowercase())) {
        "snake_case changes more than case and separators"
    } else {
        return;
    };
    l.violation(bad, json!({"input": s, "output": out, "expected": want}));
}

/// idempotent: what it makes is a fixed point
fn twice(s: &str, l: &mut Local) {
    let a = jst::casing::to_snake_case(s);
    let b = jst::casing::to_snake_case(&a);
    l.ran(2);
    l.compared += 1;
    // letters of neighbouring words may only be glued by digits: the second pass must agree anyway
    if a != b {
        l.violation("snake_case is not idempotent", json!({"input": s, "once": a, "twice": b}));
    }
    l.outcome(&a);
}

fn blocks() -> &'static Vec<String> {
    static B: OnceLock<Vec<String>> = OnceLock::new();
    B.get_or_init(|| strings(&LETTERS, 4))
}

fn c10_block(s: &Value, l: &mut Local) {
    let p = s["prefix"].as_str().unwrap();
    let n = s["more"].as_u64().unwrap() as usize;
    for x in blocks().iter().filter(|x| x.len() == n) {
        let t = format!("{}{}", p, x);
        one(&t, l);
        if x.len() < 4 {
            twice(&t, l);
        }
        l.inner_states += 1;
    }
    l.outcome(&jst::casing::to_snake_case(p));
}

fn c10_ascii(s: &Value, l: &mut Local) {
    let (a, b) = (s["before"].as_str().unwrap(), s["after"].as_str().unwrap());
    for c in ascii() {
        let t = format!("{}{}{}", a, c, b);
        one(&t, l);
        twice(&t, l);
        l.inner_states += 1;
    }
}

fn c10_one(s: &Value, l: &mut Local) {
    let t = s.as_str().unwrap();
    one(t, l);
    twice(t, l);
}

/// The same rule names the columns.
fn c10_column(s: &Value, l: &mut Local) {
    let n = s.as_str().unwrap();
    let schema = json!({"type": "object", "properties": {n: {"type": "integer"}, "s": {"type": "object", "properties": {n: {"type": "string"}}}}});
    for f in FMTS {
        conform(&schema, f, &Opts::cast().case(true), &[K::Abort, K::NoAbort, K::Missing, K::Extra, K::Naming, K::Type], l);
    }
}

fn c10_families(t: Tier) -> Vec<Family> {
    let onig = std::env::var("MC_LABEL").map_or(false, |x| x == "onig");
    let len = if onig { t.pick(7, 8) } else { t.pick(8, 9) };
    vec![
        family("strings", format!("every string over {:?} up to length {}", LETTERS, len), move |e| {
            for p in strings(&LETTERS, len - 4) {
                if p.chars().count() == len - 4 {
                    e(json!({"prefix": p, "more": 4}));
                }
            }
            for n in 0..4 {
                e(json!({"prefix": "", "more": n}));
            }
            for p in strings(&LETTERS, len - 5) {
                e(json!({"prefix": p, "more": 4}));
            }
        }, c10_block),
        family("ascii", "every ASCII character between every two strings of up to 2 (thorough: 3) of 6 letters; every string of 3 ASCII characters", move |e| {
            let s = strings(&['a', 'B', '7', '_', 'c', 'D'], t.pick(2, 3));
            for a in &s {
                for b in &s {
                    e(json!({"before": a, "after": b}));
                }
            }
            for a in ascii() {
                for b in ascii() {
                    e(json!({"before": format!("{}{}", a, b), "after": ""}));
                }
            }
        }, c10_ascii),
        family("periodic", "u^n v for every u, v of up to 3 and 1 letters, n up to 12 (thorough: 40)", move |e| {
            for u in strings(&LETTERS, 3) {
                for v in strings(&LETTERS, 1) {
                    for n in 2..t.pick(12, 40) {
                        e(json!(format!("{}{}", u.repeat(n), v)));
                    }
                }
            }
            for u in strings(&LETTERS, 2) {
                for n in t.pick(vec![31, 64, 128, 257], vec![63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000]) {
                    e(json!(u.repeat(n)));
                }
            }
        }, c10_one),
        family("words", format!("every two and three of {} words, joined in four ways", WORDS.len()), move |e| {
            for a in WORDS {
                e(json!(a));
                for b in WORDS {
                    for sep in ["", "_", "-", "."] {
                        e(json!(format!("{}{}{}", a, sep, b)));
                    }
                    for c in &WORDS[..t.pick(30, WORDS.len())] {
                        e(json!(format!("{}{}{}", a, b, c)));
                    }
                }
            }
        }, c10_one),
        family("columns", "the column of every name of up to 4 (thorough: 5) letters", move |e| {
            for s in strings(&LETTERS, t.pick(4, 5)) {
                e(json!(s));
            }
        }, c10_column),
    ]
}
