//! C23 what is resolved is reported. The messages of one conversion are captured per thread.
use super::*;
use std::cell::RefCell;
use std::sync::Once;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C23", builds: &["std"], families: c23_families }]
}

thread_local! {
    static MESSAGES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

struct Capture;
impl log::Log for Capture {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // every message is formatted, those for the user are kept
        let m = r.args().to_string();
        if r.level() <= log::Level::Warn {
            MESSAGES.with(|v| v.borrow_mut().push(m));
        }
    }
    fn flush(&self) {}
}

fn captured(f: Fmt, s: &Value, o: &Opts) -> (Out, Vec<String>) {
    MESSAGES.with(|v| v.borrow_mut().clear());
    let a = imp::conv(f, s, o);
    (a, MESSAGES.with(|v| std::mem::take(&mut *v.borrow_mut())))
}

/// The message names the path: as a whole, or below a root of any name.
fn names(message: &str, path: &str) -> bool {
    if path.is_empty() {
        return true;
    }
    message.match_indices(path).any(|(i, _)| {
        let before = message[..i].chars().last();
        let mut after = message[i + path.len()..].chars();
        let next = after.next();
        let inside = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
        !inside(before) && !inside(next) && !(next == Some('.') && inside(after.next()))
    })
}

/// What has no faithful type is named by a warning, or by the message of the abort.
fn c23<const ALL: bool>(s: &Value, l: &mut Local) {
    let mut few = vec![Opts::cast().tuple(true), Opts::cast().case(true).force(true), Opts::new(Res::Panic).tuple(true), Opts::new(Res::Panic)];
    if ALL {
        few = every::<true>(&[], &[Res::Cast, Res::Panic]);
    }
    for o in few {
        for f in FMTS {
            let (a, messages) = captured(f, s, &o);
            let e = model::expect(f, s, &o);
            l.ran(1);
            l.compared += 1;
            l.outcome(&(&a.show(), &messages.len()));
            let detail = |x: Value| json!({"options": o.json(), "format": format!("{:?}", f), "messages": messages.iter().take(20).collect::<Vec<_>>(), "expected": x, "output": short(a.show())});
            if let Some(d) = diff::diff_out(f, &a, &e).first() {
                l.violation(&format!("with logging on, the output is another one at {}", d.path), detail(json!(d.expected)));
                return;
            }
            // the model names the parts
            let Ok(paths) = model::ambiguities(f, s, &o) else {
                l.count("rejected tuples");
                continue;
            };
            match &a {
                Out::Ok(_) if o.res == Res::Cast => {
                    if let Some(p) = paths.iter().find(|p| !messages.iter().any(|m| names(m, p))) {
                        l.violation("a part is made a string without a warning that names it", detail(json!(p)));
                        return;
                    }
                }
                Out::Panic(m) if o.res == Res::Panic => {
                    if !paths.iter().any(|p| names(m, p)) {
                        l.violation("the message of the abort names no part without a faithful type", json!({"options": o.json(), "format": format!("{:?}", f), "message": m, "parts": paths}));
                        return;
                    }
                    continue;
                }
                _ => (),
            }
            if paths.is_empty() && !messages.is_empty() && plain_names(s, &o) {
                l.violation("a warning although nothing is resolved", detail(Value::Null));
                return;
            }
        }
    }
}

fn plain_names(s: &Value, o: &Opts) -> bool {
    let mut plain = true;
    text::map_nodes(s, &mut |m, _| {
        if let Some(Value::Object(p)) = m.get("properties") {
            plain &= p.keys().all(|k| model::column(k, o.case).as_ref() == Some(k));
        }
    });
    plain
}

/// Properties that are renamed or omitted are named. (Schemas without alternatives.)
fn c23_names(s: &Value, l: &mut Local) {
    for o in [Opts::cast(), Opts::new(Res::Drop).case(true), Opts::cast().case(true).tuple(true).force(true)] {
        for f in FMTS {
            let (a, messages) = captured(f, s, &o);
            l.ran(1);
            l.compared += 1;
            l.outcome(&messages);
            if !a.is_ok() {
                l.count("no output");
                continue;
            }
            let mut wrong: Option<String> = None;
            text::map_nodes(s, &mut |m, _| {
                if let Some(Value::Object(p)) = m.get("properties") {
                    for k in p.keys() {
                        let c = model::column(k, o.case);
                        if c.as_ref() != Some(k) && !messages.iter().any(|m| m.contains(k.as_str()) && c.as_ref().map_or(true, |c| m.contains(c.as_str()))) {
                            wrong = Some(k.clone());
                        }
                    }
                }
            });
            if let Some(k) = wrong {
                l.violation("a property is omitted or renamed without a warning that names it", json!({"options": o.json(), "format": format!("{:?}", f), "property": k, "messages": messages}));
                return;
            }
        }
    }
}

fn lengths() -> Vec<usize> {
    (1..=5).chain((3..=10).flat_map(|k| (0..4).map(move |d| (1 << k) + d))).collect()
}
/// Texts that no message may stumble over: whatever byte a message is cut at, one of them has a character there.
fn hostile() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = Vec::new();
    for a in 0..4 {
        v.push((format!("{}{}", "a".repeat(a), "\u{1d11e}".repeat(300)), format!("{}{}", "b".repeat(3 - a), "\u{1d11e}".repeat(40))));
        v.push((format!("{}{}", "a".repeat(a), "\u{1d11e}".repeat(2)), "\u{1d11e}".into()));
    }
    v.push((String::new(), String::new()));
    v.push(("{} {0} {x:?} %s %n \n\r\0\u{1b}[31m".into(), "}{".into()));
    v
}

fn c23_families(t: Tier) -> Vec<Family> {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| {
        let _ = log::set_boxed_logger(Box::new(Capture));
        log::set_max_level(log::LevelFilter::Trace);
    });
    let named = |e: &mut dyn FnMut(Value), n: &str| {
        let o = json!({"type": "object", "properties": {n: {"type": "integer"}, "keep": {"type": "string"}}});
        e(json!({"type": "object", "properties": {n: {"type": "array", "items": o}, "keep": {"type": "object", "additionalProperties": o}}}));
        e(o);
    };
    let mut v = vec![
        family("names", format!("every name over 8 letters up to length {}, at three places", t.pick(3, 5)), move |e| {
            for n in super::names::strings(&['a', 'B', '7', '_', '-', '.', '$', 'z'], t.pick(3, 5)) {
                named(e, &n);
            }
        }, c23_names),
        family("characters", "every ASCII character in four places of a name", move |e| {
            for c in (0u8..128).map(char::from) {
                for n in [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("a{}B", c)] {
                    named(e, &n);
                }
            }
        }, c23_names),
    ];
    v.push(family("long names", "names of 1..=5 and 2^k..2^k+3 (k <= 10) characters of four bytes, after 0..=3 of one byte, at three places", move |e| {
        for n in lengths() {
            for a in 0..4 {
                named(e, &format!("{}{}", "a".repeat(a), "\u{1d11e}".repeat(n)));
                named(e, &format!("{}{}", "aB".repeat(n), "-".repeat(a)));
            }
        }
    }, c23_names));
    v.push(family("annotated", "a title and a description on every subschema: 0..=3 characters of one byte and 1..=300 of four, braces, percent signs, controls; every composition of <= 1 of 44 contexts, pairs, whole documents", move |e| {
        let mut i = 0;
        let mut emit = |x: Value| {
            for (d, title) in hostile() {
                i += 1;
                e(text::map_nodes(&x, &mut |m, k| {
                    if (k + i) % 5 != 0 {
                        m.insert("description".into(), json!(d));
                    }
                    if (k + i) % 3 != 0 {
                        m.insert("title".into(), json!(title));
                    }
                }));
            }
        };
        gen::realistic(&mut emit);
        gen::compositions(&gen::all_ctx(), &gen::few_leaves()[..t.pick(3, 6)], 1, &mut emit);
        gen::pairs(&gen::few_leaves(), gen::BINARY, &mut emit);
    }, c23::<false>));
    v.extend(options(t, c23::<true>));
    v.extend(standard(t, c23::<false>));
    v
}
