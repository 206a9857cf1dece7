//! mc check ID TIER       supervise a check: run it in child processes, write the evidence
//! mc inner ID TIER ...   explore (one child per build of the code under test)
//! mc one ID TIER FAMILY HASH   run a single state, found again by its hash
//! mc replay FILE         run the state of a violation again
//! mc seq                 run a sequence of conversions read from stdin (for C19)
//! mc sched               explore the schedules of two concurrent conversions read from stdin (for C19)
mod diff;
mod explore;
mod gen;
mod imp;
mod model;
mod opts;
mod props;
mod sched;
mod supervise;
mod validate;

use explore::Tier;

#[global_allocator]
static ALLOC: sched::Alloc = sched::Alloc;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(String::as_str).collect();
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a[1..] {
        ["check", id, t] => supervise::check(id, tier(t)),
        ["inner", id, t, label, shm, out, cap] => supervise::inner(id, tier(t), label, shm, out, cap.parse().unwrap()),
        ["one", id, t, fam, hash] => supervise::one(id, tier(t), fam, hash),
        ["replay", file] => supervise::replay(file),
        ["case", id, fam] => supervise::case(id, fam),
        ["seq"] => props::history::seq(),
        ["sched"] => sched::main(),
        ["dev", id, t] => supervise::dev(id, tier(t), None),
        ["dev", id, t, fam] => supervise::dev(id, tier(t), Some(fam)),
        _ => {
            eprintln!("usage: mc check|replay ...");
            2
        }
    };
    std::process::exit(code);
}
