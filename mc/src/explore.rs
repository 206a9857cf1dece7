//! The explorer: enumerates the states of a family completely, deduplicates them, and evaluates a
//! property in every state on eight threads. Counts are measured; nothing is sampled.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::Instant;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
}

/// What a worker accumulates.
#[derive(Default)]
pub struct Local {
    /// states a check enumerated inside of a block of states
    pub inner_states: u64,
    pub runs: u64,
    pub compared: u64,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub violations: Vec<Value>,
    pub known: BTreeMap<String, (u64, Value)>,
}

pub fn hash_of(v: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}
pub fn hash2(s: &str) -> u128 {
    let mut a = DefaultHasher::new();
    s.hash(&mut a);
    let mut b = DefaultHasher::new();
    (0x9e37u64, s).hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

impl Local {
    /// an execution of the implementation
    pub fn ran(&mut self, n: u64) {
        self.runs += n;
    }
    pub fn outcome(&mut self, v: &impl Hash) {
        if self.outcomes.len() < 2_000_000 {
            self.outcomes.insert(hash_of(v));
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_default() += 1;
    }
    pub fn violation(&mut self, what: &str, detail: Value) {
        if self.violations.len() < 50 {
            self.violations.push(json!({"what": what, "detail": detail}));
        }
    }
    pub fn known(&mut self, key: &str, detail: impl FnOnce() -> Value) {
        let e = self.known.entry(key.to_string()).or_insert_with(|| (0, detail()));
        e.0 += 1;
    }
}

pub type Check = fn(&Value, &mut Local);
pub struct Family {
    pub name: &'static str,
    pub bound: String,
    pub gen: Box<dyn Fn(&mut dyn FnMut(Value))>,
    pub check: Check,
}

pub fn family(name: &'static str, bound: impl Into<String>, gen: impl Fn(&mut dyn FnMut(Value)) + 'static, check: Check) -> Family {
    Family { name, bound: bound.into(), gen: Box::new(gen), check }
}

#[derive(Default)]
pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub runs: u64,
    pub compared: u64,
    pub outcomes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub families: Vec<Value>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub known: BTreeMap<String, (u64, Value)>,
    pub complete: bool,
}

/// In-flight states, shared with the supervising process: if the checked code takes the process
/// down (stack overflow, abort, endless loop), the supervisor knows what was being executed.
pub const SLOT: usize = 1 << 10;
pub const SLOTS: usize = 64;
pub struct Shared {
    pub base: *mut u8,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Shared {
    pub fn open(path: &str) -> Option<Shared> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).ok()?;
        let p = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * SLOTS, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Shared { base: p as *mut u8 })
    }
    pub fn set(&self, slot: usize, family: &str, s: &str) {
        let msg = format!("{}\n{}", family, s);
        let b = msg.as_bytes();
        let n = b.len().min(SLOT - 24);
        unsafe {
            let p = self.base.add(slot * SLOT);
            let len = p as *mut u64;
            let seq = p.add(8) as *mut u64;
            let big = p.add(16) as *mut u64;
            len.write_volatile(0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(24), n);
            big.write_volatile((b.len() > n) as u64);
            seq.write_volatile(seq.read_volatile() + 1);
            len.write_volatile(n as u64);
        }
    }
    pub fn clear(&self, slot: usize) {
        unsafe { (self.base.add(slot * SLOT) as *mut u64).write_volatile(0) }
    }
    pub fn get(&self, slot: usize) -> Option<(u64, String, String)> {
        unsafe {
            let p = self.base.add(slot * SLOT);
            let len = (p as *mut u64).read_volatile() as usize;
            let seq = (p.add(8) as *mut u64).read_volatile();
            if len == 0 || len > SLOT - 24 {
                return None;
            }
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(p.add(24), len)).to_string();
            let (f, j) = s.split_once('\n')?;
            Some((seq, f.to_string(), j.to_string()))
        }
    }
}

pub const STACK: usize = 256 << 20;

/// An oracle that cannot make sense of what the code returned is a violation, not a crash.
pub fn guarded(check: Check, v: &Value, l: &mut Local) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check(v, l)));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        l.violation(&format!("the result cannot be interpreted: {}", m), Value::Null);
    }
}

pub fn explore(families: &[Family], cap_s: f64, shared: Option<Shared>) -> Report {
    let start = Instant::now();
    let mut rep = Report { complete: true, ..Default::default() };
    let shared = Arc::new(shared);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
    for fam in families {
        let t0 = Instant::now();
        let stop = Arc::new(AtomicBool::new(false));
        let (tx, rx) = mpsc::sync_channel::<Vec<(Value, u128)>>(64);
        let rx = Arc::new(Mutex::new(rx));
        let done = Arc::new(AtomicU64::new(0));
        let mut handles = Vec::new();
        for t in 0..threads {
            let rx = rx.clone();
            let stop = stop.clone();
            let shared = shared.clone();
            let done = done.clone();
            let check = fam.check;
            let name = fam.name;
            handles.push(
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn(move || {
                        let mut l = Local::default();
                        loop {
                            let batch = match rx.lock().unwrap().recv() {
                                Ok(b) => b,
                                Err(_) => break,
                            };
                            for (v, s) in batch {
                                if stop.load(Ordering::Relaxed) {
                                    continue;
                                }
                                if let Some(sh) = shared.as_ref() {
                                    sh.set(t, name, &format!("{:032x}", s));
                                }
                                let before = l.violations.len();
                                guarded(check, &v, &mut l);
                                done.fetch_add(1, Ordering::Relaxed);
                                if l.violations.len() > before {
                                    for x in &mut l.violations[before..] {
                                        x["family"] = json!(name);
                                        x["case"] = v.clone();
                                    }
                                    if l.violations.len() >= 10 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            if let Some(sh) = shared.as_ref() {
                                sh.clear(t);
                            }
                        }
                        l
                    })
                    .unwrap(),
            );
        }
        let mut seen: HashSet<u128> = HashSet::new();
        let mut batch = Vec::new();
        let mut transitions = 0u64;
        let mut samples: Vec<Value> = Vec::new();
        let mut capped = false;
        {
            let mut emit = |v: Value| {
                if capped {
                    return;
                }
                transitions += 1;
                let s = v.to_string();
                let h = hash2(&s);
                if !seen.insert(h) {
                    return;
                }
                let n = seen.len();
                if n.is_power_of_two() && s.len() < 600 && (n == 1 || n > 16) && samples.len() < 12 {
                    samples.push(v.clone());
                }
                batch.push((v, h));
                if batch.len() >= if n <= 1024 { 1 } else { 32 } {
                    tx.send(std::mem::take(&mut batch)).unwrap();
                    if n % 1024 < 32 && (start.elapsed().as_secs_f64() > cap_s || stop.load(Ordering::Relaxed)) {
                        capped = true;
                    }
                }
            };
            (fam.gen)(&mut emit);
        }
        if !batch.is_empty() {
            tx.send(batch).unwrap();
        }
        drop(tx);
        let mut outs = 0;
        let mut runs = 0;
        let mut inner = 0;
        for h in handles {
            let l = h.join().expect("worker died");
            runs += l.runs;
            inner += l.inner_states;
            rep.runs += l.runs;
            rep.compared += l.compared;
            outs += l.outcomes.len();
            rep.outcomes.extend(l.outcomes);
            for (k, v) in l.counters {
                *rep.counters.entry(k.to_string()).or_default() += v;
            }
            rep.violations.extend(l.violations);
            for (k, (n, d)) in l.known {
                let e = rep.known.entry(k).or_insert((0, d));
                e.0 += n;
            }
        }
        let _ = outs;
        rep.states += done.load(Ordering::Relaxed) + inner;
        rep.transitions += transitions + inner;
        if capped {
            rep.complete = false;
        }
        if let Some(s) = samples.last() {
            rep.samples.push(json!({"family": fam.name, "state": s}));
        }
        rep.families.push(json!({"family": fam.name, "bound": fam.bound, "states": done.load(Ordering::Relaxed) + inner,
            "transitions": transitions + inner, "executions": runs, "complete": !capped, "wall_s": t0.elapsed().as_secs_f64()}));
        if !rep.violations.is_empty() {
            rep.complete = false;
            break;
        }
    }
    rep
}
