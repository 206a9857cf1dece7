//! A controlled scheduler for two conversions on two threads. The scheduling points are the calls
//! of the memory allocator, which a conversion makes hundreds of, between any two of its larger
//! steps. A schedule is executed in a forked process, so that whatever is built lazily on first use is
//! built in every schedule again.
//!
//! Schedule (i, None): A runs to its point i, B runs from start to end, A continues.
//! Schedule (i, Some(j)): A to point i, B to its point j, A to its end, B to its end.
//! If the thread that should run is blocked by the other one (a lock), the other one continues.
use crate::props::history::run_call;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::Read;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::{Duration, Instant};

pub struct Alloc;

thread_local! {
    /// 0: not controlled, 1: thread A, 2: thread B, 3: only counted
    static WHO: Cell<u8> = const { Cell::new(0) };
    static N: Cell<u64> = const { Cell::new(0) };
}

/// the points at which A and B stop
static STOP: [AtomicU64; 2] = [AtomicU64::new(u64::MAX), AtomicU64::new(u64::MAX)];
/// every how many points there is a scheduling point
static GRAIN: AtomicU64 = AtomicU64::new(1);
/// whose turn it is: 1 or 2; 3 both (uncontrolled, after one was blocked)
static TURN: AtomicU32 = AtomicU32::new(1);
static DONE: AtomicU32 = AtomicU32::new(0);
static BLOCKED: AtomicU32 = AtomicU32::new(0);

fn futex_wait(a: &AtomicU32, v: u32, d: Duration) {
    let t = libc::timespec { tv_sec: d.as_secs() as i64, tv_nsec: d.subsec_nanos() as i64 };
    unsafe { libc::syscall(libc::SYS_futex, a.as_ptr(), libc::FUTEX_WAIT, v, &t as *const _, 0usize, 0u32) };
}
fn set_turn(v: u32) {
    TURN.store(v, SeqCst);
    unsafe { libc::syscall(libc::SYS_futex, TURN.as_ptr(), libc::FUTEX_WAKE, i32::MAX, 0usize, 0usize, 0u32) };
}

/// Wait until it is the turn of `me`. If the other thread does not give the turn back it may be
/// blocked by something that `me` holds; then both run.
fn wait_turn(me: u32, patience: Duration) {
    let end = Instant::now() + patience;
    loop {
        let t = TURN.load(SeqCst);
        if t == me || t == 3 {
            return;
        }
        let now = Instant::now();
        if now >= end {
            BLOCKED.store(1, SeqCst);
            set_turn(3);
            return;
        }
        futex_wait(&TURN, t, end - now);
    }
}

#[inline]
fn point() {
    let _ = WHO.try_with(|w| {
        let me = w.get();
        if me == 3 {
            N.with(|c| c.set(c.get() + 1));
        } else if me != 0 {
            step(me);
        }
    });
}

/// How often the allocator is called by `f`: a measure of work that is the same in every run.
pub fn counted<T>(f: impl FnOnce() -> T) -> (T, u64) {
    N.with(|n| n.set(0));
    WHO.with(|w| w.set(3));
    let r = f();
    WHO.with(|w| w.set(0));
    (r, N.with(|n| n.get()))
}

#[cold]
fn step(me: u8) {
    let n = N.with(|c| {
        c.set(c.get() + 1);
        c.get() - 1
    });
    let g = GRAIN.load(SeqCst);
    if n % g == 0 && n / g == STOP[me as usize - 1].load(SeqCst) {
        let other = 3 - me as u32;
        if TURN.load(SeqCst) == me as u32 && DONE.load(SeqCst) & (1 << other) == 0 {
            set_turn(other);
            wait_turn(me as u32, Duration::from_millis(200));
        }
    }
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        point();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        point();
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        point();
        System.dealloc(p, l)
    }
}

/// Run a call as one of the two threads; the number of its points.
fn controlled(me: u8, c: &Value) -> (Value, u64) {
    wait_turn(me as u32, Duration::from_secs(60));
    N.with(|n| n.set(0));
    WHO.with(|w| w.set(me));
    let r = run_call(c);
    WHO.with(|w| w.set(0));
    let n = N.with(|n| n.get());
    DONE.fetch_or(1 << me, SeqCst);
    if TURN.load(SeqCst) == me as u32 {
        set_turn(3 - me as u32);
    }
    (r, n)
}

/// Fork, run `f` in the child and return what it writes; None if it did not end well.
fn forked(f: impl FnOnce() -> Vec<u8>) -> Option<Vec<u8>> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe(p.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(60);
            let v = f();
            let mut at = 0;
            while at < v.len() {
                let n = libc::write(p[1], v[at..].as_ptr() as *const _, v.len() - at);
                if n <= 0 {
                    libc::_exit(3);
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        if pid < 0 {
            libc::close(p[0]);
            return None;
        }
        let mut v = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let n = libc::read(p[0], b.as_mut_ptr() as *mut _, b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
            Some(v)
        } else {
            None
        }
    }
}

/// Execute one schedule: (results, blocked).
fn schedule(a: &Value, b: &Value, i: u64, j: Option<u64>, grain: u64) -> Option<(Value, Value, bool)> {
    let v = forked(|| {
        GRAIN.store(grain, SeqCst);
        STOP[0].store(i, SeqCst);
        STOP[1].store(j.unwrap_or(u64::MAX), SeqCst);
        let (x, y) = std::thread::scope(|s| {
            let h = s.spawn(|| controlled(2, b).0);
            let x = controlled(1, a).0;
            (x, h.join().unwrap_or(json!("the thread died")))
        });
        json!([x, y, BLOCKED.load(SeqCst)]).to_string().into_bytes()
    })?;
    let v: Value = serde_json::from_slice(&v).ok()?;
    Some((v[0].clone(), v[1].clone(), v[2] != 0))
}

/// The number of scheduling points of a call in a fresh process.
fn points(c: &Value) -> Option<u64> {
    let v = forked(|| json!([controlled(1, c).1]).to_string().into_bytes())?;
    serde_json::from_slice::<Value>(&v).ok()?[0].as_u64()
}

/// stdin: {"a": call, "b": call, "expect": [.., ..], "second": most scheduling points of a thread in two-preemption mode, or null}
pub fn main() -> i32 {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let (a, b) = (&v["a"], &v["b"]);
    let (Some(na), Some(nb)) = (points(a), points(b)) else {
        println!("{}", json!({"failed": "a conversion ends the process"}));
        return 0;
    };
    let most = v["second"].as_u64();
    let grain = most.map_or(1, |m| (na.max(nb) / m + 1).max(1));
    let (mut n, mut blocked) = (0u64, 0u64);
    for i in 0..na.div_ceil(grain) {
        let js: Vec<Option<u64>> = match most {
            None => vec![None],
            Some(_) => (0..nb.div_ceil(grain)).map(Some).collect(),
        };
        for j in js {
            n += 1;
            let r = schedule(a, b, i, j, grain);
            let bad = match &r {
                None => Some(json!("the process ended, or the two threads block each other")),
                Some((x, y, bl)) => {
                    blocked += *bl as u64;
                    if *x != v["expect"][0] {
                        Some(json!({"first": x}))
                    } else if *y != v["expect"][1] {
                        Some(json!({"second": y}))
                    } else {
                        None
                    }
                }
            };
            if let Some(x) = bad {
                println!("{}", json!({"schedules": n, "points": [na, nb], "blocked": blocked, "grain": grain, "bad": {"first stops at": i, "second stops at": j, "result": x}}));
                return 0;
            }
        }
    }
    println!("{}", json!({"schedules": n, "points": [na, nb], "blocked": blocked, "grain": grain}));
    0
}
