//! A small stateless model checker.
//!
//! A *family* is a harness body that asks for every nondeterministic decision
//! through [`Ctx::choose`].  The explorer runs the body once for every
//! possible sequence of answers (depth-first, no sampling, no state cut-off),
//! with the outermost choice spread over the worker threads.  A violation is
//! identified by its choice sequence, which is what a replay file holds.

use std::any::Any;
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;

/// Fail the current execution.
#[macro_export]
macro_rules! bail {
    ($key:expr, $($a:tt)*) => {
        return Err($crate::engine::Fail { key: format!("{}", $key), msg: format!($($a)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $key:expr, $($a:tt)*) => {
        // written so that a NaN comparison counts as a failure
        if $c {} else { $crate::bail!($key, $($a)*) }
    };
}

const BITMAP: usize = 1 << 18; // 64-bit words: 2^24 outcome slots

pub struct Ctx {
    path: Vec<(u32, u32)>,
    pos: usize,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    outcomes: Vec<u64>,
    pub sample: Option<String>,
    want_sample: bool,
}

impl Ctx {
    fn new() -> Self {
        Ctx { path: vec![], pos: 0, states: 0, transitions: 0, traces: 0, outcomes: vec![], sample: None, want_sample: false }
    }
    /// A nondeterministic choice among 0..n.
    #[inline]
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if self.pos < self.path.len() {
            let (c, m) = self.path[self.pos];
            if m as usize != n {
                eprintln!("ENGINE ERROR: divergence while replaying a prefix ({m} alternatives became {n})");
                std::process::exit(3);
            }
            self.pos += 1;
            c as usize
        } else {
            self.path.push((0, n as u32));
            self.pos += 1;
            0
        }
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.choose(xs.len())]
    }
    #[inline]
    pub fn state(&mut self) {
        self.states += 1
    }
    /// One call of the implementation whose result was compared.
    #[inline]
    pub fn step(&mut self) {
        self.transitions += 1
    }
    /// Record an observed outcome (hash) for the vacuity statistics.
    #[inline]
    pub fn outcome(&mut self, x: f64) {
        let mut h = x.to_bits();
        h ^= h >> 32;
        h = h.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
        if self.outcomes.is_empty() {
            self.outcomes = vec![0; BITMAP];
        }
        let i = (h as usize) & (BITMAP * 64 - 1);
        self.outcomes[i / 64] |= 1 << (i % 64);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    fn advance(&mut self) -> bool {
        while let Some(l) = self.path.last_mut() {
            if l.0 + 1 < l.1 {
                l.0 += 1;
                return true;
            }
            self.path.pop();
        }
        false
    }
}

pub type Body = Box<dyn Fn(usize, &mut Ctx) -> Res + Sync + Send>;

pub struct Family {
    pub name: &'static str,
    /// what the family enumerates, for the evidence file
    pub about: String,
    pub n0: usize,
    pub body: Body,
    /// run on one thread only
    pub serial: bool,
}

pub fn family<F>(name: &'static str, about: impl Into<String>, n0: usize, body: F) -> Family
where
    F: Fn(usize, &mut Ctx) -> Res + Sync + Send + 'static,
{
    Family { name, about: about.into(), n0, body: Box::new(body), serial: false }
}

pub struct Violation {
    pub family: String,
    pub i0: usize,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
}

pub struct FamilyReport {
    pub name: String,
    pub about: String,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: u64,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub failed: u64,
    /// keys of the known findings met, and in how many executions
    pub known: Vec<String>,
    pub known_hits: u64,
    pub complete: bool,
    pub wall: f64,
}

thread_local! {
    static PANIC_AT: RefCell<Option<(String,String)>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = payload(i.payload());
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

fn harness_file(loc: &str) -> Option<&str> {
    loc.strip_prefix("src/").or_else(|| loc.split_once("/mc/src/").map(|x| x.1))
}

/// Where and why the last panic of this thread was raised, if in the code
/// under test.
pub fn foreign_panic() -> Option<(String, String)> {
    PANIC_AT.with(|p| p.borrow_mut().take()).filter(|(l, _)| harness_file(l).is_none())
}

// What each worker is exploring, in memory shared with the parent process,
// which reports it if this process dies (a stack overflow, an abort).
const SLOTS: usize = 256;
static SHARED: std::sync::atomic::AtomicPtr<AtomicU64> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

/// Run `f` in a child process; if that is ended by a fault of its own, say so
/// with the work in progress, as (family index, outermost choice).
pub fn guarded(f: impl FnOnce() -> i32) -> Result<i32, (i32, Vec<(usize, usize)>)> {
    unsafe {
        let len = SLOTS * 16;
        let m = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        assert!(m != libc::MAP_FAILED, "mmap");
        SHARED.store(m as *mut AtomicU64, SeqCst);
        let parent = libc::getpid();
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if libc::getppid() != parent {
                libc::_exit(3);
            }
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            std::process::exit(f());
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) != pid {}
        if libc::WIFEXITED(st) {
            return Ok(libc::WEXITSTATUS(st));
        }
        let sig = libc::WTERMSIG(st);
        let s = std::slice::from_raw_parts(m as *const AtomicU64, SLOTS * 2);
        let work = s.chunks(2).filter(|x| x[0].load(SeqCst) > 0).map(|x| (x[0].load(SeqCst) as usize - 1, x[1].load(SeqCst) as usize)).collect();
        Err((sig, work))
    }
}

fn in_progress(slot: usize, fam: usize, i0: usize) {
    let p = SHARED.load(Relaxed);
    if !p.is_null() && slot < SLOTS {
        unsafe {
            (*p.add(2 * slot)).store(fam as u64, Relaxed);
            (*p.add(2 * slot + 1)).store(i0 as u64, Relaxed);
        }
    }
}

/// Run one execution; a panic raised by the code under test is a violation,
/// one raised by the engine itself is an engine error.
fn run_one(body: &Body, i0: usize, ctx: &mut Ctx) -> Res {
    ctx.pos = 0;
    match panic::catch_unwind(AssertUnwindSafe(|| body(i0, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if let Some(f) = harness_file(&loc) {
                // The harnesses that use the operating system, and the engine
                // itself, can fail for want of resources; the others only by
                // being handed a value that no right implementation returns.
                if ["engine.rs", "main.rs", "race.rs", "props/hist.rs", "props/cli.rs"].iter().any(|x| f.starts_with(x)) {
                    eprintln!("ENGINE ERROR: harness panicked at {loc}: {msg}");
                    std::process::exit(3);
                }
                return Err(Fail { key: format!("panic:{loc}"), msg: format!("a result is outside everything the harness can interpret (at {loc}: {msg})") });
            }
            Err(Fail { key: format!("panic:{loc}"), msg: format!("the implementation panicked at {loc}: {msg}") })
        }
    }
}

static PROGRESS: AtomicU64 = AtomicU64::new(0);

/// End the process with an error exit when the whole check takes too long,
/// and report a hang when no execution finishes for `stall` seconds.
pub fn watchdog(property: String, cap_s: u64, stall_s: u64, replay_dir: String) {
    std::thread::spawn(move || {
        let start = Instant::now();
        let mut last = (0, Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Relaxed);
            if p != last.0 {
                last = (p, Instant::now());
            }
            if last.1.elapsed().as_secs() > stall_s {
                let path = format!("{replay_dir}/{property}-hang.txt");
                let _ = std::fs::create_dir_all(&replay_dir);
                let _ = std::fs::write(&path, format!("property={property}\nno execution finished for {stall_s} s\n"));
                println!("no execution finished for {stall_s} s: a call does not return");
                println!("VIOLATION property={property} replay={path}");
                std::process::exit(1);
            }
            if start.elapsed().as_secs() > cap_s {
                eprintln!("ENGINE ERROR: wall cap of {cap_s} s reached");
                std::process::exit(4);
            }
        }
    });
}

pub fn tick() {
    PROGRESS.fetch_add(1, Relaxed);
}

const MAX_VIOLATIONS: usize = 64;

/// Explore everything; failures whose key is in `known` are recorded findings,
/// counted apart.
pub fn explore(index: usize, fam: &Family, known: &[&str]) -> FamilyReport {
    let t0 = Instant::now();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let failed = AtomicU64::new(0);
    let known_met = Mutex::new((std::collections::BTreeSet::<String>::new(), 0u64));
    let acc = Mutex::new((0u64, 0u64, 0u64, 0u64, Vec::<u64>::new(), Vec::<(usize, String)>::new(), Vec::<Violation>::new()));
    let nthreads = if fam.serial { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(fam.n0.max(1)) };
    let sample_every = (fam.n0 / 3).max(1);
    std::thread::scope(|s| {
        for slot in 0..nthreads {
            let (next, stop, failed, known_met, acc) = (&next, &stop, &failed, &known_met, &acc);
            s.spawn(move || {
                let mut ctx = Ctx::new();
                let mut execs = 0u64;
                let mut vs: Vec<Violation> = vec![];
                let mut samples = vec![];
                'outer: loop {
                    let i0 = next.fetch_add(1, Relaxed);
                    if i0 >= fam.n0 {
                        break;
                    }
                    in_progress(slot, index + 1, i0);
                    ctx.path.clear();
                    ctx.want_sample = i0 % sample_every == sample_every / 2;
                    loop {
                        let r = run_one(&fam.body, i0, &mut ctx);
                        let r = match r {
                            Err(f) if known.contains(&&f.key[..]) => {
                                let mut m = known_met.lock().unwrap();
                                m.0.insert(f.key);
                                m.1 += 1;
                                Ok(())
                            }
                            r => r,
                        };
                        if let Err(f) = r {
                            failed.fetch_add(1, Relaxed);
                            if vs.len() < MAX_VIOLATIONS {
                                vs.push(Violation {
                                    family: fam.name.into(),
                                    i0,
                                    choices: ctx.path[..ctx.pos.min(ctx.path.len())].iter().map(|x| x.0).collect(),
                                    key: f.key,
                                    msg: f.msg,
                                });
                            } else {
                                stop.store(true, Relaxed);
                            }
                        }
                        execs += 1;
                        if execs & 0xff == 0 || execs < 4 {
                            tick();
                        }
                        ctx.path.truncate(ctx.pos);
                        if stop.load(Relaxed) {
                            break 'outer;
                        }
                        if !ctx.advance() {
                            break;
                        }
                    }
                    tick();
                    if let Some(s) = ctx.sample.take() {
                        samples.push((i0, s));
                    }
                    ctx.want_sample = false;
                }
                in_progress(slot, 0, 0);
                let mut a = acc.lock().unwrap();
                a.0 += execs;
                a.1 += ctx.states;
                a.2 += ctx.transitions;
                a.3 += ctx.traces;
                if !ctx.outcomes.is_empty() {
                    if a.4.is_empty() {
                        a.4 = vec![0; BITMAP];
                    }
                    for (x, y) in a.4.iter_mut().zip(&ctx.outcomes) {
                        *x |= *y;
                    }
                }
                a.5.extend(samples);
                a.6.extend(vs);
            });
        }
    });
    let (executions, states, transitions, traces, bm, mut samples, mut violations) = acc.into_inner().unwrap();
    let (known, known_hits) = known_met.into_inner().unwrap();
    samples.sort();
    violations.sort_by(|a, b| (a.i0, a.choices.len(), &a.choices).cmp(&(b.i0, b.choices.len(), &b.choices)));
    FamilyReport {
        name: fam.name.into(),
        about: fam.about.clone(),
        executions,
        states,
        transitions,
        traces,
        outcomes: bm.iter().map(|x| x.count_ones() as u64).sum(),
        samples: samples.into_iter().map(|x| x.1).take(3).collect(),
        violations,
        failed: failed.load(Relaxed),
        known: known.into_iter().collect(),
        known_hits,
        complete: !stop.load(Relaxed),
        wall: t0.elapsed().as_secs_f64(),
    }
}

/// Re-run one recorded execution; `warm` first re-runs everything explored
/// before it under the same outermost choice (for defects that depend on
/// calls made earlier).
pub fn replay(fam: &Family, i0: usize, choices: &[u32], warm: bool) -> Res {
    let mut ctx = Ctx::new();
    if warm {
        loop {
            let r = run_one(&fam.body, i0, &mut ctx);
            ctx.path.truncate(ctx.pos);
            let here: Vec<u32> = ctx.path.iter().map(|x| x.0).collect();
            if here == choices {
                return r;
            }
            if !ctx.advance() {
                return Ok(());
            }
        }
    }
    // learn the arities as the prefix is replayed
    let mut want = choices.iter().copied();
    loop {
        let r = run_one(&fam.body, i0, &mut ctx);
        let n = ctx.path.len();
        let mut done = true;
        for k in 0..n {
            let c = choices.get(k).copied().unwrap_or(0);
            if ctx.path[k].0 != c {
                assert!(c < ctx.path[k].1, "replay diverged");
                ctx.path[k].0 = c;
                ctx.path.truncate(k + 1);
                done = false;
                break;
            }
        }
        let _ = want.next();
        if done {
            return r;
        }
    }
}
