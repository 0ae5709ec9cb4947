//! Interleavings *inside* calls, for C27.
//!
//! The library has no synchronization to hook, so the scheduling points are
//! found by memory protection: every writable static of the crates under
//! test (read from this program's own symbol table) is put on pages without
//! access rights, and each instruction that touches one faults.  The fault
//! handler is the scheduling point: it lets this thread go on, or suspends it
//! and lets the other one run; the instruction is then executed alone, in
//! single-step mode, and the pages closed again.  One schedule is one forked
//! process, so each starts from the same fresh state; the parent enumerates
//! the schedules with one preemption, then those with two, depth first, up to
//! a number of schedules that it reports when it is reached.
//!
//! When the crates have no writable static (the unchanged tree), no call can
//! reach shared state and there is nothing to interleave; that is what the
//! family then reports.

use crate::props::hist::{call, hash, Token};
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAX_POINTS: usize = 4096;
const PREEMPTIONS: u32 = 2;
/// Preemptions are chosen among this many first points.
const DEPTH: usize = 64;
/// An instruction that touches a static this many times in a row is waiting
/// for the other thread: switch for free.
const SPIN: u32 = 24;

#[repr(C)]
struct Shared {
    base: usize,
    len: usize,
    nranges: usize,
    ranges: [(usize, usize); 256],
    tid: [AtomicU32; 2],
    done: [AtomicU32; 2],
    cur: AtomicU32,
    run: AtomicU32,
    at: usize,
    total: u32,
    preempted: AtomicU32,
    bound: u32,
    active: AtomicU32,
    prefix_len: usize,
    prefix: [u8; MAX_POINTS],
    npoints: AtomicU32,
    trace: [u8; MAX_POINTS],
    arity: [u8; MAX_POINTS],
    touched: [u8; 256],
    finished: AtomicU32,
    hashes: [u64; 4],
}

/// The shared page sits at a fixed address, so the handlers touch no static.
const AT: usize = 0x0000_5a00_0000_0000;

fn sh() -> &'static mut Shared {
    unsafe { &mut *(AT as *mut Shared) }
}

#[no_mangle]
pub static mut MC_RACE_ANCHOR: u64 = 1;

/// Writable statics of the crates under test: (address, size, name).
pub fn statics() -> Vec<(usize, usize, String)> {
    let b = std::fs::read("/proc/self/exe").expect("cannot read this program");
    let u64at = |o: usize| u64::from_le_bytes(b[o..o + 8].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(b[o..o + 4].try_into().unwrap()) as usize;
    let u16at = |o: usize| u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize;
    let (shoff, shentsize, shnum, shstr) = (u64at(0x28), u16at(0x3a), u16at(0x3c), u16at(0x3e));
    let sec = |i: usize| shoff + i * shentsize;
    let cstr = |o: usize| {
        let e = b[o..].iter().position(|c| *c == 0).unwrap();
        String::from_utf8_lossy(&b[o..o + e]).to_string()
    };
    let strs = u64at(sec(shstr) + 0x18);
    let mut out = vec![];
    let mut anchor = None;
    for i in 0..shnum {
        if u32at(sec(i) + 4) != 2 {
            continue; // not a symbol table
        }
        let (off, size, link) = (u64at(sec(i) + 0x18), u64at(sec(i) + 0x20), u32at(sec(i) + 0x28));
        let names = u64at(sec(link) + 0x18);
        for k in 0..size / 24 {
            let o = off + 24 * k;
            let (typ, shndx) = (b[o + 4] & 15, u16at(o + 6));
            if typ != 1 || shndx == 0 || shndx >= shnum {
                continue;
            }
            let (val, sz, name) = (u64at(o + 8), u64at(o + 16), cstr(names + u32at(o)));
            if name == "MC_RACE_ANCHOR" {
                anchor = Some(val);
            }
            let (sname, flags) = (cstr(strs + u32at(sec(shndx))), u64at(sec(shndx) + 8));
            // writable, not thread-local, not read-only after relocation
            if flags & 1 == 0 || flags & 0x400 != 0 || sname.contains("rel.ro") || sz == 0 {
                continue;
            }
            if name.contains("tofas") {
                out.push((val, sz, name));
            }
        }
    }
    let anchor = anchor.expect("this program has no symbol table");
    let base = (&raw const MC_RACE_ANCHOR as usize).wrapping_sub(anchor);
    out.sort();
    out.truncate(256);
    out.into_iter().map(|(v, s, n)| (v.wrapping_add(base), s, n)).collect()
}

unsafe fn protect(on: bool) {
    let s = sh();
    libc::syscall(libc::SYS_mprotect, s.base, s.len, if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE });
}

unsafe fn who() -> usize {
    let t = libc::syscall(libc::SYS_gettid) as u32;
    if sh().tid[0].load(SeqCst) == t {
        0
    } else {
        1
    }
}

unsafe fn wait_turn(me: usize) {
    loop {
        let c = sh().cur.load(SeqCst);
        if c == me as u32 {
            return;
        }
        libc::syscall(libc::SYS_futex, &sh().cur as *const _ as usize, libc::FUTEX_WAIT, c, 0usize);
    }
}

unsafe fn pass_to(k: usize) {
    sh().run.store(0, SeqCst);
    sh().total = 0;
    sh().cur.store(k as u32, SeqCst);
    libc::syscall(libc::SYS_futex, &sh().cur as *const _ as usize, libc::FUTEX_WAKE, 8);
}

/// Take the next decision among `n` alternatives.
unsafe fn decide(n: u8) -> u8 {
    let s = sh();
    let p = s.npoints.load(SeqCst) as usize;
    if p >= MAX_POINTS {
        return 0;
    }
    let n = if p >= DEPTH { 1 } else { n };
    let c = if p < s.prefix_len { s.prefix[p].min(n - 1) } else { 0 };
    s.trace[p] = c;
    s.arity[p] = n;
    s.npoints.store(p as u32 + 1, SeqCst);
    c
}

extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        let s = sh();
        if a < s.base || a >= s.base + s.len {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        if s.active.load(SeqCst) == 1 {
            for k in 0..s.nranges {
                let (b, l) = s.ranges[k];
                if a >= b && a < b + l {
                    s.touched[k] = 1;
                    let me = who();
                    let other = 1 - me;
                    if s.done[other].load(SeqCst) == 0 {
                        let ip = (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
                        if ip != s.at {
                            s.at = ip;
                            s.run.store(0, SeqCst);
                        }
                        let r = s.run.fetch_add(1, SeqCst);
                        s.total += 1;
                        if r > SPIN || s.total > 16 * SPIN {
                            pass_to(other);
                            wait_turn(me);
                        } else {
                            let can = s.preempted.load(SeqCst) < s.bound;
                            if decide(if can { 2 } else { 1 }) == 1 {
                                s.preempted.fetch_add(1, SeqCst);
                                pass_to(other);
                                wait_turn(me);
                            }
                        }
                    } else {
                        decide(1);
                    }
                    break;
                }
            }
        }
        protect(false);
        let uc = ctx as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    unsafe {
        let uc = ctx as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        protect(true);
    }
}

/// One process, one schedule: call i on one thread, j on another, after the
/// calls `before`; then both again.  Returns false if the process died.
fn schedule(ts: &'static [Token], before: &[usize], i: usize, j: Option<usize>, prefix: &[u8]) -> Result<(), String> {
    unsafe {
        let s = sh();
        for k in 0..2 {
            s.tid[k].store(0, SeqCst);
            s.done[k].store(0, SeqCst);
        }
        s.touched = [0; 256];
        s.npoints.store(0, SeqCst);
        s.run.store(0, SeqCst);
        s.preempted.store(0, SeqCst);
        s.active.store(0, SeqCst);
        s.finished.store(0, SeqCst);
        s.cur.store(2, SeqCst);
        s.prefix_len = prefix.len();
        s.prefix[..prefix.len()].copy_from_slice(prefix);
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("ENGINE ERROR: cannot fork");
            std::process::exit(3);
        }
        if pid == 0 {
            libc::alarm(10);
            let mut sa: libc::sigaction = std::mem::zeroed();
            sa.sa_flags = libc::SA_SIGINFO;
            sa.sa_sigaction = on_segv as *const () as usize;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
            sa.sa_sigaction = on_trap as *const () as usize;
            libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
            for &k in before {
                call(&ts[k]);
            }
            let start = |w: usize, k: usize| {
                std::thread::spawn(move || {
                    sh().tid[w].store(libc::syscall(libc::SYS_gettid) as u32, SeqCst);
                    wait_turn(w);
                    sh().hashes[w] = hash(&call(&ts[k]));
                    sh().done[w].store(1, SeqCst);
                    if sh().done[1 - w].load(SeqCst) == 0 {
                        pass_to(1 - w);
                    }
                })
            };
            let mut hs = vec![start(0, i)];
            if let Some(j) = j {
                hs.push(start(1, j));
            } else {
                s.done[1].store(1, SeqCst);
            }
            let n = hs.len();
            while (0..n).any(|w| s.tid[w].load(SeqCst) == 0) {
                std::thread::yield_now();
            }
            let first = if n == 2 { decide(2) } else { 0 };
            s.active.store(1, SeqCst);
            protect(true);
            pass_to(first as usize);
            for h in hs {
                let _ = h.join();
            }
            protect(false);
            s.active.store(0, SeqCst);
            s.hashes[2] = hash(&call(&ts[i]));
            s.hashes[3] = hash(&call(&ts[j.unwrap_or(i)]));
            s.finished.store(1, SeqCst);
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if s.finished.load(SeqCst) != 1 {
            return Err(format!("wait status {st:#x}"));
        }
        Ok(())
    }
}

fn setup() -> Vec<(usize, usize, String)> {
    let st = statics();
    unsafe {
        let len = (std::mem::size_of::<Shared>() + 4095) & !4095;
        let p = libc::mmap(AT as *mut _, len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != AT {
            eprintln!("ENGINE ERROR: cannot map the shared page");
            std::process::exit(3);
        }
        let s = sh();
        if !st.is_empty() {
            let lo = st.iter().map(|x| x.0).min().unwrap() & !4095;
            let hi = (st.iter().map(|x| x.0 + x.1).max().unwrap() + 4095) & !4095;
            s.base = lo;
            s.len = hi - lo;
            s.nranges = st.len();
            for (k, x) in st.iter().enumerate() {
                s.ranges[k] = (x.0, x.1);
            }
        }
    }
    st
}

/// `mc race I`: every schedule of call I with every call that touches a
/// static it touches.  Baselines on standard input.
pub fn helper(ts: Vec<Token>, i: usize, base: &[u64], cap: u64) -> i32 {
    let ts: &'static [Token] = Box::leak(ts.into_boxed_slice());
    let st = setup();
    if st.is_empty() {
        println!("OK 0 0 0 0");
        return 0;
    }
    let touched = |k: usize| -> Vec<bool> {
        match schedule(ts, &[], k, None, &[]) {
            Ok(()) => sh().touched[..st.len()].iter().map(|x| *x == 1).collect(),
            Err(_) => vec![true; st.len()],
        }
    };
    let mine = touched(i);
    let (mut n, mut pairs, mut capped) = (0u64, 0u64, 0u64);
    if mine.iter().any(|x| *x) {
        let mut js = vec![];
        for j in (i..ts.len()).chain(0..i) {
            // this call with itself, the next ones like it, and one of each
            // other kind
            let same = ts[j].group == ts[i].group;
            if js.iter().filter(|k: &&usize| ts[**k].group == ts[j].group).count() >= if same { 6 } else { 1 } {
                continue;
            }
            if touched(j).iter().zip(&mine).any(|(a, b)| *a && *b) {
                js.push(j);
            }
        }
        pairs = js.len() as u64;
        let befores = |j: usize| [vec![], vec![i], vec![j]];
        for bound in 1..=PREEMPTIONS {
            for &j in &js {
                for before in befores(j) {
                    let mut prefix: Vec<u8> = vec![];
                    loop {
                        if n >= cap {
                            capped = 1;
                            println!("OK {} {pairs} {n} {capped}", st.len());
                            return 0;
                        }
                        n += 1;
                        sh().bound = bound;
                        let r = schedule(ts, &before, i, Some(j), &prefix);
                        let s = sh();
                        let np = (s.npoints.load(SeqCst) as usize).min(MAX_POINTS);
                        let bad = match r {
                            Err(e) => Some(format!("the process ended abnormally ({e})")),
                            Ok(()) => [(0, i), (1, j), (2, i), (3, j)].into_iter().find(|(k, t)| s.hashes[*k] != base[*t]).map(|(k, t)| format!("[{}] {} differs from a fresh process", ts[t].name, if k < 2 { "running" } else { "called afterwards" })),
                        };
                        if let Some(b) = bad {
                            let sw: Vec<usize> = (0..np).filter(|p| s.trace[*p] == 1).collect();
                            println!("MISMATCH two threads, [{}] and [{}], after {} earlier call(s), switching at access(es) {sw:?} to shared statics ({}): {b}", ts[i].name, ts[j].name, before.len(), st.iter().zip(&mine).filter(|x| *x.1).map(|x| &x.0 .2[..]).collect::<Vec<_>>().join(" "));
                            return 0;
                        }
                        // next schedule, depth first
                        match (0..np.min(DEPTH)).rev().find(|p| s.trace[*p] + 1 < s.arity[*p]) {
                            Some(p) => {
                                prefix = s.trace[..p].to_vec();
                                prefix.push(s.trace[p] + 1);
                            }
                            None => break,
                        }
                    }
                }
            }
        }
    }
    println!("OK {} {pairs} {n} {capped}", st.len());
    0
}
