//! Systematic schedules of real threads. While the threads run, the writable static memory of this
//! program (the only memory they share through the library) is access-protected; every access to it
//! traps, stops its thread, and lets the explorer decide which thread executes its next access.
//! A trapped instruction is executed alone (single-stepped), so interleavings are those of the machine
//! instructions that touch shared memory, under sequential consistency. Reads of words that no thread
//! ever writes cannot be told apart by any schedule and are not scheduling points.

use crate::explore::{hash64, Chooser};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

const AT: usize = 0x6f00_0000_0000;
const PAGE: usize = 4096;
const MAX: usize = 4;
const WORDS: usize = 128;
/// Times a thread may reach the same access in one go before it counts as waiting.
const SPIN: usize = 6;

const STARTING: u32 = 0;
const WAITING: u32 = 1;
const RUNNING: u32 = 2;
const DONE: u32 = 3;

/// Lives in its own page, outside the protected memory.
#[repr(C)]
struct Shared {
    armed: AtomicU32,
    state: [AtomicU32; MAX],
    points: [AtomicU64; MAX],
    /// the instruction and word each stopped thread is about to execute
    at: [AtomicU64; MAX],
    /// words of static memory that some thread writes, learned beforehand
    learning: AtomicU32,
    known: AtomicU32,
    written: [AtomicU64; WORDS],
}

thread_local! {
    /// 1-based number of a scheduled thread.
    static ME: Cell<usize> = const { Cell::new(0) };
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

fn shared() -> &'static Shared {
    unsafe { &*(AT as *const Shared) }
}

fn range() -> (usize, usize) {
    unsafe {
        let lo = std::ptr::addr_of!(__data_start) as usize & !(PAGE - 1);
        let hi = (std::ptr::addr_of!(_end) as usize + PAGE - 1) & !(PAGE - 1);
        (lo, hi)
    }
}

fn protect(prot: i32) {
    let (lo, hi) = range();
    unsafe {
        libc::mprotect(lo as *mut _, hi - lo, prot);
    }
}

fn stop_here(me: usize, at: u64) {
    let s = shared();
    s.at[me].store(at, SeqCst);
    s.points[me].fetch_add(1, SeqCst);
    publish(me, WAITING);
    while s.state[me].load(SeqCst) != RUNNING {
        sleep_on(&s.state[me], WAITING, 1_000_000_000);
    }
}

/// Changes the state of a thread and wakes whoever waits for the change.
fn publish(i: usize, v: u32) {
    let w = &shared().state[i];
    w.store(v, SeqCst);
    unsafe {
        libc::syscall(libc::SYS_futex, w as *const AtomicU32, libc::FUTEX_WAKE, i32::MAX, 0, 0, 0);
    }
}

/// Sleeps while the word holds this value, no longer than the given time.
fn sleep_on(w: &AtomicU32, v: u32, nanos: i64) {
    let t = libc::timespec { tv_sec: nanos / 1_000_000_000, tv_nsec: nanos % 1_000_000_000 };
    unsafe {
        libc::syscall(libc::SYS_futex, w as *const AtomicU32, libc::FUTEX_WAIT, v, &t as *const libc::timespec, 0, 0);
    }
}

/// Keeps this thread and the threads it starts on one processor: exactly one of them runs anyway.
fn pin() {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(libc::sched_getcpu().max(0) as usize, &mut set);
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

fn is_written(word: u64) -> bool {
    let s = shared();
    (0..s.known.load(SeqCst) as usize).any(|i| s.written[i].load(SeqCst) == word)
}

fn learn(word: u64) {
    if !is_written(word) {
        let s = shared();
        let n = s.known.load(SeqCst) as usize;
        if n < WORDS {
            s.written[n].store(word, SeqCst);
            s.known.store(n as u32 + 1, SeqCst);
        }
    }
}

/// Runs `f` on a thread of its own and learns which words of static memory it writes.
pub fn calibrate(f: impl FnOnce() + Send) -> usize {
    install();
    let s = shared();
    std::thread::scope(|scope| {
        scope.spawn(|| {
            drop(format!("{:p}", &s));
            s.learning.store(1, SeqCst);
            s.armed.store(1, SeqCst);
            protect(libc::PROT_NONE);
            ME.set(1);
            f();
            ME.set(0);
            s.armed.store(0, SeqCst);
            protect(libc::PROT_READ | libc::PROT_WRITE);
            s.learning.store(0, SeqCst);
        });
    });
    s.known.load(SeqCst) as usize
}

extern "C" fn on_segv(_: i32, info: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let errno = *libc::__errno_location();
        let addr = (*info).si_addr() as usize;
        let (lo, hi) = range();
        if addr < lo || addr >= hi {
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        let uc = uc as *mut libc::ucontext_t;
        let write = (*uc).uc_mcontext.gregs[libc::REG_ERR as usize] & 2 != 0;
        let me = ME.get();
        if me > 0 {
            let word = (addr & !7) as u64;
            if shared().learning.load(SeqCst) == 1 {
                if write {
                    learn(word);
                }
            } else if write || is_written(word) {
                stop_here(me - 1, (*uc).uc_mcontext.gregs[libc::REG_RIP as usize] as u64 ^ word << 20);
            }
        }
        protect(libc::PROT_READ | libc::PROT_WRITE);
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
        *libc::__errno_location() = errno;
    }
}

extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let errno = *libc::__errno_location();
        let uc = uc as *mut libc::ucontext_t;
        (*uc).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        if shared().armed.load(SeqCst) == 1 {
            protect(libc::PROT_NONE);
        }
        *libc::__errno_location() = errno;
    }
}

/// Maps the shared page and installs the handlers, once per process.
fn install() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| unsafe {
        let p = libc::mmap(
            AT as *mut _,
            PAGE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(p as usize == AT, "cannot map the scheduler page");
        for (sig, f) in [(libc::SIGSEGV, on_segv as usize), (libc::SIGTRAP, on_trap as usize)] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = f;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            libc::sigemptyset(&mut a.sa_mask);
            assert!(libc::sigaction(sig, &a, std::ptr::null_mut()) == 0);
        }
    });
}

pub struct Run<R> {
    pub results: Vec<std::thread::Result<R>>,
    /// accesses to shared memory executed
    pub steps: u64,
    /// hashes of the scheduling states passed (positions of all threads)
    pub states: Vec<u64>,
    /// who executed, in order
    pub trace: Vec<u8>,
    /// a thread did not reach its next access in time (it waits for another one)
    pub blocked: bool,
}

/// Runs the bodies under the schedule the chooser selects, with at most `bound` preemptions.
pub fn run<R: Send>(ch: &mut Chooser, bound: usize, bodies: Vec<Box<dyn FnOnce() -> R + Send>>) -> Run<R> {
    install();
    pin();
    let n = bodies.len();
    assert!(n <= MAX);
    let s = shared();
    for i in 0..MAX {
        s.state[i].store(STARTING, SeqCst);
        s.points[i].store(0, SeqCst);
    }
    let mut out = Run { results: vec![], steps: 0, states: Vec::with_capacity(64), trace: Vec::with_capacity(64), blocked: false };
    std::thread::scope(|scope| {
        let mut hs = Vec::new();
        for (i, b) in bodies.into_iter().enumerate() {
            hs.push(scope.spawn(move || {
                // warm up lazily initialised thread state before scheduling starts
                drop(format!("{:p}", &i));
                let s = shared();
                publish(i, WAITING);
                while s.state[i].load(SeqCst) != RUNNING {
                    sleep_on(&s.state[i], WAITING, 1_000_000_000);
                }
                ME.set(i + 1);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                ME.set(0);
                publish(i, DONE);
                // keep thread teardown out of the schedule
                while s.armed.load(SeqCst) == 1 {
                    sleep_on(&s.armed, 1, 1_000_000_000);
                }
                r
            }));
        }
        for i in 0..n {
            while s.state[i].load(SeqCst) == STARTING {
                sleep_on(&s.state[i], STARTING, 1_000_000_000);
            }
        }
        s.armed.store(1, SeqCst);
        protect(libc::PROT_NONE);
        let mut last: Option<usize> = None;
        let mut left = bound;
        let mut seen: Vec<u64> = Vec::with_capacity(256);
        let mut spun: Option<usize> = None;
        let mut ran = [0u64; MAX];
        let mut stuck = [false; MAX];
        loop {
            for (i, st) in stuck.iter_mut().enumerate().take(n) {
                if s.state[i].load(SeqCst) != RUNNING {
                    *st = false;
                }
            }
            // a thread back at the same access again and again waits for another one: let that one go on
            if let Some(l) = last {
                if s.state[l].load(SeqCst) == WAITING {
                    seen.push(s.at[l].load(SeqCst));
                    let here = *seen.last().unwrap();
                    if seen.iter().filter(|x| **x == here).count() > SPIN
                        && (0..n).any(|i| i != l && s.state[i].load(SeqCst) == WAITING)
                    {
                        spun = Some(l);
                    }
                }
            }
            let ready: Vec<usize> = (0..n).filter(|i| s.state[*i].load(SeqCst) == WAITING).collect();
            if ready.is_empty() {
                if (0..n).all(|i| s.state[i].load(SeqCst) == DONE) {
                    break;
                }
                unsafe { libc::sched_yield() };
                continue;
            }
            // the thread that ran last goes on for free, moving to another one costs a preemption
            let mut opts: Vec<usize> = Vec::new();
            let mut free = true;
            if let Some(l) = last {
                if ready.contains(&l) && spun != Some(l) {
                    opts.push(l);
                    free = false;
                }
            }
            if free || left > 0 {
                opts.extend(ready.iter().filter(|i| Some(**i) != last));
            }
            if spun.is_some() {
                // no choice here: whoever waited longest goes on, so that spinning threads cannot feed each other
                opts.sort_by_key(|i| ran[*i]);
                opts.truncate(1);
            }
            let pick = if opts.len() == 1 { opts[0] } else { opts[ch.choose(opts.len())] };
            if !free && Some(pick) != last {
                left -= 1;
            }
            if Some(pick) != last {
                seen.clear();
            }
            spun = None;
            last = Some(pick);
            ran[pick] = out.steps + 1;
            out.trace.push(pick as u8);
            out.steps += 1;
            let mut key = [0u8; 8 * MAX + 1];
            for i in 0..n {
                key[8 * i..8 * i + 8].copy_from_slice(&s.points[i].load(SeqCst).to_le_bytes());
            }
            key[8 * MAX] = pick as u8;
            out.states.push(hash64(&key));
            publish(pick, RUNNING);
            let t0 = now();
            while s.state[pick].load(SeqCst) == RUNNING {
                sleep_on(&s.state[pick], RUNNING, 50_000_000);
                if now() - t0 > 50_000_000 {
                    stuck[pick] = true;
                    out.blocked = true;
                    break;
                }
            }
        }
        s.armed.store(0, SeqCst);
        protect(libc::PROT_READ | libc::PROT_WRITE);
        unsafe {
            libc::syscall(libc::SYS_futex, &s.armed as *const AtomicU32, libc::FUTEX_WAKE, i32::MAX, 0, 0, 0);
        }
        for h in hs {
            out.results.push(match h.join() {
                Ok(r) => r,
                Err(e) => Err(e),
            });
        }
    });
    out
}

fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}
