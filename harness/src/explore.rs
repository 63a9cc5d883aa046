//! Stateless exhaustive explorer.
//!
//! A driver is a function of a `Chooser`. Every leaf of the choice tree is executed exactly once; the
//! tree is walked in parallel by handing out choice prefixes.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};

pub struct Chooser {
    prefix: Vec<u16>,
    trace: Vec<(u16, u16)>,
    slot: Option<crate::slots::SlotRef>,
}

impl Chooser {
    pub fn new(prefix: Vec<u16>, slot: Option<crate::slots::SlotRef>) -> Self {
        if let Some(s) = slot {
            s.begin();
        }
        Chooser { prefix, trace: Vec::new(), slot }
    }
    /// Nondeterministic choice of a number in 0..n.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0 && n < 65536, "choose({n})");
        let i = self.trace.len();
        let v = if i < self.prefix.len() {
            let v = self.prefix[i];
            if v as usize >= n {
                panic!("MC-DIVERGENCE: replayed choice {v} of arity {n} at {i}");
            }
            v
        } else {
            0
        };
        self.trace.push((v, n as u16));
        if let Some(s) = self.slot {
            s.push(v);
        }
        v as usize
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.choose(xs.len());
        &xs[i]
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Names the case that is about to run, for the watchdog.
    pub fn risk(&self, key: &str) {
        if let Some(s) = self.slot {
            s.key(key);
        }
    }
    pub fn choices(&self) -> Vec<u16> {
        self.trace.iter().map(|t| t.0).collect()
    }
    /// The next sequence of choices in order, after one has run to its end.
    pub fn next(&self) -> Option<Vec<u16>> {
        let i = self.trace.iter().rposition(|(v, n)| v + 1 < *n)?;
        let mut c: Vec<u16> = self.choices()[..=i].to_vec();
        c[i] += 1;
        Some(c)
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Leaf {
    pub label: String,
    pub skip: bool,
    pub violations: Vec<Violation>,
    pub states: Vec<u64>,
    pub transitions: u64,
    pub validated: u64,
    pub evals: u64,
    pub outcome: String,
    /// Extra distinct case labels when one leaf holds several cases.
    pub cases: Vec<u64>,
}

impl Leaf {
    pub fn fail(&mut self, key: impl Into<String>, msg: impl Into<String>) {
        let key = sanitize(&key.into());
        if !self.violations.iter().any(|v| v.key == key) {
            self.violations.push(Violation { key, msg: msg.into() });
        }
    }
}

pub fn sanitize(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_ascii_graphic() { c } else if c == ' ' { '_' } else { '?' })
        .take(160)
        .collect()
}

pub type Driver = Box<dyn Fn(&mut Chooser, &mut Leaf) + Sync + Send>;

pub struct Phase {
    pub name: &'static str,
    pub rule: String,
    pub driver: Driver,
    /// Upper limit for the time of one leaf, seconds.
    pub leaf_limit: u64,
    pub threads: usize,
}

impl Phase {
    pub fn new(
        name: &'static str,
        rule: impl Into<String>,
        driver: impl Fn(&mut Chooser, &mut Leaf) + Sync + Send + 'static,
    ) -> Self {
        Phase { name, rule: rule.into(), driver: Box::new(driver), leaf_limit: 20, threads: 0 }
    }
    pub fn limit(mut self, secs: u64) -> Self {
        self.leaf_limit = secs;
        self
    }
    pub fn single_thread(mut self) -> Self {
        self.threads = 1;
        self
    }
}

#[derive(Default)]
pub struct Stats {
    pub leaves: u64,
    pub evals: u64,
    pub skipped: u64,
    pub choices: u64,
    pub transitions: u64,
    pub validated: u64,
    pub labels: HashSet<u64>,
    pub states: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    /// key -> (choices, msg, label, count)
    pub found: BTreeMap<String, (Vec<u16>, String, String, u64)>,
    pub engine_errors: Vec<String>,
    pub complete: bool,
}

pub fn hash64(s: &[u8]) -> u64 {
    // FNV-1a with a final mix; used only to count distinct labels/states.
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h = h.wrapping_mul(0xd6e8feb86659fd93);
    h ^ (h >> 32)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} @ {loc}"));
        if !QUIET.with(|q| q.get()) {
            default(info);
        }
    }));
}

/// Runs code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// Panic text without the source position, so keys survive line shifts.
pub fn panic_class(msg: &str) -> String {
    let m = msg.split(" @ ").next().unwrap_or("");
    let m: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let m = m.lines().next().unwrap_or("").to_string();
    let mut out = String::new();
    for c in m.chars() {
        if c == '#' && out.ends_with('#') {
            continue;
        }
        out.push(c);
    }
    let out: String = out.chars().take(60).collect();
    format!("panic[{out}]")
}

pub fn run_leaf(driver: &Driver, ch: &mut Chooser) -> Result<Leaf, String> {
    let mut leaf = Leaf { evals: 0, ..Default::default() };
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(|| driver(ch, &mut leaf)));
    QUIET.with(|q| q.set(old));
    match r {
        Ok(()) => Ok(leaf),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            let loc = m.rsplit(" @ ").next().unwrap_or("").to_string();
            if m.starts_with("MC-DIVERGENCE") || loc.starts_with("src/") {
                Err(m)
            } else {
                // Not guarded by the driver, but raised by the code under test.
                leaf.fail(panic_class(&m), m);
                Ok(leaf)
            }
        }
    }
}

struct Queue {
    work: Vec<Vec<u16>>,
    busy: usize,
    stop: bool,
}

pub struct ExploreOpts {
    pub threads: usize,
    pub max_unlisted: usize,
    pub listed: HashSet<String>,
    pub skip: HashSet<Vec<u16>>,
    pub deadline: std::time::Instant,
}

pub fn explore(phase: &Phase, opts: &ExploreOpts, slots: Option<&crate::slots::Slots>) -> Stats {
    let q = Mutex::new(Queue { work: vec![vec![]], busy: 0, stop: false });
    let cv = Condvar::new();
    let total = Mutex::new(Stats { complete: true, ..Default::default() });
    std::thread::scope(|sc| {
        for t in 0..opts.threads {
            let q = &q;
            let cv = &cv;
            let total = &total;
            let slot = slots.map(|s| s.slot(t));
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut st = Stats::default();
                    loop {
                        let prefix = {
                            let mut g = q.lock().unwrap();
                            loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(p) = g.work.pop() {
                                    g.busy += 1;
                                    break Some(p);
                                }
                                if g.busy == 0 {
                                    break None;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let Some(prefix) = prefix else { break };
                        // Work through this prefix's subtree locally, sharing the shallow alternatives.
                        let mut local = vec![prefix];
                        while let Some(prefix) = local.pop() {
                            let plen = prefix.len();
                            let mut ch = Chooser::new(prefix, slot);
                            let res = run_leaf(&phase.driver, &mut ch);
                            if let Some(s) = slot {
                                s.end();
                            }
                            let choices = ch.choices();
                            let mut alts = Vec::new();
                            for i in plen..ch.trace.len() {
                                for alt in (1..ch.trace[i].1).rev() {
                                    let mut p = choices[..i].to_vec();
                                    p.push(alt);
                                    alts.push(p);
                                }
                            }
                            if !alts.is_empty() {
                                let mut g = q.lock().unwrap();
                                if g.work.len() < 4 * opts.threads {
                                    g.work.append(&mut alts);
                                    cv.notify_all();
                                } else {
                                    drop(g);
                                    local.append(&mut alts);
                                }
                            }
                            let skipped = opts.skip.contains(&choices);
                            match res {
                                Err(m) => {
                                    if st.engine_errors.len() < 5 {
                                        st.engine_errors.push(format!("{} {:?}: {m}", phase.name, choices));
                                    }
                                    q.lock().unwrap().stop = true;
                                    cv.notify_all();
                                }
                                Ok(leaf) if leaf.skip || skipped => st.skipped += 1,
                                Ok(leaf) => {
                                    st.leaves += 1;
                                    st.evals += leaf.evals.max(1);
                                    st.choices += choices.len() as u64;
                                    st.transitions += leaf.transitions;
                                    st.validated += leaf.validated;
                                    st.labels.insert(hash64(leaf.label.as_bytes()));
                                    for c in &leaf.cases {
                                        st.labels.insert(*c);
                                    }
                                    for s in &leaf.states {
                                        st.states.insert(*s);
                                    }
                                    if !leaf.outcome.is_empty() && st.outcomes.len() < 200 {
                                        *st.outcomes.entry(leaf.outcome.clone()).or_insert(0) += 1;
                                    }
                                    if st.leaves.is_power_of_two() && st.samples.len() < 12 {
                                        st.samples.push(format!("{}: {}", phase.name, leaf.label));
                                    }
                                    for v in leaf.violations {
                                        if let Some(e) = st.found.get_mut(&v.key) {
                                            e.3 += 1;
                                        } else {
                                            st.found.insert(v.key, (choices.clone(), v.msg, leaf.label.clone(), 1));
                                            let un = st.found.keys().filter(|k| !opts.listed.contains(*k)).count();
                                            if un >= opts.max_unlisted {
                                                st.complete = false;
                                                q.lock().unwrap().stop = true;
                                                cv.notify_all();
                                            }
                                        }
                                    }
                                }
                            }
                            if std::time::Instant::now() > opts.deadline {
                                let mut g = q.lock().unwrap();
                                g.stop = true;
                                cv.notify_all();
                            }
                            if q.lock().unwrap().stop {
                                break;
                            }
                        }
                        let mut g = q.lock().unwrap();
                        if !local.is_empty() {
                            st.complete = false;
                        }
                        g.busy -= 1;
                        if g.busy == 0 {
                            cv.notify_all();
                        }
                    }
                    let mut tot = total.lock().unwrap();
                    merge(&mut tot, st);
                })
                .unwrap();
        }
    });
    let mut st = total.into_inner().unwrap();
    let q = q.into_inner().unwrap();
    if !q.work.is_empty() || q.stop {
        st.complete = false;
    }
    st
}

fn merge(a: &mut Stats, b: Stats) {
    a.leaves += b.leaves;
    a.evals += b.evals;
    a.skipped += b.skipped;
    a.choices += b.choices;
    a.transitions += b.transitions;
    a.validated += b.validated;
    a.labels.extend(b.labels);
    a.states.extend(b.states);
    for (k, v) in b.outcomes {
        *a.outcomes.entry(k).or_insert(0) += v;
    }
    a.samples.extend(b.samples);
    for (k, v) in b.found {
        match a.found.get_mut(&k) {
            Some(e) => {
                e.3 += v.3;
                if (v.0.len(), &v.0) < (e.0.len(), &e.0) {
                    e.0 = v.0;
                    e.1 = v.1;
                    e.2 = v.2;
                }
            }
            None => {
                a.found.insert(k, v);
            }
        }
    }
    a.engine_errors.extend(b.engine_errors);
}
