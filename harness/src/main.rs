mod alloc;
mod checks;
mod corpus;
mod explore;
mod fault;
mod gen;
mod opc;
mod props;
mod sched;
mod slots;
mod vocab;
mod xml;
mod zipread;

use explore::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Hard wall-clock cap of one check, seconds (a run that hits it reports exhaustive=false).
const CHECK_CAP: u64 = 800;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub fn verif_dir() -> PathBuf {
    if let Ok(d) = std::env::var("VERIF_DIR") {
        return PathBuf::from(d);
    }
    PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
}

fn threads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
}

fn tier_from_env() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() -> ExitCode {
    install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a.as_slice() {
        ["check", id] => check(id),
        ["worker", id, phase, slots, out, skip] => worker(id, phase.parse().unwrap(), slots, out, skip),
        ["single", id, phase, choices] => single(id, phase, choices),
        ["replay", file] => replay(file),
        ["census"] => {
            checks::c16::child();
            ExitCode::SUCCESS
        }
        ["list"] => {
            for id in checks::ids() {
                println!("{id}");
            }
            ExitCode::SUCCESS
        }
        ["debug", rest @ ..] => {
            checks::debug(rest);
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: mc check <id> | replay <file> | list");
            ExitCode::from(2)
        }
    }
}

struct Known {
    /// key -> description
    listed: BTreeMap<String, String>,
}

fn load_known(id: &str) -> Known {
    let mut listed = BTreeMap::new();
    let p = verif_dir().join("known_findings.txt");
    if let Ok(s) = std::fs::read_to_string(p) {
        for line in s.lines() {
            let line = line.trim();
            let Some(rest) = line.strip_prefix("finding: ") else { continue };
            let mut it = rest.splitn(3, ' ');
            let (p, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p.strip_prefix("property=") == Some(id) {
                if let Some(k) = k.strip_prefix("key=") {
                    listed.insert(k.to_string(), d.to_string());
                }
            }
        }
    }
    Known { listed }
}

fn set_limits() {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 16 << 30, rlim_max: 16 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

fn worker(id: &str, phase: usize, slots_path: &str, out: &str, skip: &str) -> ExitCode {
    set_limits();
    let tier = tier_from_env();
    let phases = checks::phases(id, tier).expect("phases");
    let ph = &phases[phase];
    let n = if ph.threads > 0 { ph.threads } else { threads() };
    let slots = slots::Slots::open(slots_path, threads(), false).expect("slots");
    let known = load_known(id);
    let skip: HashSet<Vec<u16>> =
        serde_json::from_str::<Vec<Vec<u16>>>(skip).unwrap_or_default().into_iter().collect();
    let left: u64 = std::env::var("MC_LEFT").ok().and_then(|s| s.parse().ok()).unwrap_or(CHECK_CAP);
    let opts = ExploreOpts {
        threads: n,
        max_unlisted: std::env::var("MC_MAX_UNLISTED").ok().and_then(|s| s.parse().ok()).unwrap_or(12),
        listed: known.listed.keys().cloned().collect(),
        skip,
        deadline: Instant::now() + Duration::from_secs(left),
    };
    let st = explore(ph, &opts, Some(&slots));
    let found: Vec<Value> = st
        .found
        .iter()
        .map(|(k, (c, m, l, n))| json!({"key": k, "choices": c, "msg": m, "label": l, "count": n}))
        .collect();
    let v = json!({
        "leaves": st.leaves, "evals": st.evals, "skipped": st.skipped, "choices": st.choices,
        "transitions": st.transitions, "validated": st.validated, "labels": st.labels.len(),
        "states": st.states.len(), "outcomes": st.outcomes, "samples": st.samples,
        "found": found, "engine_errors": st.engine_errors, "complete": st.complete,
    });
    std::fs::write(out, serde_json::to_vec(&v).unwrap()).expect("out");
    ExitCode::SUCCESS
}

fn parse_choices(s: &str) -> Vec<u16> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn single(id: &str, phase: &str, choices: &str) -> ExitCode {
    set_limits();
    let phases = checks::phases(id, tier_from_env()).expect("phases");
    let ph = phases.iter().find(|p| p.name == phase).expect("phase");
    let choices = parse_choices(choices);
    // Same stack size as the explorer threads.
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, || {
                let mut ch = Chooser::new(choices, None);
                run_leaf(&ph.driver, &mut ch)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(leaf) => {
            println!("case: {}", leaf.label);
            for v in &leaf.violations {
                println!("{} :: {}", v.key, v.msg);
            }
            if leaf.violations.is_empty() {
                ExitCode::SUCCESS
            } else {
                ExitCode::from(1)
            }
        }
        Err(m) => {
            println!("engine panic: {m}");
            ExitCode::from(3)
        }
    }
}

fn replay(file: &str) -> ExitCode {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("file")).expect("json");
    let choices: Vec<String> =
        v["choices"].as_array().unwrap().iter().map(|c| c.as_u64().unwrap().to_string()).collect();
    let exe = std::env::current_exe().unwrap();
    let tier = v["tier"].as_str().unwrap_or("quick");
    let r = run_single(&exe, v["property"].as_str().unwrap(), v["phase"].as_str().unwrap(), &choices.join(","), tier, 60);
    match r {
        SingleOutcome::Exit(c, out) => {
            print!("{out}");
            ExitCode::from(c as u8)
        }
        SingleOutcome::Crash(sig) => {
            println!("crashed with signal {sig}");
            ExitCode::from(1)
        }
        SingleOutcome::Hang => {
            println!("did not terminate");
            ExitCode::from(1)
        }
    }
}

enum SingleOutcome {
    Exit(i32, String),
    Crash(i32),
    Hang,
}

fn run_single(exe: &Path, id: &str, phase: &str, choices: &str, tier: &str, secs: u64) -> SingleOutcome {
    use std::os::unix::process::ExitStatusExt;
    let mut c = Command::new(exe)
        .args(["single", id, phase, choices])
        .env("VERIF_TIER", tier)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t0 = Instant::now();
    loop {
        if let Some(st) = c.try_wait().expect("wait") {
            let mut out = String::new();
            use std::io::Read;
            let _ = c.stdout.take().unwrap().read_to_string(&mut out);
            return match st.signal() {
                Some(s) => SingleOutcome::Crash(s),
                None => SingleOutcome::Exit(st.code().unwrap_or(3), out),
            };
        }
        if t0.elapsed() > Duration::from_secs(secs) {
            let _ = c.kill();
            let _ = c.wait();
            return SingleOutcome::Hang;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

struct Found {
    key: String,
    msg: String,
    label: String,
    phase: String,
    choices: Vec<u16>,
    count: u64,
}

fn check(id: &str) -> ExitCode {
    let t0 = Instant::now();
    let tier = tier_from_env();
    let tier_s = if tier == Tier::Quick { "quick" } else { "thorough" };
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(phases) = checks::phases(id, tier) else {
        eprintln!("unknown check {id}");
        return ExitCode::from(2);
    };
    let meta = checks::meta(id);
    let known = load_known(id);
    let exe = std::env::current_exe().unwrap();
    let evdir = verif_dir().join("evidence");
    let repdir = evdir.join("replay");
    std::fs::create_dir_all(&repdir).expect("evidence dir");
    if let Ok(rd) = std::fs::read_dir(&repdir) {
        for e in rd.flatten() {
            if e.file_name().to_string_lossy().starts_with(&format!("{id}-")) {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    let work = std::env::temp_dir().join(format!("mc-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&work).expect("work dir");
    let slots_path = work.join("slots");
    let slots = slots::Slots::open(slots_path.to_str().unwrap(), threads(), true).expect("slots");

    let mut found: Vec<Found> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut phase_stats: Vec<Value> = Vec::new();
    let mut complete = true;
    let only = std::env::var("MC_PHASE").ok();
    let mut unlisted_crashes = 0;

    for (pi, ph) in phases.iter().enumerate() {
        if let Some(o) = &only {
            if o != ph.name {
                continue;
            }
        }
        let pt = Instant::now();
        let mut skip: Vec<Vec<u16>> = Vec::new();
        let mut restarts = 0;
        let res: Option<Value> = loop {
            let left = CHECK_CAP.saturating_sub(t0.elapsed().as_secs());
            if left < 5 {
                complete = false;
                break None;
            }
            let out = work.join(format!("out-{pi}"));
            let _ = std::fs::remove_file(&out);
            for i in 0..slots.n {
                slots.slot(i).end();
            }
            let mut child = Command::new(&exe)
                .args(["worker", id, &pi.to_string()])
                .arg(&slots_path)
                .arg(&out)
                .arg(serde_json::to_string(&skip).unwrap())
                .env("VERIF_TIER", tier_s)
                .env("MC_LEFT", left.to_string())
                .stderr(Stdio::null())
                .stdout(Stdio::null())
                .spawn()
                .expect("spawn worker");
            let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); slots.n];
            let mut stuck: Vec<usize> = Vec::new();
            let mut crashed = None;
            loop {
                if let Some(st) = child.try_wait().expect("wait") {
                    use std::os::unix::process::ExitStatusExt;
                    if let Some(s) = st.signal() {
                        crashed = Some(format!("signal {s}"));
                    } else if st.code() != Some(0) {
                        crashed = Some(format!("exit {:?}", st.code()));
                    }
                    break;
                }
                for i in 0..slots.n {
                    let (seq, active, _, _) = slots.slot(i).snapshot();
                    if seq != last[i].0 || !active {
                        last[i] = (seq, Instant::now());
                    } else if last[i].1.elapsed() > Duration::from_secs(ph.leaf_limit) {
                        stuck.push(i);
                    }
                }
                if !stuck.is_empty() {
                    let _ = child.kill();
                    let _ = child.wait();
                    break;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            if stuck.is_empty() && crashed.is_none() {
                break serde_json::from_slice(&std::fs::read(&out).expect("worker output")).ok();
            }
            // Which case is responsible? Re-run the active ones alone.
            let cands: Vec<usize> = if stuck.is_empty() {
                (0..slots.n).filter(|i| slots.slot(*i).snapshot().1).collect()
            } else {
                stuck.clone()
            };
            let mut confirmed = false;
            let mut seen_keys: HashSet<String> = HashSet::new();
            for i in cands {
                let (_, _, choices, key) = slots.slot(i).snapshot();
                let cs: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
                let what = match run_single(&exe, id, ph.name, &cs.join(","), tier_s, ph.leaf_limit * 2) {
                    SingleOutcome::Crash(s) => format!("crash-signal-{s}"),
                    SingleOutcome::Hang => "hang".to_string(),
                    SingleOutcome::Exit(..) => continue,
                };
                confirmed = true;
                skip.push(choices.clone());
                let k = sanitize(&format!("{what}@{}:{key}", ph.name));
                if !seen_keys.insert(k.clone()) {
                    continue;
                }
                if !known.listed.contains_key(&k) {
                    unlisted_crashes += 1;
                }
                found.push(Found {
                    key: k,
                    msg: format!("code under test: {what}"),
                    label: key,
                    phase: ph.name.into(),
                    choices,
                    count: 1,
                });
            }
            restarts += 1;
            if !confirmed {
                if restarts > 2 {
                    errors.push(format!("phase {}: worker died ({crashed:?}, stuck {stuck:?}), not reproduced alone", ph.name));
                    break None;
                }
                continue;
            }
            if unlisted_crashes >= 2 || restarts > 40 {
                complete = false;
                break None;
            }
        };
        let Some(v) = res else {
            complete = false;
            if unlisted_crashes >= 2 {
                break;
            }
            continue;
        };
        for f in v["found"].as_array().unwrap() {
            found.push(Found {
                key: f["key"].as_str().unwrap().into(),
                msg: f["msg"].as_str().unwrap().into(),
                label: f["label"].as_str().unwrap().into(),
                phase: ph.name.into(),
                choices: f["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect(),
                count: f["count"].as_u64().unwrap(),
            });
        }
        for e in v["engine_errors"].as_array().unwrap() {
            errors.push(e.as_str().unwrap().to_string());
        }
        if !v["complete"].as_bool().unwrap() {
            complete = false;
        }
        let wall = pt.elapsed().as_secs_f64();
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "phase {}: leaves {} evals {} labels {} states {} outcomes {} {:.1}s",
                ph.name, v["leaves"], v["evals"], v["labels"], v["states"], v["outcomes"], wall
            );
        }
        phase_stats.push(json!({"phase": ph.name, "rule": ph.rule, "r": v, "wall_s": wall}));
        let unl = found.iter().filter(|f| !known.listed.contains_key(&f.key)).count();
        if unl >= 12 && std::env::var("MC_MAX_UNLISTED").is_err() {
            complete = false;
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&work);

    // Verdict.
    let mut by_key: BTreeMap<String, Found> = BTreeMap::new();
    for f in found {
        match by_key.get_mut(&f.key) {
            Some(e) => e.count += f.count,
            None => {
                by_key.insert(f.key.clone(), f);
            }
        }
    }
    let mut so = std::io::stdout().lock();
    let mut n_unlisted = 0;
    let mut n_listed = 0;
    for (k, f) in &by_key {
        if let Some(d) = known.listed.get(k) {
            n_listed += 1;
            let _ = writeln!(so, "KNOWN-FINDING: property={id} {k} {d}");
            continue;
        }
        n_unlisted += 1;
        // Execute again for reproducibility (twice).
        let cs: Vec<String> = f.choices.iter().map(|c| c.to_string()).collect();
        let mut again = 0;
        if n_unlisted <= 4 && !f.key.starts_with("hang") {
            for _ in 0..2 {
                match run_single(&exe, id, &f.phase, &cs.join(","), tier_s, 60) {
                    SingleOutcome::Exit(1, _) | SingleOutcome::Crash(_) | SingleOutcome::Hang => again += 1,
                    _ => {}
                }
            }
        }
        let file = repdir.join(format!("{id}-{n_unlisted}.json"));
        let rep = json!({
            "property": id, "tier": tier_s, "phase": f.phase, "choices": f.choices, "key": f.key,
            "message": f.msg, "case": f.label, "reproduced": format!("{again}/2"),
            "replay_cmd": format!("harness/target/release/mc replay {}", file.display()),
        });
        let _ = std::fs::write(&file, serde_json::to_vec_pretty(&rep).unwrap());
        let _ = writeln!(so, "VIOLATION property={id} replay={}", file.display());
        let _ = writeln!(so, "  key: {k}\n  case: {}\n  {} (x{})", f.label, f.msg, f.count);
    }
    for e in &errors {
        let _ = writeln!(so, "ENGINE-ERROR: {e}");
    }

    // Evidence.
    let sum = |k: &str| -> u64 { phase_stats.iter().map(|p| p["r"][k].as_u64().unwrap_or(0)).sum() };
    let mut samples: Vec<Value> = Vec::new();
    for p in &phase_stats {
        for s in p["r"]["samples"].as_array().unwrap().iter().take(4) {
            samples.push(s.clone());
        }
    }
    samples.truncate(40);
    let per_phase: Vec<Value> = phase_stats
        .iter()
        .map(|p| {
            json!({"phase": p["phase"], "rule": p["rule"], "executions": p["r"]["leaves"], "cases": p["r"]["evals"],
                "distinct": p["r"]["labels"], "states": p["r"]["states"], "outcomes": p["r"]["outcomes"],
                "pruned": p["r"]["skipped"], "complete": p["r"]["complete"], "wall_s": p["wall_s"]})
        })
        .collect();
    let mut cov = json!({
        "samples": samples, "exhaustive": complete && errors.is_empty() && only.is_none(), "phases": per_phase,
        "known_findings_seen": n_listed,
    });
    let o = cov.as_object_mut().unwrap();
    if meta.level == "model_checking" {
        o.insert("states".into(), json!(sum("states")));
        o.insert("transitions".into(), json!(sum("transitions")));
        o.insert("traces_validated_against_impl".into(), json!(sum("validated")));
        o.insert("executions".into(), json!(sum("leaves")));
    } else {
        o.insert("evaluations".into(), json!(sum("evals")));
        o.insert("distinct_nontrivial".into(), json!(sum("labels")));
        let rule: Vec<String> =
            phase_stats.iter().map(|p| format!("[{}] {}", p["phase"].as_str().unwrap(), p["rule"].as_str().unwrap())).collect();
        o.insert("rule".into(), json!(format!("{} A case counts as distinct by its written-out label; every case runs the real code and is judged.", rule.join(" "))));
    }
    let ev = json!({
        "property": id, "tier": tier_s, "seed": seed, "level": meta.level, "coverage": cov,
        "assumptions": meta.assumptions, "wall_s": t0.elapsed().as_secs_f64(), "violations": n_unlisted,
    });
    if let Err(e) = std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()) {
        eprintln!("cannot write evidence: {e}");
        return ExitCode::from(2);
    }
    if n_unlisted > 0 {
        return ExitCode::from(1);
    }
    if !errors.is_empty() {
        return ExitCode::from(2);
    }
    let _ = writeln!(
        so,
        "OK property={id} executions={} cases={} distinct={} exhaustive={} wall={:.1}s",
        sum("leaves"),
        sum("evals"),
        sum("labels"),
        complete,
        t0.elapsed().as_secs_f64()
    );
    ExitCode::SUCCESS
}
