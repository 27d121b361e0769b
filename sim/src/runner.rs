//! Batches of runs: sharding over worker processes, watchdog, minimisation, replay, evidence.

use crate::choice::Choices;
use crate::props::{self, Prop};
use crate::run::{guarded, Outcome, Run, Violation};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub verif: PathBuf,
    pub runs: Option<u64>,
    pub workers: usize,
}

fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    simrt::rng::mix(simrt::rng::mix(seed, h), index)
}

/// Everything one execution of a scenario yields.
pub struct Done {
    pub outcome: Outcome,
    pub run: Run,
    pub digest: u64,
}

pub fn execute(p: &Prop, choices: Choices, trace: bool) -> Done {
    let mut run = Run::new(choices, trace);
    let outcome = match guarded(|| (p.run)(&mut run)) {
        Ok(o) => o,
        Err(pn) if pn.location.contains("/repo/") => crate::run::violation(
            pn.class(),
            format!("panicked at {}: {}", pn.location, pn.message),
        ),
        Err(pn) => {
            // a panic on the simulator's own thread: a harness error, never a verdict on the code
            eprintln!(
                "harness error in {}: {} at {}",
                p.id, pn.message, pn.location
            );
            std::process::exit(3);
        }
    };
    if let Err(v) = &outcome {
        run.log(|| format!("VIOLATION [{}] {}", v.class, v.detail));
    }
    let digest = {
        let mut d = run.sh.0.lock().unwrap().digest;
        let tag = match &outcome {
            Ok(()) => "ok".to_string(),
            Err(v) => v.class.clone(),
        };
        for b in tag.bytes() {
            d = (d ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        d
    };
    Done {
        outcome,
        run,
        digest,
    }
}

// ------------------------------------------------------------------------------------------------
// Known findings
// ------------------------------------------------------------------------------------------------

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub class: String,
    pub needle: String,
    pub what: String,
}

/// Lines `known: property=<id> | class=<class> | detail~<substring> | <what fails>`.
pub fn known_findings(verif: &Path, prop: &str) -> Vec<Known> {
    let text = fs::read_to_string(verif.join("KNOWN_FINDINGS")).unwrap_or_default();
    let mut out = Vec::new();
    for l in text.lines() {
        let l = match l.strip_prefix("known: ") {
            Some(l) => l,
            None => continue,
        };
        let f: Vec<&str> = l.split(" | ").collect();
        if f.len() != 4 {
            continue;
        }
        let k = Known {
            property: f[0].trim_start_matches("property=").to_string(),
            class: f[1].trim_start_matches("class=").to_string(),
            needle: f[2].trim_start_matches("detail~").to_string(),
            what: f[3].to_string(),
        };
        if k.property == prop {
            out.push(k);
        }
    }
    out
}

pub fn is_known(known: &[Known], v: &Violation) -> bool {
    known
        .iter()
        .any(|k| k.class == v.class && v.detail.contains(&k.needle))
}

// ------------------------------------------------------------------------------------------------
// Worker
// ------------------------------------------------------------------------------------------------

fn set_progress(fd: i32, v: u64) {
    unsafe {
        libc::syscall(
            libc::SYS_pwrite64,
            fd,
            &v as *const u64 as *const libc::c_void,
            8usize,
            0i64,
        );
    }
}

pub fn worker(a: &Args, shard: u64, shards: u64, total: u64, deadline: f64, out: &Path) -> i32 {
    let p = props::find(&a.prop).expect("property");
    let known = known_findings(&a.verif, &a.prop);
    let start = Instant::now();
    let progress = fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(true)
        .open(out.join(format!("p{shard}")))
        .expect("progress");
    let pfd = {
        use std::os::fd::AsRawFd;
        progress.as_raw_fd()
    };
    if !p.own_processes() {
        props::warm_up();
    }
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut lives) = (0u64, 0u64);
    let mut known_hits = 0u64;
    let mut unrepeatable = 0u64;
    let mut found: Vec<J> = Vec::new();
    let mut samples: Vec<J> = Vec::new();
    let (mut rechecked, mut diverged) = (0u64, 0u64);
    let mut truncated = false;
    let mut i = shard;
    while i < total {
        if start.elapsed().as_secs_f64() > deadline {
            truncated = true;
            break;
        }
        set_progress(pfd, i + 1);
        let seed = run_seed(&a.prop, a.seed, i);
        let want_sample = samples.len() < 1 && i >= shards;
        let d = execute(p, Choices::search(seed), want_sample);
        runs += 1;
        {
            let st = d.run.sh.0.lock().unwrap();
            steps += st.steps;
            lives += st.incarnations;
            for (k, v) in &st.faults {
                *faults.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &st.probes {
                *probes.entry(k.clone()).or_insert(0) += v;
            }
            if want_sample && d.run.nontrivial {
                let t: Vec<String> = st
                    .trace
                    .iter()
                    .flatten()
                    .take(24)
                    .map(|l| l.chars().take(220).collect())
                    .collect();
                samples.push(json!({ "run": i, "seed": format!("{seed:#018x}"), "trace": t }));
            }
        }
        if d.run.nontrivial {
            nontrivial += 1;
            digests.insert(d.digest);
        }
        // the simulator's own determinism, on a sample
        if runs % p.recheck == 0 {
            let e = execute(p, Choices::search(seed), false);
            rechecked += 1;
            if e.digest != d.digest {
                diverged += 1;
            }
        }
        if let Err(v) = &d.outcome {
            if is_known(&known, v) {
                known_hits += 1;
            } else if execute(p, Choices::replay(&d.run.c.tape), false)
                .outcome
                .err()
                .map(|e| e.class)
                != Some(v.class.clone())
            {
                // it owed something to the runs before it in this process: not a repeatable execution
                unrepeatable += 1;
            } else {
                found.push(json!({
                    "run": i, "class": v.class, "detail": v.detail, "tape": d.run.c.tape,
                }));
                break;
            }
        }
        i += shards;
    }
    set_progress(pfd, 0);
    let res = json!({
        "runs": runs, "nontrivial": nontrivial,
        "digests": digests.iter().collect::<Vec<_>>(),
        "faults": faults, "probes": probes, "steps": steps, "lives": lives,
        "known_hits": known_hits, "unrepeatable": unrepeatable, "found": found, "samples": samples,
        "rechecked": rechecked, "diverged": diverged, "truncated": truncated,
    });
    fs::write(out.join(format!("r{shard}.json")), res.to_string()).expect("result");
    crate::cli::cleanup();
    0
}

// ------------------------------------------------------------------------------------------------
// Single executions in a process of their own
// ------------------------------------------------------------------------------------------------

/// `dst one`: run a tape (or seed) and report the outcome on fd 3-free plain stdout as JSON.
pub fn one(a: &Args, choices: Choices, trace: bool) -> i32 {
    let p = props::find(&a.prop).expect("property");
    if !p.own_processes() {
        props::warm_up();
    }
    let d = execute(p, choices, trace);
    let st = d.run.sh.0.lock().unwrap();
    let o = match &d.outcome {
        Ok(()) => json!({ "violation": null, "digest": d.digest, "trace": st.trace, "tape": d.run.c.tape }),
        Err(v) => json!({
            "violation": { "class": v.class, "detail": v.detail },
            "digest": d.digest, "trace": st.trace, "tape": d.run.c.tape,
        }),
    };
    println!("{o}");
    crate::cli::cleanup();
    0
}

enum Ended {
    Report(J),
    Died(String),
    Hung,
    HarnessError,
}

fn exe() -> PathBuf {
    std::env::current_exe().expect("exe")
}

fn wait_limit(mut c: Child, limit: Duration) -> (Option<std::process::ExitStatus>, Vec<u8>) {
    use std::io::Read;
    let mut out = c.stdout.take();
    let reader = std::thread::spawn(move || {
        let mut v = Vec::new();
        if let Some(o) = &mut out {
            let _ = o.read_to_end(&mut v);
        }
        v
    });
    let t = Instant::now();
    let st = loop {
        match c.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ => {
                if t.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    break None;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    };
    (st, reader.join().unwrap_or_default())
}

fn run_one(a: &Args, mode: &[String], limit: Duration) -> Ended {
    let c = Command::new(exe())
        .arg("one")
        .arg("--property")
        .arg(&a.prop)
        .arg("--verif")
        .arg(&a.verif)
        .args(mode)
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let (st, out) = wait_limit(c, limit);
    match st {
        None => Ended::Hung,
        Some(s) if s.success() => match serde_json::from_slice(&out) {
            Ok(j) => Ended::Report(j),
            Err(_) => Ended::HarnessError,
        },
        Some(s) => {
            use std::os::unix::process::ExitStatusExt;
            match s.signal() {
                Some(sig) => Ended::Died(format!("killed by signal {sig}")),
                None if s.code() == Some(3) => Ended::HarnessError,
                None => Ended::Died(format!("exit {:?}", s.code())),
            }
        }
    }
}

const HANG: Duration = Duration::from_secs(40);

fn class_of(e: &Ended) -> Option<(String, String)> {
    match e {
        Ended::Report(j) => j["violation"].as_object().map(|v| {
            (
                v["class"].as_str().unwrap_or("").to_string(),
                v["detail"].as_str().unwrap_or("").to_string(),
            )
        }),
        Ended::Died(w) => Some(("process died".into(), w.clone())),
        Ended::Hung => Some(("no termination".into(), "the run never ended".into())),
        Ended::HarnessError => None,
    }
}

// ------------------------------------------------------------------------------------------------
// Minimisation
// ------------------------------------------------------------------------------------------------

fn shrink_tape(tape: Vec<u64>, budget: Duration, mut bad: impl FnMut(&[u64]) -> bool) -> (Vec<u64>, u64) {
    let t0 = Instant::now();
    let mut best = tape;
    let mut tried = 0u64;
    // trailing part first: the shortest failing prefix
    let mut lo = 0usize;
    let mut hi = best.len();
    while lo < hi && t0.elapsed() < budget {
        let mid = (lo + hi) / 2;
        tried += 1;
        if bad(&best[..mid]) {
            hi = mid;
        } else {
            lo = mid + 1;
        }
    }
    if hi < best.len() {
        tried += 1;
        if bad(&best[..hi]) {
            best.truncate(hi);
        }
    }
    loop {
        let before = best.clone();
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best.len() && t0.elapsed() < budget {
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                tried += 1;
                if bad(&cand) {
                    best = cand;
                    continue;
                }
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut cand = best.clone();
                    for v in &mut cand[i..end] {
                        *v = 0;
                    }
                    tried += 1;
                    if bad(&cand) {
                        best = cand;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if t0.elapsed() > budget {
                break;
            }
            for v in [best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut cand = best.clone();
                    cand[i] = v;
                    tried += 1;
                    if bad(&cand) {
                        best = cand;
                    }
                }
            }
        }
        while best.last() == Some(&0) {
            best.pop();
        }
        if best == before || t0.elapsed() > budget {
            return (best, tried);
        }
    }
}

/// `dst shrink`: in-process minimisation (the violation does not end the process).
pub fn shrink(a: &Args, tape: Vec<u64>, class: &str, budget: f64) -> i32 {
    let p = props::find(&a.prop).expect("property");
    if !p.own_processes() {
        props::warm_up();
    }
    let known = known_findings(&a.verif, &a.prop);
    let (best, tried) = shrink_tape(tape, Duration::from_secs_f64(budget), |t| {
        match execute(p, Choices::replay(t), false).outcome {
            Err(v) => v.class == class && !is_known(&known, &v),
            Ok(()) => false,
        }
    });
    println!("{}", json!({ "tape": best, "tried": tried }));
    0
}

// ------------------------------------------------------------------------------------------------
// The check
// ------------------------------------------------------------------------------------------------

struct Found {
    run: u64,
    class: String,
    detail: String,
    tape: Option<Vec<u64>>,
}

pub fn check(a: &Args) -> i32 {
    let p = match props::find(&a.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", a.prop);
            return 2;
        }
    };
    let t0 = Instant::now();
    println!("VERIF_SEED={} property={} tier={}", a.seed, a.prop, a.tier);
    let thorough = a.tier == "thorough";
    let total = a
        .runs
        .unwrap_or(if thorough { p.quick_runs * 40 } else { p.quick_runs });
    let deadline = if thorough { 1500.0 } else { 240.0 };
    let tmp = a
        .verif
        .join("target")
        .join(format!("dst-{}-{}", a.prop, std::process::id()));
    let _ = fs::remove_dir_all(&tmp);
    fs::create_dir_all(&tmp).expect("scratch");
    let shards = a.workers as u64;
    let mut kids: Vec<Option<Child>> = (0..shards)
        .map(|s| {
            Some(
                Command::new(exe())
                    .args([
                        "worker",
                        "--property",
                        &a.prop,
                        "--tier",
                        &a.tier,
                        "--seed",
                        &a.seed.to_string(),
                        "--shard",
                        &s.to_string(),
                        "--shards",
                        &shards.to_string(),
                        "--total",
                        &total.to_string(),
                        "--deadline",
                        &deadline.to_string(),
                        "--out",
                        tmp.to_str().unwrap(),
                        "--verif",
                        a.verif.to_str().unwrap(),
                    ])
                    .stdout(Stdio::null())
                    .spawn()
                    .expect("worker"),
            )
        })
        .collect();
    let mut last: Vec<(u64, Instant)> = vec![(0, Instant::now()); shards as usize];
    let mut found: Vec<Found> = Vec::new();
    let mut harness_errors = 0;
    while kids.iter().any(|k| k.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for s in 0..shards as usize {
            let kid = match &mut kids[s] {
                Some(k) => k,
                None => continue,
            };
            let cur = fs::read(tmp.join(format!("p{s}")))
                .ok()
                .filter(|b| b.len() == 8)
                .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                .unwrap_or(0);
            if cur != last[s].0 {
                last[s] = (cur, Instant::now());
            }
            match kid.try_wait() {
                Ok(Some(st)) => {
                    kids[s] = None;
                    if !st.success() {
                        if st.code() == Some(3) || cur == 0 {
                            harness_errors += 1;
                        } else {
                            found.push(Found {
                                run: cur - 1,
                                class: "process died".into(),
                                detail: format!("worker ended with {st} in run {}", cur - 1),
                                tape: None,
                            });
                        }
                    }
                }
                _ => {
                    if cur != 0 && last[s].1.elapsed() > HANG {
                        let _ = kid.kill();
                        let _ = kid.wait();
                        kids[s] = None;
                        found.push(Found {
                            run: cur - 1,
                            class: "no termination".into(),
                            detail: format!("run {} made no progress", cur - 1),
                            tape: None,
                        });
                    }
                }
            }
        }
    }

    // collect
    let mut unreproduced = 0;
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut digests: BTreeSet<u64> = BTreeSet::new();
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut lives, mut known_hits, mut rechecked, mut diverged) = (0, 0, 0, 0, 0);
    let mut samples: Vec<J> = Vec::new();
    let mut truncated = false;
    for s in 0..shards {
        let j: J = match fs::read(tmp.join(format!("r{s}.json")))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok())
        {
            Some(j) => j,
            None => continue,
        };
        let n = |k: &str| j[k].as_u64().unwrap_or(0);
        runs += n("runs");
        nontrivial += n("nontrivial");
        steps += n("steps");
        lives += n("lives");
        known_hits += n("known_hits");
        unreproduced += n("unrepeatable");
        rechecked += n("rechecked");
        diverged += n("diverged");
        truncated |= j["truncated"].as_bool().unwrap_or(false);
        digests.extend(j["digests"].as_array().into_iter().flatten().filter_map(|d| d.as_u64()));
        for (src, dst) in [("faults", &mut faults), ("probes", &mut probes)] {
            for (k, v) in j[src].as_object().into_iter().flatten() {
                *dst.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
            }
        }
        if samples.len() < 3 {
            samples.extend(j["samples"].as_array().cloned().unwrap_or_default());
        }
        for f in j["found"].as_array().into_iter().flatten() {
            found.push(Found {
                run: f["run"].as_u64().unwrap_or(0),
                class: f["class"].as_str().unwrap_or("").into(),
                detail: f["detail"].as_str().unwrap_or("").into(),
                tape: f["tape"]
                    .as_array()
                    .map(|t| t.iter().filter_map(|v| v.as_u64()).collect()),
            });
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    found.sort_by_key(|f| f.run);

    // confirm, minimise, confirm again
    let mut reported: Option<(String, String, PathBuf)> = None;
    if std::env::var_os("DST_CANDIDATES").is_some() {
        for f in &found {
            println!("candidate: run {} seed {:#x} {}: {}", f.run, run_seed(&a.prop, a.seed, f.run), f.class, f.detail);
        }
    }
    for f in &found {
        if reported.is_some() {
            break;
        }
        let seed = run_seed(&a.prop, a.seed, f.run);
        let tape = match &f.tape {
            Some(t) => t.clone(),
            None => {
                // recover the tape of a run that ended its process: it journals as it draws
                let jf = tmp.join("journal");
                let _ = fs::remove_file(&jf);
                let e = run_one(
                    a,
                    &[
                        "--seed".into(),
                        seed.to_string(),
                        "--journal".into(),
                        jf.to_str().unwrap().into(),
                    ],
                    HANG * 2,
                );
                match class_of(&e) {
                    Some((c, _)) if c == f.class => {}
                    _ => {
                        unreproduced += 1;
                        continue;
                    }
                }
                fs::read(&jf)
                    .unwrap_or_default()
                    .chunks_exact(8)
                    .map(|b| u64::from_le_bytes(b.try_into().unwrap()))
                    .collect()
            }
        };
        let tf = tmp.join("tape.json");
        let write_tape = |t: &[u64]| fs::write(&tf, json!(t).to_string()).expect("tape");
        let by_tape = |t: &[u64], limit: Duration, trace: bool| {
            write_tape(t);
            let mut m = vec!["--tape".to_string(), tf.to_str().unwrap().to_string()];
            if trace {
                m.push("--trace".into());
            }
            run_one(a, &m, limit)
        };
        let first = class_of(&by_tape(&tape, HANG * 2, false));
        if first.as_ref().map(|c| &c.0) != Some(&f.class) {
            unreproduced += 1;
            continue;
        }
        let in_process = f.tape.is_some();
        let mut best = tape.clone();
        let mut tried = 0;
        if in_process {
            write_tape(&tape);
            let c = Command::new(exe())
                .args([
                    "shrink",
                    "--property",
                    &a.prop,
                    "--tape",
                    tf.to_str().unwrap(),
                    "--class",
                    &f.class,
                    "--budget",
                    "25",
                    "--verif",
                    a.verif.to_str().unwrap(),
                ])
                .stdout(Stdio::piped())
                .stderr(Stdio::null())
                .spawn()
                .expect("shrink");
            let (st, out) = wait_limit(c, Duration::from_secs(70));
            if st.map(|s| s.success()).unwrap_or(false) {
                if let Ok(j) = serde_json::from_slice::<J>(&out) {
                    best = j["tape"]
                        .as_array()
                        .into_iter()
                        .flatten()
                        .filter_map(|v| v.as_u64())
                        .collect();
                    tried = j["tried"].as_u64().unwrap_or(0);
                }
            }
        } else if f.class == "process died" {
            let (b, t) = shrink_tape(tape.clone(), Duration::from_secs(25), |t| {
                class_of(&by_tape(t, Duration::from_secs(10), false)).map(|c| c.0)
                    == Some(f.class.clone())
            });
            best = b;
            tried = t;
        }
        // the reported file must fail the same way in a fresh process
        let mut last = by_tape(&best, HANG * 2, true);
        if class_of(&last).map(|c| c.0) != Some(f.class.clone()) {
            best = tape.clone();
            last = by_tape(&best, HANG * 2, true);
        }
        let (class, detail) = match class_of(&last) {
            Some(c) if c.0 == f.class => c,
            _ => {
                unreproduced += 1;
                continue;
            }
        };
        let trace = match &last {
            Ended::Report(j) => j["trace"].clone(),
            _ => J::Null,
        };
        let digest = match &last {
            Ended::Report(j) => j["digest"].clone(),
            _ => J::Null,
        };
        let dir = a.verif.join("evidence");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("replay-{}.json", a.prop));
        let doc = json!({
            "property": a.prop, "title": p.title, "verif_seed": a.seed, "run": f.run,
            "run_seed": seed, "class": class, "detail": detail, "digest": digest,
            "tape": best, "original_tape_length": tape.len(), "shrink_executions": tried,
            "trace": trace,
            "how_to_replay": "cd /verif && ./check.sh replay <this file>",
        });
        fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay");
        println!(
            "violation of {} ({}): run {} seed {:#x}, tape {} -> {} choices in {} executions",
            a.prop, p.title, f.run, seed, tape.len(), best.len(), tried
        );
        println!("  class: {class}");
        println!("  {}", detail.chars().take(1500).collect::<String>());
        reported = Some((class, detail, path));
    }
    let _ = fs::remove_dir_all(&tmp);

    let known = known_findings(&a.verif, &a.prop);
    let wall = t0.elapsed().as_secs_f64();
    let mut coverage = json!({
        "evaluations": runs,
        "distinct_nontrivial": digests.len(),
        "nontrivial_runs": nontrivial,
        "rule": format!("{} Distinct: by the hash of every simulated call, its outcome, the generated scenario and the verdict.", p.rule),
        "samples": samples.into_iter().take(3).collect::<Vec<_>>(),
        "simulated_runs_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        "seeds": runs,
        "seeds_per_hour": (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        "simulated_incarnations": lives,
        "simulated_calls": steps,
        "simulated_time": "none: no code under test reads a clock or sets a timer; simulated calls are the progress measure",
        "faults_fired": faults,
        "probes": probes,
        "determinism_rechecks": rechecked,
        "determinism_divergences": diverged,
        "known_finding_hits": known_hits,
        "unreproduced_candidates": unreproduced,
        "workers": shards,
        "stopped_by_wall_clock": truncated,
        "real_code": p.real,
        "stubs": p.stubs,
    });
    if let Some((class, detail, path)) = &reported {
        coverage["violation"] = json!({ "class": class, "detail": detail, "replay": path });
    }
    let ev = json!({
        "property": a.prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": a.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": reported.is_some() as u32,
    });
    let dir = a.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(
        dir.join(format!("{}.json", a.prop)),
        serde_json::to_string_pretty(&ev).unwrap(),
    )
    .expect("evidence");
    println!(
        "{}: {} runs ({} non-trivial, {} distinct), {} lives, {} calls, {} faults fired, {} determinism rechecks ({} diverged), {:.1}s",
        a.prop,
        runs,
        nontrivial,
        digests.len(),
        lives,
        steps,
        faults.values().sum::<u64>(),
        rechecked,
        diverged,
        wall
    );
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", k.property, k.what);
    }
    if let Some((_, _, path)) = reported {
        println!("VIOLATION property={} replay={}", a.prop, path.display());
        return 1;
    }
    if harness_errors > 0 || runs == 0 {
        eprintln!("harness error: {harness_errors} worker(s) failed");
        return 2;
    }
    if unreproduced > 0 {
        println!("note: {unreproduced} candidate(s) did not reproduce in a fresh process and were not reported");
    }
    0
}

/// `dst replay <file>`: run the recorded tape; 1 if it fails the same way.
pub fn replay(verif: &Path, file: &Path) -> i32 {
    let j: J = serde_json::from_slice(&fs::read(file).expect("replay file")).expect("json");
    let a = Args {
        prop: j["property"].as_str().unwrap().to_string(),
        tier: "quick".into(),
        seed: 0,
        verif: verif.to_path_buf(),
        runs: None,
        workers: 1,
    };
    let tf = std::env::temp_dir().join(format!("dst-replay-{}.json", std::process::id()));
    fs::write(&tf, j["tape"].to_string()).expect("tape");
    let e = run_one(
        &a,
        &["--tape".into(), tf.to_str().unwrap().into(), "--trace".into()],
        HANG * 2,
    );
    let _ = fs::remove_file(&tf);
    if let Ended::Report(r) = &e {
        for l in r["trace"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap_or(""));
        }
        if j["digest"] == r["digest"] {
            println!("event digest identical to the recorded run");
        }
    }
    match class_of(&e) {
        Some((c, d)) if Some(c.as_str()) == j["class"].as_str() => {
            println!("reproduced: {c}: {d}");
            println!("VIOLATION property={} replay={}", a.prop, file.display());
            1
        }
        Some((c, d)) => {
            println!("fails differently: {c}: {d}");
            2
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}
