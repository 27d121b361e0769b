//! P17, P18: threads side by side, and instances used again.

use super::*;
use crate::gen;
use crate::mutate;
use crate::ops::{self, Bench, Kinds, Op, What, ALL_KINDS};
use crate::run::{violation, Shared};
use crate::sched::{self, Ended, Mode, Schedule};
use serde_json::{json, Value as J};
use std::time::Duration;

const LIMIT: Duration = Duration::from_secs(20);

/// What one process did.
struct Seen {
    results: Vec<Vec<String>>,
    stalled: bool,
    unjudged: bool,
    hash: u64,
    switches: u64,
    blocks: u64,
}

enum Process {
    Seen(Seen),
    Died(String),
}

/// One process: these scripts, each on its own thread, under this schedule.
fn process(run: &mut Run, name: &str, scripts: &[Vec<Op>], sch: &Schedule, warm: bool, reuse: bool, salt: u64) -> Process {
    let scripts: Vec<Vec<Op>> = scripts
        .iter()
        .map(|s| {
            s.iter()
                .cloned()
                .map(|mut o| {
                    o.plan.hash_seed ^= salt;
                    o
                })
                .collect()
        })
        .collect();
    let tracing = run.tracing();
    let rdf = scripts.iter().flatten().any(|o| {
        matches!(
            &o.what,
            What::Write { format: crate::formats::Format::Rdf(_), .. } | What::WriteFile { format: crate::formats::Format::Rdf(_), .. }
        )
    });
    run.log(|| format!("process {name}: {} thread(s), {sch:?}, warm {warm}, salt {salt:#x}", scripts.len()));
    let ended = sched::in_child(LIMIT, move || {
        if warm {
            warm_up_once(rdf);
        }
        let mut shs = Vec::new();
        let jobs: Vec<Box<dyn FnOnce() -> Vec<String> + Send>> = scripts
            .into_iter()
            .map(|script| {
                let sh: Shared = Run::new(crate::choice::Choices::replay(&[]), false).sh;
                shs.push(sh.clone());
                Box::new(move || {
                    let mut bench = Bench::new(reuse);
                    let mut out = Vec::new();
                    for op in &script {
                        let r = ops::perform(op, &mut bench, &sh);
                        let over = r.starts_with("panicked");
                        out.push(r);
                        if over {
                            // a thread does not outlive a panic
                            break;
                        }
                    }
                    out
                }) as Box<dyn FnOnce() -> Vec<String> + Send>
            })
            .collect();
        let ran = sched::run(sch, jobs);
        let mut faults = std::collections::BTreeMap::new();
        let mut calls = 0;
        for sh in &shs {
            if let Ok(s) = sh.0.try_lock() {
                for (k, v) in &s.faults {
                    *faults.entry(k.clone()).or_insert(0u64) += v;
                }
                calls += s.steps;
            }
        }
        json!({
            "results": ran.results, "stalled": ran.stalled, "unjudged": ran.unjudged,
            "hash": ran.hash, "switches": ran.switches, "blocks": ran.blocks,
            "points": ran.points, "faults": faults, "calls": calls,
            "log": if tracing { json!(ran.log) } else { J::Null },
        })
    });
    match ended {
        Ended::Report(j) => {
            {
                let mut st = run.sh.0.lock().unwrap();
                st.incarnations += 1;
                st.steps += j["points"].as_u64().unwrap_or(0) + j["calls"].as_u64().unwrap_or(0);
                for (k, v) in j["faults"].as_object().into_iter().flatten() {
                    *st.faults.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
                }
                if j["switches"].as_u64().unwrap_or(0) > 0 {
                    *st.faults.entry("schedule:switch".into()).or_insert(0) += j["switches"].as_u64().unwrap_or(0);
                }
            }
            if j["unjudged"] != json!(true) {
                run.mark(&j["hash"].as_u64().unwrap_or(0).to_le_bytes());
            }
            if let Some(l) = j["log"].as_array() {
                run.log(|| {
                    let v: Vec<String> = l.iter().map(|e| format!("@{} t{}->t{}", e[0], e[1], e[2])).collect();
                    format!("  {} points, {} switches: {}", j["points"], j["switches"], v.join(" "))
                });
            }
            Process::Seen(Seen {
                results: j["results"]
                    .as_array()
                    .into_iter()
                    .flatten()
                    .map(|t| t.as_array().into_iter().flatten().map(|r| r.as_str().unwrap_or("").to_string()).collect())
                    .collect(),
                stalled: j["stalled"] == json!(true),
                unjudged: j["unjudged"] == json!(true),
                hash: j["hash"].as_u64().unwrap_or(0),
                switches: j["switches"].as_u64().unwrap_or(0),
                blocks: j["blocks"].as_u64().unwrap_or(0),
            })
        }
        Ended::Signal(s) => Process::Died(format!("killed by signal {s}")),
        Ended::Hung => Process::Died("never ended".into()),
        Ended::Harness(e) => panic!("child process: {e}"),
    }
}

fn differ(a: &str, b: &str) -> String {
    let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let cut = |s: &str| -> String {
        let from = at.saturating_sub(80);
        String::from_utf8_lossy(&s.as_bytes()[from.min(s.len())..(at + 160).min(s.len())]).to_string()
    };
    format!("alone {:?}; here {:?}", cut(a), cut(b))
}

const ALONE: Schedule = Schedule { first: 0, mode: Mode::Switches(Vec::new()), fine: false };

// ------------------------------------------------------------------------------------------------
// P17
// ------------------------------------------------------------------------------------------------

pub static P17: Prop = Prop {
    id: "P17",
    title: "Concurrent use from several threads gives the results of separate use",
    run: run17,
    quick_runs: 9_000,
    recheck: 25,
    rule: "Two to four threads with drawn scripts (reading, writing, merging, assembling, linting, validating, checking names; some with failing or panicking streams) over different or nearly equal models run once each alone in a fresh process and then together in fresh processes under drawn schedules, switching at the edges between basic blocks of the code under test, allocations, stream calls, system calls and futex waits; non-trivial: at least one switch was made while a thread was in the middle of its script.",
    real: &["readers, writers, builder, merge, assembler, linters, validators, prelude and identifiers, with the process-wide tables, regexes and counters they share", "std locks, once cells and thread-locals"],
    stubs: &["thread scheduling (one thread at a time, chosen by the seed)", "futex waits", "the Read/Write arguments and the file system", "getrandom (hash keys)"],
    assumptions: &["interleavings at the granularity of the edges between basic blocks of the code under test, allocations, stream calls, system calls and lock waits; memory is sequentially consistent", "texts of errors and the order of parts are not compared"],
};

fn schedule(run: &mut Run, n: usize) -> Schedule {
    let c = &mut run.c;
    let first = c.size(n);
    // in builds that are not instrumented for it, this makes no difference
    let fine = c.below(2) == 1;
    let mode = match c.below(3) {
        0 => {
            let k = c.below(7);
            Mode::Switches(
                (0..k)
                    .map(|_| {
                        let bits = c.below(if fine { 22 } else { 18 });
                        (c.below(1 << bits), c.size(n))
                    })
                    .collect(),
            )
        }
        1 => Mode::Random { seed: c.seed(), ppm: *c.pick(&[100u64, 300, 1]) },
        _ if fine => Mode::Random { seed: c.seed(), ppm: *c.pick(&[300u64, 3000, 10_000]) },
        _ => Mode::Random { seed: c.seed(), ppm: *c.pick(&[1000u64, 20_000, 1000, 20_000, 5000, 200_000]) },
    };
    Schedule { first, mode, fine }
}

fn run17(run: &mut Run) -> Outcome {
    let n = run.c.range(2, 4) as usize;
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    mix.max_shapes = mix.max_shapes.min(9);
    mix.long_strings = false;
    mix.mild = run.c.below(4) < 3;
    mix.wild_keys &= !mix.mild;
    let base = ops::a_model(&mut run.c, &mix);
    let kinds: Vec<u64> = if run.c.below(2) == 1 {
        // everyone at the same kind of thing
        let k = *run.c.pick(ALL_KINDS);
        vec![k, k, *run.c.pick(ALL_KINDS)]
    } else {
        ALL_KINDS.to_vec()
    };
    let faults_pm = *run.c.pick(&[0u64, 200, 500]);
    let panics = run.c.below(2) == 1;
    let scripts: Vec<Vec<Op>> = (0..n)
        .map(|_| {
            let mine = match run.c.below(3) {
                0 => base.clone(),
                1 => {
                    let mut m = base.clone();
                    for _ in 0..run.c.range(1, 3) {
                        if let Some((_, x)) = mutate::one(&mut run.c, &mix, &m) {
                            m = x;
                        }
                    }
                    m
                }
                _ => ops::a_model(&mut run.c, &mix),
            };
            let k = run.c.range(1, 3);
            (0..k)
                .map(|_| {
                    let ks = Kinds { kinds: &kinds, faults_pm, panics };
                    if run.c.below(8) == 7 {
                        if let Some(o) = ops::assembly(run, &mine, &mix, faults_pm) {
                            return o;
                        }
                    }
                    let mut x = mix.clone();
                    ops::op(run, &mut x, &mine, &base, &ks)
                })
                .collect()
        })
        .collect();
    for (i, s) in scripts.iter().enumerate() {
        for o in s {
            run.probe(o.kind());
            let d = o.describe();
            run.mark(d.as_bytes());
            run.log(|| format!("thread {i}: {d}"));
        }
    }
    let warm = run.c.below(3) == 2;
    let mut alone: Vec<Vec<String>> = Vec::new();
    for s in &scripts {
        match process(run, "alone", std::slice::from_ref(s), &ALONE, warm, false, 0) {
            Process::Seen(x) if !x.stalled && !x.unjudged => alone.push(x.results.into_iter().next().unwrap_or_default()),
            _ => {
                // what goes wrong without any company is not this property's business
                run.probe("does not end alone");
                return Ok(());
            }
        }
    }
    let times = run.c.range(1, 5);
    for _ in 0..times {
        let sch = schedule(run, n);
        let salt = if run.c.below(2) == 1 { run.c.seed() } else { 0 };
        let together = match process(run, "together", &scripts, &sch, warm, false, salt) {
            Process::Seen(x) => x,
            Process::Died(how) => {
                return violation("threads together end the process", format!("{how}; each alone came to its end"))
            }
        };
        if together.unjudged {
            run.probe("waits the schedule cannot see");
            continue;
        }
        if together.stalled {
            return violation(
                "threads together make no progress",
                format!(
                    "each alone came to its end; finished: {:?}",
                    together.results.iter().map(|r| !r.is_empty()).collect::<Vec<_>>()
                ),
            );
        }
        run.nontrivial |= together.switches > (n as u64 - 1);
        if together.switches > (n as u64 - 1) {
            run.probe("interleaved");
        }
        if together.blocks > 0 {
            run.probe("a thread waited for a lock");
        }
        for (i, (want, got)) in alone.iter().zip(&together.results).enumerate() {
            for (k, (w, g)) in want.iter().zip(got).enumerate() {
                if w != g {
                    let op = &scripts[i][k];
                    return violation(
                        format!("{} gives something else in company", op.kind()),
                        format!("thread {i} of {n}, use {k}: {}; schedule {:#x}", differ(w, g), together.hash),
                    );
                }
            }
            if want.len() != got.len() {
                return violation("a thread did not get as far in company", format!("thread {i}: {} uses alone, {} here", want.len(), got.len()));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// P18
// ------------------------------------------------------------------------------------------------

pub static P18: Prop = Prop {
    id: "P18",
    title: "Readers, writers, actions and assemblers carry nothing over between uses",
    run: run18,
    quick_runs: 12_000,
    recheck: 25,
    rule: "One set of instances is used two to six times over drawn documents and models, with failing streams, full disks and unreadable files in between, in one process; each use is repeated with fresh instances as the first thing in a fresh process, and the results are compared; non-trivial: at least two uses were of the same instance.",
    real: &["JsonReader, SmithyReader, every model writer, the standard linters and validators, ModelAssembler"],
    stubs: &["the Read/Write arguments and the file system", "getrandom (hash keys)"],
    assumptions: &["a use that panics ends the history", "texts of errors and the order of parts are not compared", "linters and validators are used through run_linter_actions and run_validation_actions, which take the issues out"],
};

fn instance(o: &Op) -> String {
    match &o.what {
        What::Read { lang, .. } | What::ReadFile { lang } => format!("{lang:?} reader"),
        What::Write { format, .. } | What::WriteFile { format, .. } => format!("{format:?} writer"),
        What::Assemble { registry, .. } => format!("assembler {registry}"),
        _ => o.kind().to_string(),
    }
}

fn run18(run: &mut Run) -> Outcome {
    let k = run.c.range(2, 6) as usize;
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    mix.long_strings = false;
    mix.max_shapes = mix.max_shapes.min(12);
    mix.mild = run.c.below(4) < 3;
    mix.wild_keys &= !mix.mild;
    let kinds: &[u64] = match if mix.mild { run.c.below(6) } else { 5 } {
        0 => &[0, 1],
        1 => &[2, 2, 3, 4],
        2 => &[5, 6],
        3 => &[],
        4 => &[2],
        _ => ALL_KINDS,
    };
    let faults_pm = *run.c.pick(&[400u64, 0, 700]);
    let base = ops::a_model(&mut run.c, &mix);
    let same_format = run.c.below(4) > 0;
    let same_lang = run.c.below(4) > 0;
    let mut uses: Vec<Op> = Vec::new();
    for i in 0..k {
        let m = match run.c.below(4) {
            0 => base.clone(),
            1 => mutate::one(&mut run.c, &mix, &base).map(|(_, m)| m).unwrap_or_else(|| base.clone()),
            _ => ops::a_model(&mut run.c, &mix),
        };
        // the last use is the one everything before it might have spoiled
        let faults = if i + 1 == k { faults_pm / 8 } else { faults_pm };
        let o = if kinds.is_empty() {
            match ops::assembly(run, &m, &mix, faults) {
                Some(mut o) => {
                    if let (What::Assemble { registry, .. }, Some(What::Assemble { registry: r0, .. })) =
                        (&mut o.what, uses.first().map(|o| &o.what))
                    {
                        *registry = *r0;
                    }
                    o
                }
                None => continue,
            }
        } else {
            let mut x = mix.clone();
            let ks = Kinds { kinds, faults_pm: faults, panics: false };
            let mut o = ops::op(run, &mut x, &m, &base, &ks);
            if same_format {
                let first = uses.iter().find_map(|o| match &o.what {
                    What::Write { format, .. } | What::WriteFile { format, .. } => Some(format.clone()),
                    _ => None,
                });
                if let (What::Write { format, fault, .. }, Some(f)) = (&mut o.what, &first) {
                    let clear = matches!(f, crate::formats::Format::Rdf(_)) && !matches!(format, crate::formats::Format::Rdf(_));
                    *format = f.clone();
                    if clear {
                        *fault = crate::streams::StreamFault::None;
                    }
                }
                if let (What::WriteFile { format, .. }, Some(f)) = (&mut o.what, &first) {
                    *format = f.clone();
                    if matches!(f, crate::formats::Format::Rdf(_)) {
                        o.plan.capacity = None;
                    }
                }
            }
            if same_lang {
                let first = uses.iter().find_map(|o| match &o.what {
                    What::Read { lang, .. } | What::ReadFile { lang } => Some(*lang),
                    _ => None,
                });
                if let (What::Read { lang, .. }, Some(l)) = (&o.what, first) {
                    if *lang != l {
                        o = ops::op(run, &mut x, &m, &base, &ks);
                    }
                }
            }
            o
        };
        uses.push(o);
    }
    let mut of: std::collections::BTreeMap<String, usize> = std::collections::BTreeMap::new();
    let mut failing = false;
    for o in &uses {
        run.probe(o.kind());
        let d = o.describe();
        run.mark(d.as_bytes());
        run.log(|| format!("use: {d}"));
        *of.entry(instance(o)).or_insert(0) += 1;
        failing |= o.faulty();
    }
    if uses.len() < 2 {
        return Ok(());
    }
    run.nontrivial = of.values().any(|n| *n > 1);
    if failing {
        run.probe("a use with a fault");
    }
    let salt = if run.c.below(2) == 1 { run.c.seed() } else { 0 };
    let history = match process(run, "history", std::slice::from_ref(&uses), &ALONE, false, true, salt) {
        Process::Seen(x) if !x.unjudged => x,
        Process::Seen(_) => return Ok(()),
        Process::Died(how) => {
            // not this property's business unless each use alone is fine
            for o in &uses {
                if let Process::Died(_) = process(run, "fresh", &[vec![o.clone()]], &ALONE, false, true, 0) {
                    return Ok(());
                }
            }
            return violation("a history of uses ends the process", how);
        }
    };
    let got = history.results.first().cloned().unwrap_or_default();
    let mut pushed: Vec<String> = Vec::new();
    for (i, o) in uses.iter().enumerate() {
        let mut o = o.clone();
        if let What::Assemble { roots, .. } = &mut o.what {
            // the paths given to the assembler so far
            for r in roots.iter() {
                if !pushed.contains(r) {
                    pushed.push(r.clone());
                }
            }
            *roots = pushed.clone();
        }
        let want = match process(run, "fresh", &[vec![o.clone()]], &ALONE, false, true, 0) {
            Process::Seen(x) if !x.stalled && !x.unjudged => x.results.first().and_then(|r| r.first()).cloned(),
            _ => None,
        };
        let want = match want {
            Some(w) => w,
            None => return Ok(()),
        };
        match got.get(i) {
            Some(g) if *g == want => {
                if want.starts_with("panicked") {
                    return Ok(());
                }
            }
            Some(g) => {
                return violation(
                    format!("{} gives something else after other uses", o.kind()),
                    format!("use {i} of {}: {}", uses.len(), differ(&want, g)),
                )
            }
            None => {
                return violation(
                    format!("{} does not come to an end after other uses", o.kind()),
                    format!("use {i} of {}; stalled {}", uses.len(), history.stalled),
                )
            }
        }
    }
    Ok(())
}
