//! P11 and P12: the command-line tool, run as real processes on a simulated disk.

use super::files::{self, Bad, World};
use super::*;
use crate::canon::*;
use crate::cli::CliLife;
use crate::formats::namespaces_of;
use crate::gen;
use crate::idl::{self, ns_of};
use crate::props::assemble::shuffle;
use crate::run::{violation, Violation};
use crate::verdict;
use atelier_assembler::{FileTypeRegistry, ModelAssembler};
use atelier_core::io::read_model_from_string;
use atelier_core::model::Model;
use atelier_describe::document::writer::describe_model;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_lib::actions::{standard_model_lint, standard_model_validation};
use atelier_smithy::SmithyReader;
use simrt::{Fs, SplitMix};
use somedoc::write::{write_document, OutputFormat};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;

pub static P11: Prop = Prop {
    id: "P11",
    title: "The command line succeeds only if its whole output is durable and right",
    run: run_output,
    quick_runs: 10000,
    recheck: 40,
    rule: "`convert` and `document` run as processes of the real executable, preloaded with the simulator, on generated worlds of input files, for every format, to files (new, existing, linked, one of the inputs, in a missing directory) and standard output, with faults at any call; exit status, diagnostic, output and the rest of the disk are compared with what the library gives for the same files; non-trivial: exit 0 with shapes in the output, or a failure due.",
    real: &["cargo-atelier executable", "structopt parsing", "atelier_assembler", "every reader and writer it uses", "std::io::Stdout, std::fs"],
    stubs: STUB_OS,
    assumptions: &["output lines that differ in order only are equivalent output"],
};

pub static P12: Prop = Prop {
    id: "P12",
    title: "Lint and validate runs report the same issues in every execution",
    run: run_report,
    quick_runs: 10000,
    recheck: 40,
    rule: "`lint` and `validate` run as processes of the real executable, preloaded with the simulator, on generated worlds of input files with much to complain about, with other orders, listings and hash keys each time and faults at any call; the issues printed are compared as a multiset with those the library reports; non-trivial: at least one issue, or a failure due.",
    real: &["cargo-atelier executable", "structopt parsing", "atelier_assembler", "readers", "standard linters and validators", "std::io::Stdout"],
    stubs: STUB_OS,
    assumptions: &["whether reported issues make the exit status non-zero is not settled"],
};

/// How the input files are named on a command line.
struct Line {
    args: Vec<String>,
    envs: Vec<(String, String)>,
}

fn inputs(run: &mut Run, w: &World, search: bool) -> Line {
    let mut roots = w.roots.clone();
    let mut r = SplitMix::new(run.c.seed());
    shuffle(&mut roots, &mut r);
    let mut line = Line {
        args: Vec::new(),
        envs: Vec::new(),
    };
    let search = match run.c.below(6) {
        // what an entry of a search path that is not there means is not settled
        4 if search => Some("SMITHY_PATH"),
        5 if search => Some("MY_MODELS"),
        _ => None,
    };
    if let Some(env) = search {
        let n = run.c.size(roots.len() + 1);
        let theirs: Vec<String> = roots.split_off(n);
        match env {
            "SMITHY_PATH" => line.args.push(run.c.pick(&["-d", "--default-search-env"]).to_string()),
            _ => {
                line.args.push(run.c.pick(&["-s", "--search-env"]).to_string());
                line.args.push(env.to_string());
            }
        }
        line.envs.push((env.to_string(), theirs.join(":")));
    }
    let together = run.c.below(2) == 1;
    for (i, p) in roots.iter().enumerate() {
        if i == 0 || !together {
            line.args.push(run.c.pick(&["-i", "--in-file"]).to_string());
        }
        line.args.push(p.clone());
    }
    line
}

/// What the library says about the same files.
struct Lib {
    model: CModel,
    uml: Vec<u8>,
    doc: Vec<u8>,
    lint: Vec<verdict::Issue>,
    validate: Vec<verdict::Issue>,
}

fn library(run: &mut Run, w: &World, fs: &Fs, doc: &str) -> Result<Result<Lib, String>, Violation> {
    let plan = run.benign_plan();
    let roots = w.roots.clone();
    let doc = doc.to_string();
    run.life("library", plan, fs.clone(), move || {
        let mut a = ModelAssembler::new(FileTypeRegistry::default(), None);
        for p in &roots {
            let _ = a.push_str(p);
        }
        let e = |e: &dyn std::fmt::Display| e.to_string();
        let m = Model::try_from(a).map_err(|x| e(&x))?;
        let mut uml = Vec::new();
        {
            use atelier_core::io::ModelWriter;
            PlantUmlWriter::default().write(&mut uml, &m).map_err(|x| e(&x))?;
        }
        let mut text = Vec::new();
        let d = describe_model(&m).map_err(|x| e(&x))?;
        write_document(&d, OutputFormat::from_str(&doc).map_err(|x| e(&x))?, &mut text).map_err(|x| e(&x))?;
        Ok(Lib {
            model: canon(&m),
            uml,
            doc: text,
            lint: verdict::sorted(&standard_model_lint(&m, false).map_err(|x| e(&x))?),
            validate: verdict::sorted(&standard_model_validation(&m, false).map_err(|x| e(&x))?),
        })
    })
    .ok("the library")
}

/// The words and the punctuation of each line: the order of the lines, and within a line that of the
/// keys of an object, differ from process to process.
fn lines(b: &[u8]) -> Vec<Vec<Vec<u8>>> {
    let mut v: Vec<Vec<Vec<u8>>> = b
        .split(|c| *c == b'\n')
        .map(|l| {
            let word = |c: &u8| c.is_ascii_alphanumeric() || *c >= 0x80;
            let mut w: Vec<Vec<u8>> = l.split(|c| !word(c)).map(|w| w.to_vec()).filter(|w| !w.is_empty()).collect();
            w.extend(l.iter().filter(|c| !word(c) && **c != b' ').map(|c| vec![*c]));
            w.sort();
            w
        })
        .collect();
    v.sort();
    v
}

fn differing(want: &[u8], got: &[u8]) -> String {
    let (w, g) = (lines(want), lines(got));
    let miss: Vec<_> = w.iter().filter(|l| !g.contains(l)).take(3).map(|l| String::from_utf8_lossy(&l.join(&b' ')).to_string()).collect();
    let more: Vec<_> = g.iter().filter(|l| !w.contains(l)).take(3).map(|l| String::from_utf8_lossy(&l.join(&b' ')).to_string()).collect();
    format!("{} bytes expected, {} written; missing lines {miss:?}; unexpected lines {more:?}", want.len(), got.len())
}

/// Errors at any of the calls a process makes.
fn os_faults(run: &mut Run, plan: &mut Plan, output: bool) {
    for _ in 0..run.c.range(1, 2) {
        let class = *run.c.pick(if output {
            &[OpClass::Write, OpClass::Stdout, OpClass::Open, OpClass::Read, OpClass::Stat, OpClass::OpenDir, OpClass::ReadDir][..]
        } else {
            &[OpClass::Stdout, OpClass::Stdout, OpClass::Open, OpClass::Read, OpClass::Stat, OpClass::OpenDir, OpClass::ReadDir][..]
        });
        let far = *run.c.pick(&[3u64, 60]);
        let nth = run.c.below(match class {
            OpClass::Write | OpClass::Stdout => far,
            OpClass::Read => 30,
            OpClass::Open => 6,
            OpClass::OpenDir => 6,
            _ => 20,
        });
        let errno = match class {
            OpClass::Stdout => *run.c.pick(&[libc::ENOSPC, libc::EPIPE, libc::EIO]),
            OpClass::Write => *run.c.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]),
            _ => *run.c.pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENOMEM]),
        };
        let action = if run.c.below(16) == 15 { Action::Crash } else { Action::Errno(errno) };
        let sticky = run.c.below(2) == 1;
        plan.faults.push(Fault { class, nth, action, sticky });
    }
    if output && run.c.below(4) == 3 {
        plan.capacity = Some(run.c.below(3000));
    }
}

fn disrupted(l: &CliLife) -> bool {
    l.fired.iter().any(|(k, n)| *n > 0 && !k.ends_with(":EINTR") && !k.contains("short"))
}

fn ended(l: &CliLife, what: &str) -> Outcome {
    if l.stuck {
        return violation(format!("{what}: no progress"), "still making calls after the step bound");
    }
    if let Some(s) = l.signal {
        return violation(format!("{what}: killed by a signal"), format!("signal {s}: {}", l.stderr));
    }
    Ok(())
}

fn others(fs: &Fs, out: Option<&str>) -> BTreeMap<String, Vec<u8>> {
    let mut f = fs.files();
    if let Some(o) = out {
        f.remove(o);
    }
    f
}

/// The namespace that is meant when none is given, if there is no doubt.
fn one_namespace(m: &CModel) -> Option<String> {
    let defined = m.shapes.iter().any(|(_, s)| s.body != CBody::Unresolved);
    let all = namespaces_of(m);
    if defined && all.len() == 1 {
        Some(all[0].clone())
    } else {
        None
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Out {
    Json,
    Smithy,
    Uml,
    Doc,
}

fn run_output(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.mild = true;
    mix.wild_keys = false;
    if run.c.below(3) > 0 {
        mix.namespaces = 1;
    }
    let m = gen::model(&mut run.c, &mix);
    let mut w = match files::world_of(run, &m, &mix, true, 4, 0) {
        Some(w) => w,
        None => return Ok(()),
    };
    let mut due = w.want.is_none();
    let mut spoilt = false;
    if run.c.below(10) == 9 {
        let (what, bad) = files::spoil(&mut run.c, &mut w);
        run.probe(what);
        match bad {
            Bad::Certain => {
                due = true;
                spoilt = true;
            }
            Bad::Perhaps => return Ok(()),
            Bad::None => {}
        }
    }
    w.fs.add_dir("/sim/out");

    // the command
    let kind = *run.c.pick(&[Out::Json, Out::Smithy, Out::Uml, Out::Doc]);
    let doc = run.c.pick(&["markdown", "md", "html", "latex", "markdown+xwiki", "json", "xwiki"]).to_string();
    let mut args: Vec<String> = Vec::new();
    if run.c.below(4) == 3 {
        args.push("atelier".into());
    }
    if run.c.below(4) == 3 {
        args.push("--no-color".into());
    }
    if run.c.below(6) == 5 {
        args.push(run.c.pick(&["-v", "-vv", "-vvvvv", "--verbose"]).to_string());
    }
    args.push(if kind == Out::Doc { "document" } else { "convert" }.into());
    let line = inputs(run, &w, !spoilt);
    args.extend(line.args);
    match kind {
        Out::Json if run.c.below(2) == 0 => {}
        Out::Doc if doc == "markdown" && run.c.below(2) == 0 => {}
        k => {
            args.push(run.c.pick(&["-w", "--write-format"]).to_string());
            args.push(match k {
                Out::Json => "json".into(),
                Out::Smithy => "smithy".into(),
                Out::Uml => "uml".into(),
                Out::Doc => doc.clone(),
            });
        }
    }
    let spaces = match &w.want {
        Some(m) => namespaces_of(m),
        None => vec!["example.alpha".into()],
    };
    let mut ns: Option<String> = None;
    // whether this is certain to be refused, or may be
    let mut may_refuse = false;
    if kind != Out::Doc {
        match run.c.below(6) {
            0 | 1 | 2 => {
                let n = run.c.pick(&spaces).clone();
                args.push(run.c.pick(&["-n", "--namespace"]).to_string());
                args.push(n.clone());
                ns = Some(n);
            }
            3 if kind == Out::Smithy => {
                args.push("-n".into());
                args.push(run.c.pick(&["9bad", "has space", "a#b", "a..b"]).to_string());
                due = true;
            }
            _ => {}
        }
        if kind == Out::Smithy && ns.is_none() {
            may_refuse = true;
        }
    }
    let spelled = run.c.pick(&["-o", "--out-file"]).to_string();
    let inside: Vec<String> = w
        .covered
        .iter()
        .filter(|p| w.fs.files().contains_key(*p))
        .cloned()
        .collect();
    // the option, and the file the output is in
    let mut out: Option<(String, String)> = None;
    let o = |s: &str| Some((s.to_string(), s.to_string()));
    match run.c.below(10) {
        0 | 1 => {}
        2 => out = o("/sim/out/new.file"),
        3 => {
            let n = *run.c.pick(&[1usize, 100, 5000, 100_000]);
            w.fs.add_file("/sim/out/old", &vec![b'#'; n]);
            out = o("/sim/out/old");
        }
        4 => {
            w.fs.add_file("/sim/out/target", b"before");
            w.fs.add_link("/sim/out/link", "/sim/out/target");
            out = Some(("/sim/out/link".into(), "/sim/out/target".into()));
        }
        5 if !inside.is_empty() => {
            // over one of the inputs
            let p = run.c.pick(&inside).clone();
            out = Some((p.clone(), p));
            run.probe("output over an input");
        }
        6 => {
            // among the inputs
            out = o(run.c.pick(&["/sim/m/generated.json", "/sim/n/generated.smithy"]));
            run.probe("output among the inputs");
        }
        7 => {
            out = o(run.c.pick(&["/sim/missing/dir/file", "/sim/out", "/sim/out/"]));
            due = true;
        }
        _ => out = o("/sim/out/model"),
    }
    if let Some((p, _)) = &out {
        args.push(spelled);
        args.push(p.clone());
    }
    match run.c.below(24) {
        22 => {
            args.push("--no-such-option".into());
            due = true;
        }
        23 => {
            args.push("-w".into());
            args.push("nonsense".into());
            due = true;
        }
        _ => {}
    }
    run.mark(args.join(" ").as_bytes());

    let lib = library(run, &w, &w.fs.clone(), &doc)?;
    if lib.is_err() {
        if w.want.is_some() && !due {
            return violation("the library fails without a fault", lib.err().unwrap_or_default());
        }
        due = true;
    }

    let mut plan = run.benign_plan();
    let faults = run.c.below(2) == 1;
    if faults {
        os_faults(run, &mut plan, true);
    }
    let argv: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let envs: Vec<(&str, &str)> = line.envs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let before = w.fs.clone();
    let life = run.cli_life("tool", &plan, &before, &argv, &envs)?;
    let what = if kind == Out::Doc { "document" } else { "convert" };
    let target = out.as_ref().map(|(_, t)| t.as_str());
    if life.crashed {
        run.probe("crashed");
        return Ok(());
    }
    ended(&life, what)?;
    let fs = match &life.fs {
        Some(fs) => fs.clone(),
        None => return violation(format!("{what}: ended without its disk"), format!("code {:?}: {}", life.code, life.stderr)),
    };
    if others(&before, target) != others(&fs, target) {
        return violation(format!("{what}: changed another file"), format!("output {target:?}"));
    }
    let disturbed = disrupted(&life);
    run.nontrivial |= due || disturbed;
    if life.code != Some(0) {
        if life.stderr.trim().is_empty() {
            return violation(format!("{what}: failed without a diagnostic"), format!("code {:?}", life.code));
        }
        if life.panicked && !disturbed {
            return violation(format!("{what}: panicked"), life.stderr.clone());
        }
        if !due && !disturbed {
            let refused = may_refuse && lib.as_ref().map_or(false, |l| one_namespace(&l.model).is_none());
            if !refused {
                return violation(
                    format!("{what}: failed without cause"),
                    format!("code {:?}: {}", life.code, life.stderr),
                );
            }
            run.probe("a namespace is needed");
        } else {
            run.probe("failed and said so");
        }
        return Ok(());
    }
    if due {
        return violation(format!("{what}: exit status 0 though it must fail"), format!("arguments {args:?}"));
    }
    let lib = match lib {
        Ok(l) => l,
        Err(_) => return Ok(()),
    };
    let bytes = match target {
        Some(t) => {
            if !life.stdout.is_empty() {
                run.probe("something on standard output as well");
            }
            match fs.read_file(t) {
                Some(b) => b,
                None => return violation(format!("{what}: exit status 0 without an output file"), t.to_string()),
            }
        }
        None => life.stdout.clone(),
    };
    let place = if target.is_some() { "file" } else { "standard output" };
    run.probe(&format!("{kind:?} on {place}{}", if disturbed { " in spite of a fault" } else { "" }));
    run.nontrivial |= size_of(&lib.model) > 0;
    let wrong = |k: String, d: String| violation(format!("{what} to {place}: {kind:?} output {k}"), d);
    match kind {
        Out::Json => {
            let got = serde_json::from_slice(&bytes)
                .map_err(|e| e.to_string())
                .and_then(|j: serde_json::Value| from_json(&j));
            match got {
                Err(e) => wrong("is not a JSON AST".into(), format!("{e}: {}", String::from_utf8_lossy(&bytes))),
                Ok(g) => match diff(&idl::settle(&lib.model), &idl::settle(&g)) {
                    None => Ok(()),
                    Some((k, d)) => wrong(k, d),
                },
            }
        }
        Out::Smithy => {
            let want = match &ns {
                Some(n) => idl::part(&lib.model, n),
                None => {
                    match one_namespace(&lib.model) {
                        Some(n) => idl::part(&lib.model, &n),
                        None => {
                            let mut defining: Vec<&str> = lib
                                .model
                                .shapes
                                .iter()
                                .filter(|(_, s)| s.body != CBody::Unresolved)
                                .map(|(id, _)| ns_of(id))
                                .collect();
                            defining.sort();
                            defining.dedup();
                            if defining.len() > 1 {
                                // no document holds the definitions of more than one
                                return wrong("leaves namespaces out".into(), format!("shapes are defined in {defining:?}"));
                            }
                            // which namespace is meant is not settled
                            run.probe("namespace chosen among several");
                            return Ok(());
                        }
                    }
                }
            };
            let text = bytes.clone();
            let got = run
                .pure_life("read back", 1, move || {
                    read_model_from_string(&mut SmithyReader::default(), &text).map(|m| canon(&m)).map_err(|e| e.to_string())
                })
                .ok("reading the output")?;
            match got {
                Err(e) => wrong("cannot be read".into(), format!("{e}: {}", String::from_utf8_lossy(&bytes))),
                // the reader drops the traits written at the member of a list (a finding of P02)
                Ok(g) => match diff(
                    &idl::without_list_member_traits(&idl::settle(&want)),
                    &idl::without_list_member_traits(&idl::settle(&g)),
                ) {
                    None => Ok(()),
                    Some((k, d)) => wrong(k, d),
                },
            }
        }
        Out::Uml | Out::Doc => {
            let want = if kind == Out::Uml { &lib.uml } else { &lib.doc };
            let flat = |b: &[u8]| lines(&b.iter().map(|c| if *c == b'\n' { b' ' } else { *c }).collect::<Vec<u8>>());
            if lines(want) == lines(&bytes) || (kind == Out::Doc && flat(want) == flat(&bytes)) {
                Ok(())
            } else {
                wrong("differs".into(), differing(want, &bytes))
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------

/// Without the escape sequences of a terminal.
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in it.by_ref() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// The issues of a report; `None` for a text that is not a whole report.
fn parse_report(text: &str) -> Option<Vec<verdict::Issue>> {
    let text = plain(text);
    let ls: Vec<&str> = text.lines().filter(|l| !l.is_empty()).collect();
    if !text.ends_with('\n') {
        return None;
    }
    if ls == ["No issues reported."] {
        return Some(Vec::new());
    }
    let mut v = Vec::new();
    for pair in ls.chunks(2) {
        if pair.len() < 2 {
            return None;
        }
        let (level, message) = pair[0].strip_prefix('[')?.split_once("] ")?;
        let by = pair[1].trim_start().strip_prefix("Reported by ")?.strip_suffix('.')?;
        let (reporter, locus) = match by.split_once(" on/for element `") {
            Some((r, l)) => (r, Some(l.strip_suffix('`')?)),
            None => match by.split_once(" for element ") {
                Some((r, "")) => (r, None),
                Some((r, l)) => (r, Some(l)),
                None => (by, None),
            },
        };
        v.push(verdict::Issue {
            level: level.to_string(),
            reporter: reporter.to_string(),
            message: message.to_string(),
            locus: locus.map(|s| s.to_string()),
        });
    }
    if v.is_empty() {
        return None;
    }
    v.sort();
    Some(v)
}

fn run_report(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.mild = true;
    mix.wild_keys = false;
    if run.c.below(3) == 2 {
        mix.dangling = false;
    }
    let m = if run.c.below(4) == 0 { gen::model(&mut run.c, &mix) } else { verdict::spiced(&mut run.c, &mix) };
    let conflicts = run.c.below(3) == 2;
    let mut w = match files::world_of(run, &m, &mix, conflicts, 4, 0) {
        Some(w) => w,
        None => return Ok(()),
    };
    let mut due = w.want.is_none();
    let mut spoilt = false;
    if run.c.below(8) == 7 {
        let (what, bad) = files::spoil(&mut run.c, &mut w);
        run.probe(what);
        match bad {
            Bad::Certain => {
                due = true;
                spoilt = true;
            }
            Bad::Perhaps => return Ok(()),
            Bad::None => {}
        }
    }
    let lib = library(run, &w, &w.fs.clone(), "markdown")?;
    if lib.is_err() {
        if !due {
            return violation("the library fails without a fault", lib.err().unwrap_or_default());
        }
    }
    let lives = run.c.range(1, 2);
    for round in 0..lives {
        let validate = run.c.below(2) == 1;
        let cmd = if validate { "validate" } else { "lint" };
        let mut args: Vec<String> = Vec::new();
        if run.c.below(4) == 3 {
            args.push("atelier".into());
        }
        let color = run.c.below(4);
        if color == 0 {
            args.push("--no-color".into());
        }
        if run.c.below(6) == 5 {
            args.push(run.c.pick(&["-v", "-vv", "-vvvvv", "--verbose"]).to_string());
        }
        args.push(cmd.into());
        let mut line = inputs(run, &w, !spoilt);
        args.extend(line.args);
        let forced = color == 1 || (color == 0 && run.c.below(2) == 1);
        if forced {
            line.envs.push(("CLICOLOR_FORCE".into(), "1".into()));
        }
        let usage = run.c.below(24) == 23;
        if usage {
            args.push(run.c.pick(&["--no-such-option", "-o"]).to_string());
        }
        run.mark(args.join(" ").as_bytes());
        let mut plan = run.benign_plan();
        if run.c.below(3) == 2 {
            os_faults(run, &mut plan, false);
        }
        let argv: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        let envs: Vec<(&str, &str)> = line.envs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let life = run.cli_life("tool", &plan, &w.fs.clone(), &argv, &envs)?;
        if life.crashed {
            run.probe("crashed");
            continue;
        }
        ended(&life, cmd)?;
        if life.fs.as_ref().map(|f| f.files()) != Some(w.fs.files()) {
            return violation(format!("{cmd}: changed a file"), format!("code {:?}", life.code));
        }
        let disturbed = disrupted(&life);
        let fails = due || usage;
        run.nontrivial |= fails || disturbed;
        if fails {
            if life.code == Some(0) {
                return violation(format!("{cmd}: exit status 0 though it must fail"), format!("{args:?}"));
            }
            if life.stderr.trim().is_empty() {
                return violation(format!("{cmd}: failed without a diagnostic"), format!("{args:?}"));
            }
            if life.panicked && !disturbed {
                return violation(format!("{cmd}: panicked"), life.stderr.clone());
            }
            run.probe("failed and said so");
            continue;
        }
        let lib = match &lib {
            Ok(l) => l,
            Err(_) => continue,
        };
        let want = if validate { &lib.validate } else { &lib.lint };
        if disturbed && life.code != Some(0) {
            run.probe("failed and said so");
            continue;
        }
        if life.panicked || (life.code != Some(0) && want.is_empty()) {
            return violation(format!("{cmd}: failed without cause"), format!("code {:?}: {}", life.code, life.stderr));
        }
        let text = String::from_utf8_lossy(&life.stdout).to_string();
        if color == 0 && text.contains('\u{1b}') {
            return violation(format!("{cmd}: colours though they are turned off"), text);
        }
        match parse_report(&text) {
            None => {
                return violation(
                    format!("{cmd}: report incomplete"),
                    format!("code {:?}: {text:?}", life.code),
                )
            }
            Some(got) if &got != want => {
                return violation(
                    format!("{cmd}: {}", verdict::kind_of_difference(want, &got)),
                    verdict::describe(want, &got),
                )
            }
            Some(_) => {
                run.nontrivial |= !want.is_empty();
                run.probe(if want.is_empty() { "nothing to report" } else { "issues agree" });
                if round > 0 {
                    run.probe("another execution");
                }
            }
        }
    }
    Ok(())
}
