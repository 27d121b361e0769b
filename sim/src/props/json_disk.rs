//! P01: a model saved as JSON AST survives the process that saved it.

use super::*;
use crate::canon::*;
use crate::gen;
use crate::run::violation;
use atelier_core::io::{read_model_from_file, write_model_to_file, write_model_to_string, ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_json::{JsonReader, JsonWriter};
use simrt::{Action, Fault, Fs, OpClass};
use std::io::Write;

pub static P01: Prop = Prop {
    id: "P01",
    title: "Models saved as JSON AST survive restarts, crashes and disk faults unchanged",
    run,
    quick_runs: 60_000,
    recheck: 40,
    rule: "A generated model is built, saved and reloaded by 2 to 4 process lifetimes with different hash keys, under a drawn plan of short transfers, EINTR, disk-full, I/O errors and crashes; non-trivial: the model has at least one shape or metadata entry and at least two lifetimes ran.",
    real: &["atelier_core::model", "atelier_core::io", "atelier_json reader and writer", "std::fs, std::io, serde_json"],
    stubs: STUB_OS,
    assumptions: &[
        "values are JSON values; floating point numbers are drawn from those whose shortest decimal form every parser reads back exactly",
        "an annotation trait without a value and one with the empty object are the same value",
        "identifiers are distinct when compared without case",
    ],
};

const PATH: &str = "/sim/data/model.json";

const STORED: &str = "/sim/data/stored.data";

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SaveHow {
    FileThenWrite,
    WriteModelToFile,
    StringThenWrite,
}

fn save(m: &Model, how: SaveHow, pretty: bool) -> Result<(), String> {
    let mut w = JsonWriter::new(pretty);
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match how {
        SaveHow::FileThenWrite => {
            let mut f = std::fs::File::create(PATH).map_err(|x| e(&x))?;
            w.write(&mut f, m).map_err(|x| e(&x))?;
            f.flush().map_err(|x| e(&x))
        }
        SaveHow::WriteModelToFile => {
            write_model_to_file(&mut w, m, PATH.into()).map_err(|x| e(&x))
        }
        SaveHow::StringThenWrite => {
            let s = write_model_to_string(&mut w, m).map_err(|x| e(&x))?;
            std::fs::write(PATH, s).map_err(|x| e(&x))
        }
    }
}

fn load(whole: bool) -> Result<Model, String> {
    let mut r = JsonReader::default();
    if whole {
        let mut f = std::fs::File::open(PATH).map_err(|x| x.to_string())?;
        r.read(&mut f).map_err(|x| x.to_string())
    } else {
        read_model_from_file(&mut r, PATH.into()).map_err(|x| x.to_string())
    }
}

fn run(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let want = gen::model(&mut run.c, &mix);
    run.mark(to_json(&want).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&want)));
    run.nontrivial = size_of(&want) > 0;

    // what was on the disk before
    let mut fs = Fs::default();
    fs.add_dir("/sim/data");
    let old = match run.c.below(3) {
        0 => None,
        _ => {
            let mut m = mix.clone();
            m.max_shapes = 2 + run.c.below(8);
            Some(gen::model(&mut run.c, &m))
        }
    };
    let preexisting = run.c.below(4) == 3;
    if let (Some(o), true) = (&old, preexisting) {
        let at = if run.c.below(3) == 2 {
            // the name is a link, and stays one or not
            fs.add_link(PATH, STORED);
            STORED
        } else {
            PATH
        };
        fs.add_file(at, to_json(o).to_string().as_bytes());
    }

    // a document written by another tool loads as the model it describes
    if run.c.below(4) == 3 {
        let text = gen::foreign_json(&mut run.c, &want);
        let mut f2 = fs.clone();
        f2.add_file(PATH, text.as_bytes());
        run.log(|| format!("foreign document {}", text.chars().take(600).collect::<String>()));
        let plan = run.benign_plan();
        let got = run.life("load-foreign", plan, f2, || load(false).map(|m| canon(&m)));
        let noise = got.stdout.len();
        match got.ok("loading a foreign document")? {
            Err(e) => return violation("foreign document refused", format!("refused: {e}")),
            Ok(g) => {
                if let Some((k, d)) = diff(&want, &g) {
                    return violation(format!("foreign document: {k}"), d);
                }
            }
        }
        if noise > 0 {
            run.probe("reader-writes-to-stdout");
        }
        run.probe("foreign-document-loaded");
    }

    let how = *run.c.pick(&[
        SaveHow::FileThenWrite,
        SaveHow::WriteModelToFile,
        SaveHow::StringThenWrite,
    ]);
    let pretty = run.c.below(2) == 1;
    let mode = run.c.below(5);
    let mut plan = run.benign_plan();
    match mode {
        2 => plan.capacity = Some(run.c.below(4000)),
        3 => {
            let class = *run.c.pick(&[OpClass::Write, OpClass::Write, OpClass::Open]);
            let nth = run.c.below(if class == OpClass::Open { 2 } else { 40 });
            let errno = *run.c.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES]);
            plan.faults.push(Fault { class, nth, action: Action::Errno(errno), sticky: run.c.below(2) == 1 });
        }
        4 => {
            let class = *run.c.pick(&[OpClass::Write, OpClass::Write, OpClass::Open]);
            let nth = run.c.below(if class == OpClass::Open { 2 } else { 60 });
            plan.faults.push(Fault { class, nth, action: Action::Crash, sticky: false });
        }
        _ => {}
    }
    let before = fs.files();
    let built = want.clone();
    let saved = run.life("save", plan, fs, move || {
        let m = build(&built);
        save(&m, how, pretty)
    });
    let (crashed, errors) = (saved.crashed, saved.errors_returned);
    let mut fs = saved.fs.clone();
    let outcome = if crashed {
        run.probe("crashed-while-saving");
        None
    } else {
        Some(saved.ok("saving")?)
    };
    match &outcome {
        Some(Ok(())) if errors > 0 => {
            return violation(
                "save reported success after an I/O error",
                format!("{errors} call(s) failed, yet the save returned Ok ({how:?})"),
            )
        }
        Some(Err(e)) if errors == 0 => {
            return violation("save failed without a fault", format!("{how:?}: {e}"))
        }
        Some(Err(_)) => run.probe("save-failed-and-said-so"),
        _ => {}
    }
    // the other files of the disk are none of its business
    for (p, d) in &before {
        if p != PATH && p != STORED && fs.files().get(p) != Some(d) {
            return violation("save changed another file", p.clone());
        }
    }
    let acknowledged = matches!(outcome, Some(Ok(())));
    if acknowledged {
        let bytes = fs.read_file(PATH).unwrap_or_default();
        let parsed: Result<serde_json::Value, _> = serde_json::from_slice(&bytes);
        match parsed.map_err(|e| e.to_string()).and_then(|j| from_json(&j)) {
            Err(e) => {
                return violation(
                    "saved document is not a JSON AST document",
                    format!("{e}: {}", String::from_utf8_lossy(&bytes).chars().take(400).collect::<String>()),
                )
            }
            Ok(g) => {
                if let Some((k, d)) = diff(&want, &g) {
                    return violation(format!("saved document: {k}"), d);
                }
            }
        }
    } else if run.c.below(3) == 2 {
        // a power cut can also lose a tail the process did write
        if let Some(b) = fs.read_file(PATH) {
            if !b.is_empty() && crashed {
                let keep = run.c.size(b.len());
                fs.add_file(PATH, &b[..keep]);
                run.probe("power-cut-lost-tail");
            }
        }
    }

    // restarts
    let rounds = run.c.range(1, 3);
    for round in 0..rounds {
        let mut plan = run.benign_plan();
        let faulty = round == 0 && run.c.below(4) == 3;
        if faulty {
            let class = *run.c.pick(&[OpClass::Read, OpClass::Open]);
            let nth = if class == OpClass::Open { 0 } else { run.c.below(30) };
            let action = if class == OpClass::Read && run.c.below(2) == 1 {
                Action::Eof
            } else {
                Action::Errno(*run.c.pick(&[libc::EIO, libc::EACCES]))
            };
            plan.faults.push(Fault { class, nth, action, sticky: true });
        }
        let whole = run.c.below(2) == 1;
        let got = run.life("load", plan, fs.clone(), move || load(whole).map(|m| canon(&m)));
        let fired_eof = got.fired.contains_key("read:early-eof");
        let errs = got.errors_returned;
        let got = got.ok("loading")?;
        match got {
            Ok(g) => {
                if errs > 0 {
                    return violation(
                        "load succeeded after an I/O error",
                        "an error on the file was swallowed",
                    );
                }
                let d_new = diff(&want, &g);
                if acknowledged {
                    if let Some((k, d)) = d_new {
                        return violation(format!("reloaded model: {k}"), d);
                    }
                    run.probe("reloaded-equal");
                } else if d_new.is_some() {
                    let is_old = preexisting
                        && old.as_ref().map(|o| diff(o, &g).is_none()).unwrap_or(false);
                    if !is_old {
                        return violation(
                            "torn save loads as a different model",
                            format!("{:?}", d_new),
                        );
                    }
                    run.probe("old-model-still-there");
                } else {
                    run.probe("unacknowledged-save-complete");
                }
            }
            Err(e) => {
                if acknowledged && errs == 0 && !fired_eof {
                    return violation("saved model cannot be reloaded", e);
                }
                run.probe("load-refused");
            }
        }
        // and save it again from what was loaded
        if acknowledged && !faulty && round + 1 < rounds {
            let plan = run.benign_plan();
            let how = *run.c.pick(&[
                SaveHow::FileThenWrite,
                SaveHow::WriteModelToFile,
                SaveHow::StringThenWrite,
            ]);
            let pretty = run.c.below(2) == 1;
            let l = run.life("load-save", plan, fs.clone(), move || {
                load(true).and_then(|m| save(&m, how, pretty))
            });
            fs = l.fs.clone();
            if let Err(e) = l.ok("loading and saving again")? {
                return violation("second save failed without a fault", e);
            }
        }
    }
    Ok(())
}
