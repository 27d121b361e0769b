//! P13: the line-oriented form.

use super::*;
use crate::canon::*;
use crate::formats::{self, Lang};
use crate::gen;
use crate::mutate;
use crate::props::assemble::build_shuffled;
use crate::run::violation;
use atelier_core::io::lines::{make_line_oriented_form, LineOrientedWriter};
use atelier_core::io::{write_model_to_string, ModelWriter};
use atelier_core::model::Model;
use atelier_json::JsonWriter;
use atelier_smithy::SmithyWriter;
use simrt::Fs;

pub static P13: Prop = Prop {
    id: "P13",
    title: "The line-oriented form is canonical",
    run,
    quick_runs: 150_000,
    recheck: 60,
    rule: "The form of a generated model is computed in processes with different hash keys, for different construction orders, and after saving to and loading from a simulated disk in either representation; a model with one drawn difference must have another form; non-trivial: two forms were compared.",
    real: &["atelier_core::io::lines", "atelier_core::model", "atelier_json and atelier_smithy readers and writers"],
    stubs: STUB_OS,
    assumptions: &[
        "differences are looked for among models whose texts hold no quotes, control characters or delimiters (the form does not escape them; a test of the repository pins that)",
        "an annotation trait is built with the value both readers give it, the empty object, where a form is compared with the form after reloading",
        "lists of operations, resources and errors are sets, and numbers are their values",
    ],
};

fn form(m: &Model) -> Result<Vec<String>, String> {
    let lines = make_line_oriented_form(m);
    let mut out = Vec::new();
    LineOrientedWriter::default().write(&mut out, m).map_err(|e| e.to_string())?;
    let text: String = lines.iter().map(|l| format!("{l}\n")).collect();
    if text.as_bytes() != &out[..] {
        return Err("the writer does not write the form".into());
    }
    Ok(lines)
}

fn first_difference(a: &[String], b: &[String]) -> String {
    let only = |x: &[String], y: &[String]| {
        x.iter().find(|l| !y.contains(l)).map(|l| l.chars().take(200).collect::<String>())
    };
    format!("{} and {} lines; only in the first {:?}, only in the second {:?}", a.len(), b.len(), only(a, b), only(b, a))
}

fn run(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let other = run.c.below(2) == 1;
    if other {
        mix.mild = true;
        mix.wild_keys = false;
    }
    let m = gen::model(&mut run.c, &mix);
    run.mark(to_json(&m).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&m)));
    let seed = run.c.seed();
    let order = run.c.seed();
    let m1 = m.clone();
    let want = run
        .pure_life("form", seed, move || form(&build_shuffled(&m1, order)))
        .ok("making the form")?;
    let want = match want {
        Ok(w) => w,
        Err(e) => return violation("the form cannot be written", e),
    };
    if want.windows(2).any(|w| w[0] > w[1]) {
        return violation("the form is not sorted", format!("{want:?}"));
    }
    if other {
        let (what, m2) = match mutate::one(&mut run.c, &mix, &m) {
            Some(x) => x,
            None => return Ok(()),
        };
        run.nontrivial = true;
        run.probe(&format!("difference: {what}"));
        run.log(|| format!("with {what}: {}", to_json(&m2)));
        let (seed, order) = (run.c.seed(), run.c.seed());
        let m3 = m2.clone();
        let got = run
            .pure_life("other-form", seed, move || form(&build_shuffled(&m3, order)))
            .ok("making the form")?;
        return match got {
            Err(e) => violation("the form cannot be written", e),
            Ok(g) if g == want => violation(
                format!("no trace of a difference: {what}"),
                format!("{:?}", diff(&m, &m2)),
            ),
            Ok(_) => Ok(()),
        };
    }
    run.nontrivial = !want.is_empty();
    for _ in 0..run.c.range(1, 2) {
        let order = run.c.seed();
        let how = run.c.below(4);
        let spaces = formats::namespaces_of(&m);
        let (name, got) = if how < 2 {
            let (seed, m2) = (run.c.seed(), m.clone());
            let g = run
                .pure_life("form-again", seed, move || form(&build_shuffled(&m2, order)))
                .ok("making the form")?;
            ("built in another order by another process", g)
        } else {
            // saved by one process, loaded by another
            let idl = how == 3 && spaces.len() == 1 && !mix.wild_strings && !mix.wild_keys;
            let m2 = if idl { crate::idl::without_list_member_traits(&m) } else { m.clone() };
            let lang = if idl { Lang::Idl } else { Lang::Json };
            let mut fs = Fs::default();
            fs.add_dir("/sim/data");
            let plan = run.benign_plan();
            let (m3, ns) = (m2.clone(), spaces.first().cloned().unwrap_or_default());
            let saved = run.life("save", plan, fs, move || {
                as_read();
                let m = build_shuffled(&m3, order);
                let text = if idl {
                    write_model_to_string(&mut SmithyWriter::new(nsid(&ns)), &m)
                } else {
                    write_model_to_string(&mut JsonWriter::default(), &m)
                };
                let text = text.map_err(|e| e.to_string())?;
                std::fs::write("/sim/data/m", text).map_err(|e| e.to_string())?;
                form(&m)
            });
            let fs = saved.fs.clone();
            let before = match saved.ok("saving")? {
                Ok(f) => f,
                Err(e) => return violation("a model cannot be saved", e),
            };
            let plan = run.benign_plan();
            let got = run
                .life("load", plan, fs, move || {
                    lang.read_file("/sim/data/m").and_then(|m| form(&m).map(|f| (f, canon(&m))))
                })
                .ok("loading")?;
            let (got, loaded) = match got {
                Ok(x) => x,
                Err(e) => return violation("a saved model cannot be loaded", e),
            };
            if diff(&m2, &loaded).is_some() {
                // what saving loses is the business of other properties
                run.probe("reload differs");
                continue;
            }
            run.probe(if idl { "reloaded from IDL" } else { "reloaded from JSON" });
            if before != got {
                return violation(
                    format!("another form after reloading from {}", if idl { "IDL" } else { "JSON" }),
                    first_difference(&before, &got),
                );
            }
            continue;
        };
        match got {
            Err(e) => return violation("the form cannot be written", e),
            Ok(g) if g != want => {
                return violation(format!("another form when {name}"), first_difference(&want, &g))
            }
            Ok(_) => {}
        }
    }
    Ok(())
}
