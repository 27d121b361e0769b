//! P02: a model saved as Smithy IDL survives the process that saved it, and any legal layout of a
//! document loads as the model it describes.

use super::*;
use crate::canon::*;
use crate::gen;
use crate::idl::{self, Style};
use crate::run::{violation, Violation};
use atelier_core::io::{read_model_from_file, write_model_to_file, write_model_to_string, ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_smithy::{SmithyReader, SmithyWriter};
use simrt::Fs;
use std::io::Write;

pub static P02: Prop = Prop {
    id: "P02",
    title: "Models saved as Smithy IDL survive restarts and disk faults; every legal layout loads as the model it describes",
    run,
    quick_runs: 90_000,
    recheck: 40,
    rule: "A generated model is saved, one file per namespace, and reloaded by 2 to 4 process lifetimes with different hash keys under short transfers, EINTR, disk-full, I/O errors and crashes; a reference writer also spells it in a random legal layout; non-trivial: at least one shape or metadata entry was written and read.",
    real: &["atelier_core::model and builder", "atelier_core::io", "atelier_smithy reader, grammar and writer", "std::fs, std::io, pest"],
    stubs: STUB_OS,
    assumptions: &[
        "unresolved shapes without traits are references, not content; traits applied to a member of a shape in the same document belong to that member",
        "an annotation trait without a value and one with the empty object are the same value",
        "a file holds the metadata, the shapes of its namespace and the traits applied to shapes defined nowhere",
    ],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Flavour {
    Plain,
    Escapes,
    QuotedKeys,
    ListMemberTraits,
}

fn path(ns: &str) -> String {
    format!("/sim/data/{ns}.smithy")
}

/// Keep the model inside what the flavour is about.
fn tame(m: &mut CModel, f: Flavour) {
    if f == Flavour::ListMemberTraits {
        // fall through to the clean-up of placeholders
    } else {
        *m = idl::without_list_member_traits(m);
    }
    // traits both applied to a member from outside and given at the member would conflict
    let ids: Vec<String> = m.shapes.keys().filter(|k| k.contains('$')).cloned().collect();
    for id in ids {
        let (s, mem) = id.split_once('$').unwrap();
        let listy = matches!(m.shapes.get(s).map(|s| &s.body), Some(CBody::List(_)) | Some(CBody::Set(_)));
        let have: Vec<String> = m
            .shapes
            .get(s)
            .map(|s| {
                idl::members_of(&s.body)
                    .iter()
                    .filter(|x| x.id == mem)
                    .flat_map(|x| x.traits.keys().cloned())
                    .collect()
            })
            .unwrap_or_default();
        let p = m.shapes.get_mut(&id).unwrap();
        p.traits.retain(|k, _| !have.contains(k));
        if listy {
            p.traits.clear();
        }
    }
}

fn save(m: &Model, ns: &str, how: u64) -> Result<(), String> {
    let mut w = SmithyWriter::new(nsid(ns));
    let p = path(ns);
    let e = |e: &dyn std::fmt::Display| e.to_string();
    match how {
        0 => {
            let mut f = std::fs::File::create(&p).map_err(|x| e(&x))?;
            w.write(&mut f, m).map_err(|x| e(&x))?;
            f.flush().map_err(|x| e(&x))
        }
        1 => write_model_to_file(&mut w, m, p.into()).map_err(|x| e(&x)),
        _ => {
            let s = write_model_to_string(&mut w, m).map_err(|x| e(&x))?;
            std::fs::write(&p, s).map_err(|x| e(&x))
        }
    }
}

fn load(p: &str, whole: bool) -> Result<Model, String> {
    let mut r = SmithyReader::default();
    if whole {
        let mut f = std::fs::File::open(p).map_err(|x| x.to_string())?;
        r.read(&mut f).map_err(|x| x.to_string())
    } else {
        read_model_from_file(&mut r, p.into()).map_err(|x| x.to_string())
    }
}

/// Compare; where the flavour's one known weakness explains everything, say so in the class.
fn judge(want: &CModel, got: &CModel, f: Flavour, what: &str) -> Result<(), Violation> {
    let (want, got) = (idl::settle(want), idl::settle(got));
    let (k, d) = match diff(&want, &got) {
        None => return Ok(()),
        Some(x) => x,
    };
    // to the end, on both sides: documentation comments have no escapes, so that only some of the
    // texts of a document come back undecoded
    let undecoded = |s: &str| {
        let mut s = s.to_string();
        while let Some(x) = idl::unescape(&s).filter(|x| *x != s) {
            s = x;
        }
        s
    };
    let unquoted = |s: &str| match s.strip_prefix('"').and_then(|s| s.strip_suffix('"')) {
        Some(s) => s.to_string(),
        None => s.to_string(),
    };
    match f {
        Flavour::Plain => {}
        Flavour::Escapes => {
            let plain = |m: &CModel| idl::rewrite(m, &undecoded, &|k: &str| k.to_string());
            if diff(&plain(&want), &plain(&got)).is_none() {
                return violation("escaped text comes back with its escapes", format!("{what}: {d}"));
            }
        }
        Flavour::QuotedKeys => {
            let g = idl::rewrite(&got, &|s: &str| s.to_string(), &unquoted);
            if diff(&want, &g).is_none() {
                return violation("quoted object key comes back with its quotes", format!("{what}: {d}"));
            }
        }
        Flavour::ListMemberTraits => {
            let w = idl::without_list_member_traits(&want);
            let g = idl::without_list_member_traits(&got);
            // nothing but what the text gave: some of the traits, none of them changed
            let none = got.shapes.iter().all(|(id, s)| match (&s.body, want.shapes.get(id).map(|s| &s.body)) {
                (CBody::List(g), Some(CBody::List(w))) | (CBody::Set(g), Some(CBody::Set(w))) => {
                    g.traits.iter().all(|(k, v)| w.traits.get(k) == Some(v))
                }
                _ => true,
            });
            if none && diff(&w, &g).is_none() {
                return violation("traits written at a list or set member are lost", format!("{what}: {d}"));
            }
        }
    }
    violation(format!("{what}: {k}"), d)
}

fn run(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let f = match run.c.below(12) {
        9 => Flavour::Escapes,
        10 => Flavour::QuotedKeys,
        11 => Flavour::ListMemberTraits,
        _ => Flavour::Plain,
    };
    mix.mild = f != Flavour::Escapes;
    mix.wild_keys = f == Flavour::QuotedKeys;
    mix.nulls = run.c.below(2) == 1;
    let mut want = gen::model(&mut run.c, &mix);
    tame(&mut want, f);
    run.mark(to_json(&want).to_string().as_bytes());
    run.log(|| format!("flavour {f:?} model {}", to_json(&want)));
    run.nontrivial = size_of(&want) > 0;
    run.probe(&format!("flavour-{f:?}"));

    let mut namespaces: Vec<String> = Vec::new();
    for id in want.shapes.keys() {
        let ns = idl::ns_of(id).to_string();
        if !namespaces.contains(&ns) {
            namespaces.push(ns);
        }
    }
    let mut weak: Outcome = Ok(());
    let mut fs = Fs::default();
    fs.add_dir("/sim/data");

    // a document another tool or a person wrote
    if run.c.below(2) == 1 {
        let ns = run.c.pick(&namespaces).clone();
        let p = idl::part(&want, &ns);
        let style = Style {
            escapes: f == Flavour::Escapes,
            quoted_keys: f == Flavour::QuotedKeys,
            list_member_traits: f == Flavour::ListMemberTraits,
            layout: run.c.below(3),
        };
        let text = idl::text(&mut run.c, &p, &ns, style);
        run.log(|| format!("document {:?}", text.chars().take(1500).collect::<String>()));
        let mut f2 = fs.clone();
        f2.add_file("/sim/data/other.smithy", text.as_bytes());
        let plan = run.benign_plan();
        let got = run.life("load-document", plan, f2, || {
            load("/sim/data/other.smithy", false).map(|m| canon(&m))
        });
        match got.ok("loading a document")? {
            Err(e) => {
                return violation(
                    "legal document refused",
                    format!("{e}: {}", text.chars().take(900).collect::<String>()),
                )
            }
            Ok(g) => {
                let j = judge(&p, &g, f, "document");
                if weak.is_ok() {
                    weak = j;
                }
            }
        }
        run.probe("document-loaded");
        if style.layout > 0 {
            run.probe("document-in-varied-layout");
        }
    }

    let how = run.c.below(3);
    let faults = run.c.below(5) >= 2;
    let mut plan = run.benign_plan();
    if faults {
        save_faults(run, &mut plan);
    }
    let bystander = b"bystander".to_vec();
    fs.add_file("/sim/data/notes.txt", &bystander);
    let built = want.clone();
    let nss = namespaces.clone();
    let saved = run.life("save", plan, fs, move || {
        let m = build(&built);
        nss.iter()
            .map(|ns| save(&m, ns, how))
            .collect::<Vec<Result<(), String>>>()
    });
    let (crashed, errors) = (saved.crashed, saved.errors_returned);
    let mut fs = saved.fs.clone();
    if fs.read_file("/sim/data/notes.txt") != Some(bystander) {
        return violation("save changed another file", "notes.txt");
    }
    let mut acked: Vec<bool> = vec![false; namespaces.len()];
    if crashed {
        run.probe("crashed-while-saving");
    } else {
        let results = saved.ok("saving")?;
        if errors > 0 && results.iter().all(|r| r.is_ok()) {
            return violation(
                "save reported success after an I/O error",
                format!("{errors} call(s) failed, yet every save returned Ok"),
            );
        }
        for (i, r) in results.into_iter().enumerate() {
            match r {
                Ok(()) => acked[i] = true,
                Err(e) if errors == 0 => return violation("save failed without a fault", e),
                Err(_) => run.probe("save-failed-and-said-so"),
            }
        }
    }

    let rounds = run.c.range(1, 3);
    for round in 0..rounds {
        let mut plan = run.benign_plan();
        let faulty = round == 0 && run.c.below(4) == 3;
        if faulty {
            load_faults(run, &mut plan);
        }
        let whole = run.c.below(2) == 1;
        let nss = namespaces.clone();
        let resave = round + 1 < rounds && !faulty && f == Flavour::Plain && acked.iter().all(|a| *a);
        let how = run.c.below(3);
        let got = run.life("load", plan, fs.clone(), move || {
            let loaded: Vec<Result<Model, String>> = nss.iter().map(|ns| load(&path(ns), whole)).collect();
            let models: Vec<Result<CModel, String>> = loaded
                .iter()
                .map(|r| match r {
                    Ok(m) => Ok(canon(m)),
                    Err(e) => Err(e.clone()),
                })
                .collect();
            let mut again: Result<(), String> = Ok(());
            if resave {
                for (ns, m) in nss.iter().zip(&loaded) {
                    if let Ok(m) = m {
                        again = again.and(save(m, ns, how));
                    }
                }
            }
            (models, again)
        });
        let eof = got.fired.contains_key("read:early-eof");
        let errs = got.errors_returned;
        let after = got.fs.clone();
        let (models, again) = got.ok("loading")?;
        if errs > 0 && models.iter().all(|m| m.is_ok()) {
            return violation("load succeeded after an I/O error", "an error on a file was swallowed");
        }
        for (i, m) in models.into_iter().enumerate() {
            if !acked[i] {
                // a torn text may still be a legal, shorter text: nothing is promised about it
                run.probe("unacknowledged-file-read");
                continue;
            }
            match m {
                Ok(_) if eof => run.probe("cut-short-on-the-way-in"),
                Ok(g) => {
                    let j = judge(&idl::part(&want, &namespaces[i]), &g, f, "reloaded model");
                    match j {
                        Err(v) if f == Flavour::Plain => return Err(v),
                        j if weak.is_ok() => weak = j,
                        _ => {}
                    }
                    run.probe("reloaded-equal");
                }
                Err(e) if errs == 0 && !eof => {
                    let text = fs.read_file(&path(&namespaces[i])).unwrap_or_default();
                    return violation(
                        "saved model cannot be reloaded",
                        format!("{e}: {}", String::from_utf8_lossy(&text).chars().take(900).collect::<String>()),
                    );
                }
                Err(_) => run.probe("load-refused"),
            }
        }
        if resave {
            if let Err(e) = again {
                return violation("second save failed without a fault", e);
            }
            fs = after;
            run.probe("saved-again");
        }
    }
    weak
}
