//! Uses of the library as data: what a thread or an instance is asked to do, and what came of it in
//! a form that does not depend on hash order or on the numbers of blank nodes.

use crate::canon::*;
use crate::choice::Choices;
use crate::formats::{self, Format, Lang};
use crate::gen::{self, Mix};
use crate::props::files;
use crate::run::{guarded, Run, Shared};
use crate::streams::*;
use crate::{corrupt, verdict};
use atelier_assembler::ModelAssembler;
use atelier_core::action::lint::{run_linter_actions, NamingConventions, UnwelcomeTerms};
use atelier_core::action::validate::{run_validation_actions, CorrectTypeReferences, NoUnresolvedReferences};
use atelier_core::action::{Linter, Validator};
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::{read_model_from_file, write_model_to_file, ModelReader, ModelWriter};
use atelier_core::model::{Identifier, Model, NamespaceID, ShapeID};
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::{SmithyReader, SmithyWriter};
use simrt::{Action, Ctx, Fault, Fs, OpClass, Plan};
use std::collections::BTreeMap;
use std::io::ErrorKind;
use std::path::Path;
use std::str::FromStr;

#[derive(Clone, Debug)]
pub enum What {
    Read { lang: Lang, doc: Vec<u8>, d: Delivery, fault: StreamFault, panic_at: Option<usize> },
    ReadFile { lang: Lang },
    Write { format: Format, model: CModel, d: Delivery, fault: StreamFault, panic_at: Option<usize> },
    WriteFile { format: Format, model: CModel },
    Lint { model: CModel, fast: bool },
    Validate { model: CModel, fast: bool },
    Merge { a: CModel, b: CModel },
    Assemble { roots: Vec<String>, registry: u64 },
    Names { texts: Vec<String> },
    Prelude,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub what: What,
    pub plan: Plan,
    pub fs: Fs,
}

impl Op {
    pub fn kind(&self) -> &'static str {
        match &self.what {
            What::Read { lang: Lang::Json, .. } => "read-json",
            What::Read { .. } => "read-idl",
            What::ReadFile { .. } => "read-file",
            What::Write { format, .. } => match format.name() {
                "json" | "json-pretty" => "write-json",
                "smithy" => "write-idl",
                "lines" | "debug" => "write-lines",
                "documentation" => "write-docs",
                "graphml" => "write-graphml",
                "plantuml" => "write-uml",
                _ => "write-rdf",
            },
            What::WriteFile { .. } => "write-file",
            What::Lint { .. } => "lint",
            What::Validate { .. } => "validate",
            What::Merge { .. } => "merge",
            What::Assemble { .. } => "assemble",
            What::Names { .. } => "names",
            What::Prelude => "prelude",
        }
    }
    /// A use that is meant to fail part-way.
    pub fn faulty(&self) -> bool {
        match &self.what {
            What::Read { fault, panic_at, .. } | What::Write { fault, panic_at, .. } => {
                *fault != StreamFault::None || panic_at.is_some()
            }
            _ => !self.plan.faults.is_empty() || self.plan.capacity.is_some(),
        }
    }
    pub fn describe(&self) -> String {
        let s = match &self.what {
            What::Read { lang, doc, d, fault, panic_at } => {
                format!("{lang:?} {:?} {d:?} {fault:?} {panic_at:?}", String::from_utf8_lossy(doc))
            }
            What::Write { format, model, d, fault, panic_at } => {
                format!("{format:?} {d:?} {fault:?} {panic_at:?} {}", to_json(model))
            }
            What::WriteFile { format, model } => format!("{format:?} {}", to_json(model)),
            What::Lint { model, fast } | What::Validate { model, fast } => format!("{fast} {}", to_json(model)),
            What::Merge { a, b } => format!("{} with {}", to_json(a), to_json(b)),
            What::ReadFile { lang } => {
                format!("{lang:?} {:?}", String::from_utf8_lossy(&self.fs.read_file("/sim/x/doc").unwrap_or_default()))
            }
            w => format!("{w:?}"),
        };
        let s: String = s.chars().take(1200).collect();
        if self.plan.faults.is_empty() && self.plan.capacity.is_none() {
            format!("{}: {s}", self.kind())
        } else {
            format!("{}: {s} faults {:?} capacity {:?}", self.kind(), self.plan.faults, self.plan.capacity)
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Instances
// ------------------------------------------------------------------------------------------------

/// The instances one user holds on to.
#[derive(Default)]
pub struct Bench {
    reuse: bool,
    json_reader: Option<JsonReader>,
    idl_reader: Option<SmithyReader>,
    json_writers: BTreeMap<bool, JsonWriter>,
    idl_writers: BTreeMap<String, SmithyWriter>,
    lines: Option<LineOrientedWriter>,
    debug: Option<DebugWriter>,
    docs: Option<DocumentationWriter>,
    graphml: Option<GraphMLWriter>,
    uml: BTreeMap<bool, PlantUmlWriter>,
    rdf: BTreeMap<bool, RdfWriter>,
    linters: Option<Vec<Box<dyn Linter>>>,
    validators: Option<Vec<Box<dyn Validator>>>,
    assembler: Option<(u64, Vec<String>, ModelAssembler)>,
}

impl Bench {
    pub fn new(reuse: bool) -> Bench {
        Bench { reuse, ..Bench::default() }
    }
    fn reading<T>(&mut self, lang: Lang, json: impl FnOnce(&mut JsonReader) -> T, idl: impl FnOnce(&mut SmithyReader) -> T) -> T {
        match lang {
            Lang::Json => json(self.json_reader.get_or_insert_with(JsonReader::default)),
            Lang::Idl => idl(self.idl_reader.get_or_insert_with(SmithyReader::default)),
        }
    }
}

macro_rules! writing {
    ($b:expr, $f:expr, $w:ident => $body:expr) => {
        match $f {
            Format::JsonCompact => { let $w = $b.json_writers.entry(false).or_insert_with(|| JsonWriter::new(false)); $body }
            Format::JsonPretty => { let $w = $b.json_writers.entry(true).or_insert_with(|| JsonWriter::new(true)); $body }
            Format::Smithy(ns) => { let $w = $b.idl_writers.entry(ns.clone()).or_insert_with(|| SmithyWriter::new(nsid(ns))); $body }
            Format::Lines => { let $w = $b.lines.get_or_insert_with(LineOrientedWriter::default); $body }
            Format::Debug => { let $w = $b.debug.get_or_insert_with(DebugWriter::default); $body }
            Format::Docs => { let $w = $b.docs.get_or_insert_with(DocumentationWriter::default); $body }
            Format::GraphMl => { let $w = $b.graphml.get_or_insert_with(GraphMLWriter::default); $body }
            Format::Uml(e) => { let $w = $b.uml.entry(*e).or_insert_with(|| PlantUmlWriter::new(*e)); $body }
            Format::Rdf(i) => {
                let $w = $b.rdf.entry(*i).or_insert_with(|| if *i { RdfWriter::new(formats::model_iri()) } else { RdfWriter::default() });
                $body
            }
        }
    };
}

// ------------------------------------------------------------------------------------------------
// Results
// ------------------------------------------------------------------------------------------------

fn model_text(m: &Model) -> String {
    format!("{:?}", canon(m))
}
fn outcome<E: std::fmt::Display>(r: Result<Model, E>) -> String {
    match r {
        Ok(m) => model_text(&m),
        Err(_) => "error".into(),
    }
}

/// What a text says, whatever order its parts come in.
pub fn unordered_text(f: &Format, out: &[u8]) -> String {
    let text = String::from_utf8_lossy(out);
    let word = |w: &str| -> String {
        match w.find("_:") {
            Some(p) if matches!(f, Format::Rdf(_)) => format!("{}_:", &w[..p]),
            // edges are numbered as they come
            _ if matches!(f, Format::GraphMl) && w.starts_with("id=\"e") => "id".to_string(),
            _ => w.to_string(),
        }
    };
    let split = |l: &str| -> Vec<String> {
        let mut v: Vec<String> = l
            .split(|c: char| c.is_whitespace() || "{}[](),;".contains(c))
            .filter(|w| !w.is_empty())
            .map(word)
            .collect();
        v.sort();
        v
    };
    let mut rows: Vec<String> = match f {
        Format::JsonPretty | Format::Smithy(_) => text
            .lines()
            .map(|l| {
                let indent: String = l.chars().take_while(|c| c.is_whitespace()).collect();
                format!("{indent}|{}", split(l).join(" "))
            })
            .collect(),
        Format::Docs | Format::Rdf(_) => {
            // one line or many, depending on what comes first
            let mut v = split(&text);
            v.retain(|w| w != "." && w != ">");
            v
        }
        _ => split(&text),
    };
    rows.sort();
    rows.join("\n")
}

fn write_outcome(f: &Format, r: Result<(), String>, out: &[u8]) -> String {
    match r {
        Ok(()) => unordered_text(f, out),
        Err(_) => "error".into(),
    }
}

fn names(texts: &[String]) -> String {
    let mut out = String::new();
    for t in texts {
        let a = ShapeID::from_str(t).map(|i| i.to_string()).map_err(|_| ());
        let b = Identifier::from_str(t).map(|i| i.to_string()).map_err(|_| ());
        let c = NamespaceID::from_str(t).map(|i| i.to_string()).map_err(|_| ());
        out.push_str(&format!(
            "{t:?} {a:?} {b:?} {c:?} {} {} {}\n",
            ShapeID::is_valid(t),
            Identifier::is_valid(t),
            NamespaceID::is_valid(t)
        ));
    }
    out
}

fn prelude() -> String {
    let mut shapes: Vec<String> = atelier_core::prelude::defined_prelude_shapes().iter().map(|s| s.to_string()).collect();
    shapes.sort();
    let mut traits: Vec<String> = atelier_core::prelude::defined_prelude_traits().iter().map(|s| s.to_string()).collect();
    traits.sort();
    format!("{shapes:?} {traits:?}")
}

/// Do it, on this thread, with these instances.
pub fn perform(op: &Op, bench: &mut Bench, sh: &Shared) -> String {
    let mut spare = Bench::default();
    let b = if bench.reuse { bench } else { &mut spare };
    let ctx = Box::new(Ctx::new(op.plan.clone(), op.fs.clone()));
    unsafe { simrt::set_ctx(&*ctx) };
    let r = guarded(|| match &op.what {
        What::Read { lang, doc, d, fault, panic_at } => {
            let mut s = SimReader::new(doc, *d, fault.clone(), sh);
            s.panic_at = *panic_at;
            s.yields = Some(crate::sched::call_point);
            let s = &mut s;
            // two closures, one use
            match lang {
                Lang::Json => outcome(b.reading(Lang::Json, |r| Some(r.read(s)), |_| None).unwrap()),
                Lang::Idl => outcome(b.reading(Lang::Idl, |_| None, |r| Some(r.read(s))).unwrap()),
            }
        }
        What::ReadFile { lang } => b.reading(
            *lang,
            |r| outcome(read_model_from_file(r, "/sim/x/doc".into())),
            |r| outcome(read_model_from_file(r, "/sim/x/doc".into())),
        ),
        What::Write { format, model, d, fault, panic_at } => {
            let m = build(model);
            let mut s = SimWriter::new(*d, fault.clone(), sh);
            s.panic_at = *panic_at;
            s.yields = Some(crate::sched::call_point);
            let r = writing!(b, format, w => w.write(&mut s, &m).map_err(|e| e.to_string()));
            write_outcome(format, r, &s.out)
        }
        What::WriteFile { format, model } => {
            let m = build(model);
            let r = writing!(b, format, w => write_model_to_file(w, &m, "/sim/x/out".into()).map_err(|e| e.to_string()));
            match r {
                Ok(()) => {
                    // read back through the same simulated disk
                    let out = ctx.inner.lock().unwrap().fs.read_file("/sim/x/out").unwrap_or_default();
                    write_outcome(format, Ok(()), &out)
                }
                Err(e) => write_outcome(format, Err(e), &[]),
            }
        }
        What::Lint { model, fast } => {
            let m = build(model);
            let l = b.linters.get_or_insert_with(|| vec![Box::new(NamingConventions::default()), Box::new(UnwelcomeTerms::default())]);
            match run_linter_actions(l, &m, *fast) {
                Ok(v) => format!("{:?}", verdict::sorted(&v)),
                Err(_) => "error".into(),
            }
        }
        What::Validate { model, fast } => {
            let m = build(model);
            let l = b
                .validators
                .get_or_insert_with(|| vec![Box::new(NoUnresolvedReferences::default()), Box::new(CorrectTypeReferences::default())]);
            match run_validation_actions(l, &m, *fast) {
                Ok(v) => format!("{:?}", verdict::sorted(&v)),
                Err(_) => "error".into(),
            }
        }
        What::Merge { a, b } => {
            let mut x = build(a);
            match x.merge(build(b)) {
                Ok(()) => model_text(&x),
                Err(_) => "error".into(),
            }
        }
        What::Assemble { roots, registry } => {
            let again = matches!(&b.assembler, Some((n, _, _)) if n == registry);
            if !again {
                b.assembler = Some((*registry, Vec::new(), ModelAssembler::new(files::registry(*registry), None)));
            }
            let (_, pushed, a) = b.assembler.as_mut().unwrap();
            for p in roots {
                if !pushed.contains(p) {
                    pushed.push(p.clone());
                    let _ = a.push(Path::new(p));
                }
            }
            match Model::try_from(a) {
                Ok(m) => format!("{:?}", files::unordered(&canon(&m))),
                Err(_) => "error".into(),
            }
        }
        What::Names { texts } => names(texts),
        What::Prelude => prelude(),
    });
    simrt::clear_ctx();
    let inner = ctx.inner.into_inner().unwrap_or_else(|e| e.into_inner());
    for (k, n) in &inner.fired {
        for _ in 0..*n {
            sh.fired(k);
        }
    }
    sh.note(inner.digest);
    match r {
        Ok(s) if inner.stuck => format!("stuck: {s}"),
        Ok(s) => s,
        Err(p) => {
            if p.message == INJECTED_PANIC {
                "panicked in the stream".into()
            } else {
                format!("panicked: {} {}", p.class(), p.message.chars().take(160).collect::<String>())
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Generation
// ------------------------------------------------------------------------------------------------

/// Somewhere in an output of this length, the beginning of it as likely as the rest.
fn offset(c: &mut Choices, len: usize) -> usize {
    if c.below(2) == 0 {
        c.size(len)
    } else {
        let bits = c.range(3, 8);
        c.size((1usize << bits).min(len))
    }
}

fn stream_fault(c: &mut Choices, len: usize) -> StreamFault {
    let at = offset(c, len + 10);
    let kind = *c.pick(&[
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::PermissionDenied,
        ErrorKind::TimedOut,
        ErrorKind::ConnectionReset,
    ]);
    match c.below(4) {
        0 | 1 => StreamFault::Err { at, kind, os: c.below(2) == 1 },
        2 => StreamFault::ErrOnce { at, kind },
        _ => StreamFault::Eof { at },
    }
}

fn plain_plan(run: &mut Run) -> Plan {
    let mut p = run.benign_plan();
    p.eintr_pm = p.eintr_pm.min(50);
    p
}

pub struct Kinds<'a> {
    pub kinds: &'a [u64],
    pub faults_pm: u64,
    pub panics: bool,
}

pub const ALL_KINDS: &[u64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

/// A use over these models (or damaged versions of documents of them).
pub fn op(run: &mut Run, mix: &mut Mix, m: &CModel, other: &CModel, k: &Kinds) -> Op {
    let mut plan = plain_plan(run);
    let mut fs = Fs::default();
    fs.add_dir("/sim/x");
    let faulty = run.c.chance(k.faults_pm);
    let c = &mut run.c;
    let formats = formats::namespaces_of(m);
    let what = match *c.pick(k.kinds) {
        n @ (0 | 1) => {
            let lang = if c.below(2) == 0 { Lang::Json } else { Lang::Idl };
            let (doc, _) = formats::document_of(c, mix, lang, m);
            let doc = match c.below(5) {
                3 => {
                    let (d2, _) = formats::document_of(c, mix, lang, other);
                    corrupt::bytes(c, doc.as_bytes(), d2.as_bytes())
                }
                4 => doc.as_bytes()[..c.size(doc.len() + 1)].to_vec(),
                _ => doc.into_bytes(),
            };
            if n == 0 {
                let (mut fault, mut panic_at) = (StreamFault::None, None);
                if faulty {
                    if k.panics && c.below(3) == 2 {
                        panic_at = Some(c.size(doc.len() + 1));
                    } else {
                        fault = stream_fault(c, doc.len());
                    }
                }
                let d = run.delivery();
                What::Read { lang, doc, d, fault, panic_at }
            } else {
                fs.add_file("/sim/x/doc", &doc);
                if faulty {
                    plan.faults.push(Fault {
                        class: *c.pick(&[OpClass::Read, OpClass::Open]),
                        nth: 0,
                        action: Action::Errno(*c.pick(&[libc::EIO, libc::EACCES])),
                        sticky: true,
                    });
                }
                What::ReadFile { lang }
            }
        }
        2 | 3 => {
            let format = formats::any(c, &formats);
            let (mut fault, mut panic_at) = (StreamFault::None, None);
            if faulty {
                // where an output ends may depend on the numbers of blank nodes
                let most = if matches!(format, Format::Rdf(_)) { 60 } else { 900 };
                if k.panics && c.below(3) == 2 {
                    panic_at = Some(offset(c, most));
                } else {
                    fault = stream_fault(c, most - 10);
                }
            }
            let d = run.delivery();
            What::Write { format, model: m.clone(), d, fault, panic_at }
        }
        4 => {
            let format = formats::any(c, &formats);
            if faulty {
                if c.below(2) == 0 && !matches!(format, Format::Rdf(_)) {
                    plan.capacity = Some(offset(c, 600) as u64);
                } else {
                    plan.faults.push(Fault {
                        class: OpClass::Open,
                        nth: 0,
                        action: Action::Errno(*c.pick(&[libc::EIO, libc::EACCES])),
                        sticky: true,
                    });
                }
            }
            What::WriteFile { format, model: m.clone() }
        }
        5 => What::Lint { model: m.clone(), fast: c.below(2) == 1 },
        6 => What::Validate { model: m.clone(), fast: c.below(2) == 1 },
        7 => What::Merge { a: m.clone(), b: other.clone() },
        8 => {
            let n = c.range(1, 8);
            let texts = (0..n)
                .map(|_| {
                    let ids: Vec<&String> = m.shapes.keys().collect();
                    let mut t = match c.below(4) {
                        0 if !ids.is_empty() => ids[c.size(ids.len())].to_string(),
                        1 => format!("{}#{}${}", c.pick(&gen::NAMESPACES), c.pick(&gen::NAMES), c.pick(&gen::MEMBERS)),
                        2 => c.pick(&gen::NAMES).to_string(),
                        _ => c.pick(&gen::NAMESPACES).to_string(),
                    };
                    if c.below(4) == 3 {
                        t.push_str(*c.pick(&["#", "$", ".", " ", "-", "é", "_9", "##a", "$a$b"]));
                    }
                    t
                })
                .collect();
            What::Names { texts }
        }
        _ => What::Prelude,
    };
    Op { what, plan, fs }
}

/// Assembling a world of files.
pub fn assembly(run: &mut Run, m: &CModel, mix: &Mix, faults_pm: u64) -> Option<Op> {
    let mut plan = plain_plan(run);
    if !mix.mild {
        return None;
    }
    let registry = *run.c.pick(&[0u64, 0, 1]);
    let w = files::world_of(run, m, mix, true, 4, registry)?;
    if run.c.chance(faults_pm) {
        plan.faults.push(Fault {
            class: *run.c.pick(&[OpClass::Open, OpClass::Read]),
            nth: 0,
            action: Action::Errno(*run.c.pick(&[libc::EIO, libc::EACCES])),
            sticky: true,
        });
    }
    let mut fs = w.fs.clone();
    fs.add_dir("/sim/x");
    Some(Op {
        what: What::Assemble { roots: w.roots.clone(), registry },
        plan,
        fs,
    })
}

/// The model of a use: ordinary, or with names that linters object to.
pub fn a_model(c: &mut Choices, mix: &Mix) -> CModel {
    if c.below(3) == 2 {
        verdict::spiced(c, mix)
    } else {
        gen::model(c, mix)
    }
}
