//! The properties, each a scenario over the real code with its own oracle.

use crate::run::{Outcome, Run};
use simrt::{Action, Fault, OpClass, Plan};

pub mod actions;
pub mod assemble;
pub mod builder;
pub mod diagrams;
pub mod docs;
pub mod files;
pub mod idl_disk;
pub mod json_disk;
pub mod lines;
pub mod merge;
pub mod rdf;
pub mod refuse;
pub mod selectors;
pub mod stream_in;
pub mod stream_out;
pub mod threads;
pub mod tool;
pub mod visit;

pub struct Prop {
    pub id: &'static str,
    pub title: &'static str,
    pub run: fn(&mut Run) -> Outcome,
    pub quick_runs: u64,
    /// Every n-th run is executed twice and its digests compared.
    pub recheck: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

impl Prop {
    /// Every process of a run is forked from one in which the library has never been used.
    pub fn own_processes(&self) -> bool {
        matches!(self.id, "P17" | "P18")
    }
}

pub const STUB_OS: &[&str] = &[
    "kernel file system, directory listing and getrandom (in-memory, behind the libc symbols)",
];
pub const STUB_STREAM: &[&str] = &[
    "the Read/Write arguments (simulated streams)",
    "getrandom (hash keys), behind the libc symbol",
];

/// One of: a disk that fills up, an I/O error while writing, a crash while writing.
pub fn save_faults(run: &mut Run, plan: &mut Plan) {
    match run.c.below(3) {
        0 => plan.capacity = Some(run.c.below(4000)),
        1 => {
            let class = *run.c.pick(&[OpClass::Write, OpClass::Write, OpClass::Open]);
            let nth = run.c.below(if class == OpClass::Open { 3 } else { 60 });
            let errno = *run.c.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT, libc::EACCES]);
            let sticky = run.c.below(2) == 1;
            plan.faults.push(Fault { class, nth, action: Action::Errno(errno), sticky });
        }
        _ => {
            let class = *run.c.pick(&[OpClass::Write, OpClass::Write, OpClass::Open]);
            let nth = run.c.below(if class == OpClass::Open { 3 } else { 90 });
            plan.faults.push(Fault { class, nth, action: Action::Crash, sticky: false });
        }
    }
}

/// One of: a read that fails, a file that cannot be opened, a file cut short.
pub fn load_faults(run: &mut Run, plan: &mut Plan) {
    let class = *run.c.pick(&[OpClass::Read, OpClass::Open]);
    let nth = if class == OpClass::Open { run.c.below(2) } else { run.c.below(30) };
    let action = if class == OpClass::Read && run.c.below(2) == 1 {
        Action::Eof
    } else {
        Action::Errno(*run.c.pick(&[libc::EIO, libc::EACCES]))
    };
    plan.faults.push(Fault { class, nth, action, sticky: true });
}

pub fn all() -> Vec<&'static Prop> {
    vec![
        &json_disk::P01,
        &idl_disk::P02,
        &stream_in::P03,
        &stream_in::P04,
        &stream_in::P05,
        &stream_out::P06,
        &stream_out::P07,
        &tool::P11,
        &tool::P12,
        &lines::P13,
        &visit::P14,
        &actions::P15,
        &actions::P16,
        &files::P08,
        &files::P09,
        &merge::P10,
        &merge::P19,
        &threads::P17,
        &threads::P18,
        &docs::P20,
        &diagrams::P21,
        &rdf::P22,
        &builder::P23,
        &selectors::P24,
        &refuse::P25,
    ]
}

pub fn find(id: &str) -> Option<&'static Prop> {
    all().into_iter().find(|p| p.id == id)
}

/// Initialise process-wide lazies under fixed hash keys, before any run.
pub fn warm_up() {
    // every regular expression keeps a pool of caches for eight classes of threads, and making one
    // draws hash keys: fill them all, so that no run depends on the ones before it
    for _ in 0..16 {
        warm_up_once(true);
    }
}

/// `rdf`: what the RDF writer uses as well, which takes a while.
pub fn warm_up_once(rdf: bool) {
    let mut r = Run::new(crate::choice::Choices::replay(&[]), false);
    let _ = r.pure_life("warm-up", 7, move || {
        use atelier_core::io::read_model_from_string;
        let _ = read_model_from_string(
            &mut atelier_smithy::SmithyReader::default(),
            "$version: \"1.0\"\nnamespace a\n@required\nstring S\nlist L { member: S }\n",
        );
        let _ = read_model_from_string(
            &mut atelier_json::JsonReader::default(),
            r#"{"smithy":"1.0","shapes":{"a#S":{"type":"string"}}}"#,
        );
        let _ = atelier_core::prelude::defined_prelude_shapes();
        let _ = atelier_core::prelude::defined_prelude_traits();
        let m = read_model_from_string(
            &mut atelier_json::JsonReader::default(),
            r#"{"smithy":"1.0","metadata":{"a":[1,{"b":null}]},"shapes":{"a#S":{"type":"structure","members":{"a":{"target":"a#T"}},"traits":{"a#t":{"k":[1.5]}}}}}"#,
        )
        .expect("warm-up");
        for f in crate::formats::all(&["a".to_string()]) {
            if !rdf && matches!(f, crate::formats::Format::Rdf(_)) {
                continue;
            }
            let mut out = Vec::new();
            let _ = f.write(&mut out, &m);
        }
        let _ = atelier_core::prelude::prelude_shape_named("String");
        let _ = atelier_lib::actions::standard_model_lint(&m, false);
        let _ = atelier_lib::actions::standard_model_validation(&m, false);
    });
}
