//! P08 and P09: assembling a model from files, directories and search paths.

use super::*;
use crate::canon::*;
use crate::choice::Choices;
use crate::formats::namespaces_of;
use crate::gen;
use crate::idl::{self, members_mut, Style};
use crate::mutate;
use crate::props::assemble::shuffle;
use crate::reference::{self, Refusal};
use crate::run::{violation, Violation};
use atelier_assembler::{FileType, FileTypeRegistry, ModelAssembler};
use atelier_core::io::ModelReader;
use atelier_core::model::Model;
use atelier_json::JsonReader;
use atelier_smithy::SmithyReader;
use search_path::SearchPath;
use simrt::{Fs, SplitMix};
use std::collections::BTreeSet;
use std::convert::TryFrom;
use std::path::{Path, PathBuf};

pub static P08: Prop = Prop {
    id: "P08",
    title: "Assembling a model does not depend on order, layout or directory listing",
    run: run_order,
    quick_runs: 30000,
    recheck: 40,
    rule: "A generated model is split over 1 to 6 files of either representation (shapes, applied traits, repeated definitions, metadata), laid out in nested directories, links and odd names next to files that do not count; 2 to 4 process lifetimes assemble it with other push orders, listing orders, hash keys and transfers; non-trivial: two files or more.",
    real: &["atelier_assembler", "atelier_core::model and builder", "atelier_json reader", "atelier_smithy reader", "search_path", "std::fs"],
    stubs: STUB_OS,
    assumptions: &[
        "the order of the elements of a concatenated array may follow the names of the files, but is the same in every execution on one disk",
        "a file reached by two different spellings through `..` or links is two files",
    ],
};

pub static P09: Prop = Prop {
    id: "P09",
    title: "Assembly is complete or it fails, whatever the file system does",
    run: run_faults,
    quick_runs: 80_000,
    recheck: 40,
    rule: "The same worlds, with an error, a vanishing file or an early end of file at any open, read, stat, directory or listing call, sticky or once, or with a missing path, a broken link, a link loop or an unreadable document on the disk; non-trivial: a fault fired or a bad entry was there.",
    real: &["atelier_assembler", "atelier_core::model and builder", "atelier_json reader", "atelier_smithy reader", "search_path", "std::fs"],
    stubs: STUB_OS,
    assumptions: &["an IDL file cut short between statements cannot be told from a shorter file"],
};

#[derive(Clone, Debug)]
pub struct Part {
    pub model: CModel,
    pub idl: Option<String>,
}

pub struct World {
    pub parts: Vec<Part>,
    pub fs: Fs,
    /// Directories (or files) to give to the assembler.
    pub roots: Vec<String>,
    /// The files that count.
    pub covered: BTreeSet<String>,
    pub registry: u64,
    /// What they add up to; `None` if they conflict.
    pub want: Option<CModel>,
}

/// Top-level arrays are concatenated in an order that may depend on the names of the files.
pub fn unordered(m: &CModel) -> CModel {
    fn sort(v: &mut CVal) {
        if let CVal::Arr(a) = v {
            a.sort_by_key(|v| format!("{v:?}"));
        }
    }
    let mut m = idl::settle(m);
    m.metadata.values_mut().for_each(sort);
    for s in m.shapes.values_mut() {
        s.traits.values_mut().for_each(sort);
        for x in members_mut(&mut s.body) {
            x.traits.values_mut().for_each(sort);
        }
    }
    m
}

fn split_traits(c: &mut Choices, t: &CTraits) -> (CTraits, CTraits) {
    let (mut a, mut b) = (CTraits::new(), CTraits::new());
    for (k, v) in t {
        match (c.below(4), v) {
            (0, _) => {
                b.insert(k.clone(), v.clone());
            }
            (1, CVal::Arr(x)) if !x.is_empty() => {
                let n = c.size(x.len() + 1);
                a.insert(k.clone(), CVal::Arr(x[..n].to_vec()));
                b.insert(k.clone(), CVal::Arr(x[n..].to_vec()));
            }
            (1, v) if !matches!(v, CVal::Arr(_)) => {
                a.insert(k.clone(), v.clone());
                b.insert(k.clone(), v.clone());
            }
            _ => {
                a.insert(k.clone(), v.clone());
            }
        }
    }
    (a, b)
}

/// Split a model into files, some of them Smithy IDL.
pub fn parts(c: &mut Choices, m: &CModel, max: u64) -> Vec<Part> {
    let nss = namespaces_of(m);
    let n = c.range(1, max) as usize;
    let mut out: Vec<Part> = (0..n)
        .map(|_| Part {
            model: CModel::default(),
            idl: if c.below(2) == 1 { Some(c.pick(&nss).clone()) } else { None },
        })
        .collect();
    fn put(out: &mut [Part], i: usize, id: &str, s: &CShape) -> bool {
        reference::add_shape(&mut out[i].model, id, s).is_ok()
    }
    for (id, s) in &m.shapes {
        if s.body == CBody::Unresolved && s.traits.is_empty() {
            continue;
        }
        let fits: Vec<usize> = (0..n)
            .filter(|i| match &out[*i].idl {
                None => true,
                Some(ns) => s.body == CBody::Unresolved || ns == idl::ns_of(id),
            })
            .collect();
        let home = match fits.is_empty() {
            true => {
                out[0].idl = None;
                0
            }
            false => *c.pick(&fits),
        };
        // what stays with the definition, and what other files say about the shape
        let mut here = s.clone();
        match c.below(4) {
            1 if n > 1 => {
                // traits applied from elsewhere
                let (a, b) = split_traits(c, &s.traits);
                here.traits = a;
                let other = (home + 1 + c.size(n - 1)) % n;
                if !b.is_empty() {
                    put(&mut out, other, id, &CShape { traits: b, body: CBody::Unresolved });
                }
                let list_like = matches!(s.body, CBody::List(_) | CBody::Set(_));
                let mut moved: Vec<(String, CTraits)> = Vec::new();
                for mem in members_mut(&mut here.body) {
                    if c.below(3) == 2 && !mem.traits.is_empty() && !list_like {
                        moved.push((mem.id.clone(), std::mem::take(&mut mem.traits)));
                    }
                }
                for (mem, t) in moved {
                    let other = (home + 1 + c.size(n - 1)) % n;
                    put(&mut out, other, &format!("{id}${mem}"), &CShape { traits: t, body: CBody::Unresolved });
                }
            }
            2 if fits.len() > 1 => {
                // defined twice
                let at = fits.iter().position(|i| *i == home).unwrap();
                let other = fits[(at + 1 + c.size(fits.len() - 1)) % fits.len()];
                let mut there = s.clone();
                let (a, b) = split_traits(c, &s.traits);
                here.traits = a;
                there.traits = b;
                for (x, y) in members_mut(&mut here.body).into_iter().zip(members_mut(&mut there.body)) {
                    let (a, b) = split_traits(c, &x.traits);
                    x.traits = a;
                    y.traits = b;
                }
                put(&mut out, other, id, &there);
            }
            _ => {}
        }
        put(&mut out, home, id, &here);
    }
    for (k, v) in &m.metadata {
        let i = c.size(n);
        let j = c.size(n);
        match v {
            CVal::Arr(x) if c.below(2) == 1 && i != j => {
                let at = c.size(x.len() + 1);
                out[i].model.metadata.insert(k.clone(), CVal::Arr(x[..at].to_vec()));
                out[j].model.metadata.insert(k.clone(), CVal::Arr(x[at..].to_vec()));
            }
            CVal::Arr(_) => {
                out[i].model.metadata.insert(k.clone(), v.clone());
            }
            v => {
                out[i].model.metadata.insert(k.clone(), v.clone());
                out[j].model.metadata.insert(k.clone(), v.clone());
            }
        }
    }
    out
}

pub fn part_text(c: &mut Choices, p: &Part) -> String {
    match &p.idl {
        None => gen::foreign_json(c, &p.model),
        Some(ns) => {
            let style = Style {
                escapes: false,
                quoted_keys: false,
                list_member_traits: false,
                layout: c.below(3),
            };
            idl::text(c, &p.model, ns, style)
        }
    }
}

/// What the parts add up to in every order, `Err` if in every order they conflict.
pub fn sum(parts: &[&CModel]) -> Result<CModel, Refusal> {
    let fold = |it: &mut dyn Iterator<Item = &&CModel>| {
        let mut m = CModel::default();
        for p in it {
            reference::merge(&mut m, p)?;
        }
        Ok(m)
    };
    let a = fold(&mut parts.iter());
    let b = fold(&mut parts.iter().rev());
    match (a, b) {
        (Ok(a), Ok(_)) => Ok(a),
        (Err(x), Err(y)) if x != Refusal::Open && y != Refusal::Open => Err(x),
        _ => Err(Refusal::Open),
    }
}

const TOPS: [&str; 2] = ["/sim/m", "/sim/n"];
const DIRS: [&str; 10] = [
    "/sim/m",
    "/sim/n",
    "/sim/m/a",
    "/sim/m/a/deep/er",
    "/sim/m/dir.json",
    "/sim/n/space in name",
    "/sim/n/日本.smithy",
    "/sim/m/a.b",
    "/sim/n/.hidden",
    "/sim/n/Z",
];
const STEMS: [&str; 10] = ["model", "Main", "a b", "x.y", ".dot", "日本", "z", "0", "traits.apply", "A"];

const DECOYS: [(&str, &str); 9] = [
    ("README", "not a model"),
    ("notes.txt", "{{{"),
    (".json", "{{{"),
    (".smithy", "{{{"),
    ("model.json.bak", "{\"smithy\""),
    ("model.smithy~", "namespace"),
    ("json", "{{{"),
    ("smithy", "{{{"),
    ("data.xml", "<a/>"),
];

pub fn registry(n: u64) -> FileTypeRegistry {
    if n == 3 {
        return own_registry();
    }
    let mut r = FileTypeRegistry::default();
    if n > 0 {
        let json = r.get("json").unwrap().clone();
        r.register(json.clone(), "ast");
        if n > 1 {
            r.register_all(json, &["mdl", "MODEL"]);
            let idl = r.remove("smithy").unwrap();
            r.register(idl, "sdl");
        }
    }
    r
}

/// A registry that knows only types of its own, and finds them by their MIME type.
fn own_registry() -> FileTypeRegistry {
    let ast = FileType::new_with_mime_type("An AST", |f| JsonReader::default().read(f), "application/x-AST");
    let idl = FileType::new_with_mime_type("An IDL", |f| SmithyReader::default().read(f), "text/x-idl");
    let mut r = FileTypeRegistry::empty();
    r.register_all(ast, &["json", "ast", "Mdl"]);
    r.register(idl, "Tmp");
    let again = r.get_by_mime_type("Text/X-IDL").expect("a type that was registered").clone();
    r.register(again, "smithy");
    let again = r.get_by_mime_type("application/x-ast").expect("a type registered with a few extensions").clone();
    r.register(again, "DATA");
    r.remove("tmp").expect("the extension that was registered");
    let mut known: Vec<&String> = r.extensions().collect();
    known.sort();
    assert_eq!(known, ["ast", "data", "json", "mdl", "smithy"], "the extensions that were registered");
    assert!(r.get_by_mime_type("text/plain").is_none() && !r.contains("tmp") && r.contains("AST"));
    r
}

/// Names of a registered type, and names that only look like it.
fn extension(c: &mut Choices, registry: u64, idl: bool) -> &'static str {
    match (registry, idl) {
        (2, true) => c.pick(&["sdl", "SDL", "Sdl"]),
        (_, true) => c.pick(&["smithy", "Smithy", "SMITHY"]),
        (0, false) => c.pick(&["json", "JSON", "Json"]),
        (3, false) => c.pick(&["json", "ast", "AST", "mdl", "MDL", "data", "Data"]),
        (1, false) => c.pick(&["json", "ast", "Ast", "JSON"]),
        (_, false) => c.pick(&["json", "ast", "AST", "mdl", "model", "Model"]),
    }
}

pub fn lay_out(c: &mut Choices, parts: Vec<Part>, registry: u64) -> World {
    let mut fs = Fs::default();
    for d in TOPS {
        fs.add_dir(d);
    }
    let ndirs = c.range(1, DIRS.len() as u64) as usize;
    let mut covered: BTreeSet<String> = BTreeSet::new();
    for (i, p) in parts.iter().enumerate() {
        let text = part_text(c, p);
        let ext = extension(c, registry, p.idl.is_some());
        let dir = DIRS[c.size(ndirs)];
        let stem = *c.pick(&STEMS);
        // names need to be different only within a directory
        let plain = format!("{stem}.{ext}");
        let name = if c.below(2) == 1 && !covered.contains(&format!("{dir}/{plain}")) && !DIRS.contains(&&*format!("{dir}/{plain}")) {
            plain
        } else {
            format!("{stem}{i}.{ext}")
        };
        let path = format!("{dir}/{name}");
        match c.below(8) {
            6 => {
                // a link to a file that is nowhere else
                let at = format!("/sim/store/{i}.dat");
                fs.add_file(&at, text.as_bytes());
                fs.add_dir(dir);
                fs.add_link(&path, &at);
                covered.insert(path);
            }
            7 => {
                // in a directory that is linked
                let at = format!("/sim/store/d{i}");
                fs.add_file(&format!("{at}/sub/{name}"), text.as_bytes());
                fs.add_dir(dir);
                let link = format!("{dir}/link{i}");
                fs.add_link(&link, &at);
                covered.insert(format!("{link}/sub/{name}"));
            }
            _ => {
                fs.add_file(&path, text.as_bytes());
                covered.insert(path);
            }
        }
    }
    for _ in 0..c.below(4) {
        let (name, text) = *c.pick(&DECOYS);
        let d = DIRS[c.size(ndirs)];
        fs.add_file(&format!("{d}/{name}"), text.as_bytes());
    }
    if registry == 2 {
        fs.add_file("/sim/m/ignored.smithy", b"namespace x\nstring NotThis\n");
    }
    if c.below(3) == 2 {
        fs.add_dir("/sim/m/empty/inner");
    }
    fs.add_file("/sim/elsewhere/other.json", br#"{"smithy":"1.0","shapes":{"never.read#S":{"type":"string"}}}"#);

    let mut roots: Vec<String> = Vec::new();
    let all: Vec<String> = covered.iter().cloned().collect();
    for top in TOPS {
        let inside: Vec<&String> = all.iter().filter(|p| p.starts_with(&format!("{top}/"))).collect();
        if c.below(3) == 2 {
            roots.extend(inside.into_iter().cloned());
        } else {
            roots.push(top.to_string());
        }
    }
    // paths that overlap the others
    for _ in 0..c.below(4) {
        let p = c.pick(&all).clone();
        let p = match c.below(3) {
            0 => p,
            _ => {
                let d = Path::new(&p).parent().unwrap().to_str().unwrap().to_string();
                // everything under it must count anyway
                if roots.iter().any(|r| d.starts_with(&format!("{r}/")) || &d == r) {
                    d
                } else {
                    p
                }
            }
        };
        roots.push(p);
    }
    roots.sort();
    roots.dedup();
    World {
        parts,
        fs,
        roots,
        covered,
        registry,
        want: None,
    }
}

/// A world of files, and what it adds up to; `None` where the rules leave it open.
pub fn world(run: &mut Run, conflicts: bool, max: u64) -> Option<World> {
    let mut mix = gen::mix(&mut run.c);
    mix.mild = true;
    mix.wild_keys = false;
    let m = gen::model(&mut run.c, &mix);
    let registry = *run.c.pick(&[0u64, 0, 1, 2, 3]);
    world_of(run, &m, &mix, conflicts, max, registry)
}

/// The same for a given model.
pub fn world_of(run: &mut Run, m: &CModel, mix: &gen::Mix, conflicts: bool, max: u64, registry: u64) -> Option<World> {
    let mut ps = parts(&mut run.c, &without_clashes(m), max);
    if conflicts && run.c.below(4) == 3 {
        // another file with something changed
        let victim = run.c.size(ps.len());
        let from = ps[victim].model.clone();
        let single: Option<CModel> = if run.c.below(3) == 2 && !from.metadata.is_empty() {
            let k = from.metadata.keys().nth(run.c.size(from.metadata.len())).unwrap().clone();
            let mut one = CModel::default();
            let mut v = from.metadata[&k].clone();
            mutate::val(&mut run.c, mix, &mut v);
            one.metadata.insert(k, v);
            Some(one)
        } else if !from.shapes.is_empty() {
            let k = from.shapes.keys().nth(run.c.size(from.shapes.len())).unwrap().clone();
            let mut one = CModel::default();
            one.shapes.insert(k.clone(), from.shapes[&k].clone());
            mutate::one(&mut run.c, mix, &one).map(|(_, m)| m)
        } else {
            None
        };
        if let Some(one) = single {
            let nss = namespaces_of(&one);
            let idl = if run.c.below(2) == 1 && nss.len() == 1 { Some(nss[0].clone()) } else { None };
            ps.push(Part {
                model: match &idl {
                    Some(ns) => idl::part(&one, ns),
                    None => one,
                },
                idl,
            });
            run.probe("a file that may conflict");
        }
    }
    for p in &ps {
        run.mark(to_json(&p.model).to_string().as_bytes());
    }
    let mut models: Vec<&CModel> = ps.iter().map(|p| &p.model).collect();
    let mut order = SplitMix::new(run.c.seed());
    shuffle(&mut models, &mut order);
    let want = match sum(&models) {
        Ok(m) => Some(m),
        Err(Refusal::Open) => {
            run.probe("left open by the rules");
            return None;
        }
        Err(_) => None,
    };
    let mut w = lay_out(&mut run.c, ps, registry);
    w.want = want;
    for p in &w.parts {
        run.log(|| format!("part {:?} {}", p.idl, to_json(&p.model)));
    }
    run.log(|| format!("paths {:?}; files {:?}; registry {}", w.roots, w.covered, w.registry));
    Some(w)
}

/// No trait both written at a member and applied to it from outside.
fn without_clashes(m: &CModel) -> CModel {
    let mut m = m.clone();
    m.shapes.retain(|k, _| !k.contains('$'));
    m
}

/// How one process gives the paths to the assembler.
#[derive(Clone, Debug)]
pub struct Route {
    pushes: Vec<(String, u64)>,
    search: Vec<String>,
    env: u64,
    registry: u64,
}

fn route(c: &mut Choices, w: &World, search: bool) -> Route {
    let mut roots = w.roots.clone();
    let mut r = SplitMix::new(c.seed());
    shuffle(&mut roots, &mut r);
    let mut out = Route {
        pushes: Vec::new(),
        search: Vec::new(),
        env: c.below(3),
        registry: w.registry,
    };
    for p in roots {
        if search && c.below(4) == 3 {
            out.search.push(p.clone());
            if c.below(3) > 0 {
                continue;
            }
        }
        let how = c.below(4);
        out.pushes.push((p.clone(), how));
        if c.below(8) == 7 {
            out.pushes.push((p, 0));
        }
    }
    out
}

fn assembler(r: &Route) -> ModelAssembler {
    let joined = r.search.join(":");
    let search = if r.search.is_empty() {
        None
    } else {
        match r.env {
            0 => Some(SearchPath::from(joined.as_str())),
            1 => Some(SearchPath::from(r.search.iter().map(PathBuf::from).collect::<Vec<_>>())),
            _ => {
                std::env::set_var("SMITHY_PATH", &joined);
                Some(SearchPath::new_or_default("SMITHY_PATH"))
            }
        }
    };
    let mut a = if r.env == 2 && r.registry == 0 && search.is_some() {
        ModelAssembler::default()
    } else {
        ModelAssembler::new(registry(r.registry), search)
    };
    std::env::remove_var("SMITHY_PATH");
    for (p, how) in &r.pushes {
        let _ = match how {
            0 => a.push(Path::new(p)),
            1 => a.push_str(p),
            2 => a.push_str(&p.replacen("/sim/", "/sim//", 1)),
            _ => a.push(&PathBuf::from(p.replacen("/sim/", "/sim/./", 1))),
        };
    }
    a
}

pub struct Assembled {
    expanded: Vec<String>,
    first: Result<CModel, String>,
    second: Option<Result<CModel, String>>,
    /// The paths the assembler says it was given, and how many it says these are.
    given: (Vec<String>, usize, bool),
    /// What an assembler without any path assembles.
    nothing: Option<Result<CModel, String>>,
}

fn assemble(r: &Route, expand: bool, twice: bool) -> Assembled {
    let mut a = assembler(r);
    let expanded = if expand {
        a.expand_file_paths().iter().map(|p| p.to_string_lossy().to_string()).collect()
    } else {
        Vec::new()
    };
    let given = (a.paths().map(|p| p.to_string_lossy().to_string()).collect(), a.len(), a.is_empty());
    let done = |m: Result<Model, atelier_core::error::Error>| m.map(|m| canon(&m)).map_err(|e| e.to_string());
    let nothing = expand.then(|| done(Model::try_from(ModelAssembler::new(registry(r.registry), None))));
    let (first, second) = if twice {
        let first = done(Model::try_from(&mut a));
        (first, Some(done(Model::try_from(a))))
    } else {
        (done(Model::try_from(a)), None)
    };
    Assembled {
        expanded,
        first,
        second,
        given,
        nothing,
    }
}

pub fn judge(want: &Option<CModel>, got: &Result<CModel, String>, what: &str) -> Result<(), Violation> {
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(_)) => violation(
            format!("{what}: files that conflict were merged"),
            "no order of these files can be merged, yet assembling succeeded",
        ),
        (Some(_), Err(e)) => violation(format!("{what}: failed without a fault"), e.clone()),
        (Some(w), Ok(g)) => match diff(&unordered(w), &unordered(g)) {
            None => Ok(()),
            Some((k, d)) => violation(format!("{what}: {k}"), d),
        },
    }
}

fn clean(paths: &[String]) -> Vec<String> {
    paths
        .iter()
        .map(|p| PathBuf::from(p).components().collect::<PathBuf>().to_string_lossy().to_string())
        .collect()
}

fn run_order(run: &mut Run) -> Outcome {
    let w = match world(run, true, 6) {
        Some(w) => w,
        None => return Ok(()),
    };
    run.nontrivial = w.parts.len() > 1;
    run.probe(if w.want.is_some() { "files that merge" } else { "files that conflict" });
    if w.parts.iter().any(|p| p.idl.is_some()) && w.parts.iter().any(|p| p.idl.is_none()) {
        run.probe("both representations");
    }
    let lives = run.c.range(2, 4);
    let mut first: Option<CModel> = None;
    for _ in 0..lives {
        let mut plan = run.benign_plan();
        plan.dir_seed = run.c.seed();
        let r = route(&mut run.c, &w, true);
        let (expand, twice) = (run.c.below(2) == 1, run.c.below(4) == 3);
        run.log(|| format!("{r:?}"));
        let given: BTreeSet<String> = r.pushes.iter().map(|p| &p.0).chain(&r.search).cloned().collect();
        let got = run.life("assemble", plan, w.fs.clone(), move || assemble(&r, expand, twice));
        let got = got.ok("assembling")?;
        let mut paths = clean(&got.given.0);
        paths.sort();
        if !paths.iter().eq(given.iter()) || got.given.1 != given.len() || got.given.2 {
            return violation(
                "the paths given",
                format!("{given:?} were given, the assembler says {:?}", got.given),
            );
        }
        if let Some(nothing) = &got.nothing {
            judge(&Some(CModel::default()), nothing, "model of no paths")?;
        }
        judge(&w.want, &got.first, "assembled model")?;
        if let Some(second) = &got.second {
            judge(&w.want, second, "assembled again")?;
            if got.first != *second && w.want.is_some() {
                return violation("assembling again gives another model", "the same assembler, the same disk");
            }
        }
        if expand {
            let mut files = clean(&got.expanded);
            files.sort();
            let want: Vec<String> = w.covered.iter().cloned().collect();
            if files != want {
                return violation(
                    "expanded file paths",
                    format!("expected {want:?}, got {files:?}"),
                );
            }
            run.probe("paths expanded");
        }
        if let Ok(m) = got.first {
            match &first {
                None => first = Some(m),
                Some(f) => {
                    if let Some((k, d)) = diff(f, &m) {
                        return violation(format!("two executions assemble different models: {k}"), d);
                    }
                    run.probe("two executions agree");
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    None,
    /// Must be an error.
    Certain,
    /// An error, or everything.
    Perhaps,
}

pub fn spoil(c: &mut Choices, w: &mut World) -> (&'static str, Bad) {
    let dir = TOPS[c.size(2)];
    let (json, idl) = match w.registry {
        2 => ("ast", "sdl"),
        _ => ("json", "smithy"),
    };
    match c.below(9) {
        0 => {
            w.roots.push("/sim/not/there".to_string());
            ("missing path", Bad::Certain)
        }
        1 => {
            w.roots.push(format!("/sim/n/missing.{json}"));
            ("missing file", Bad::Certain)
        }
        2 => {
            w.fs.add_link(&format!("{dir}/broken.{json}"), "/sim/nowhere");
            w.roots.push(dir.to_string());
            ("broken link", Bad::Certain)
        }
        3 => {
            w.fs.add_link(&format!("{dir}/again"), dir);
            w.roots.push(dir.to_string());
            ("link loop", Bad::Perhaps)
        }
        4 => {
            let text: &[u8] = c.pick(&[
                &b"{"[..],
                b"",
                b"[]",
                b"{\"smithy\":\"1.0\",\"shapes\":{\"a#B\":{\"type\":\"string\"}}",
                b"\xff\xfe",
                b"{\"smithy\":\"1.0\"} trailing",
                b"{\"smithy\":\"1.0\",\"shapes\":{\"a#B\":{\"type\":\"nonsense\"}}}",
            ]);
            w.fs.add_file(&format!("{dir}/bad.{json}"), text);
            w.roots.push(dir.to_string());
            ("bad JSON document", Bad::Certain)
        }
        5 => {
            let text: &[u8] = c.pick(&[
                &b"structure {"[..],
                b"\xff\xfe",
                b"namespace a\nstring \xc3\x28\n",
                b"namespace a\nstructure S { a: }\n",
                b"{}",
            ]);
            w.fs.add_file(&format!("{dir}/bad.{idl}"), text);
            w.roots.push(dir.to_string());
            ("bad IDL document", Bad::Certain)
        }
        6 => {
            // a path through a file
            w.fs.add_file("/sim/plain", b"x");
            w.roots.push(format!("/sim/plain/x.{json}"));
            ("path through a file", Bad::Certain)
        }
        7 => {
            w.fs.add_link("/sim/self", "/sim/self");
            w.roots.push("/sim/self".to_string());
            ("link to itself", Bad::Certain)
        }
        _ => ("nothing", Bad::None),
    }
}

fn run_faults(run: &mut Run) -> Outcome {
    let mut w = match world(run, false, 4) {
        Some(w) if w.want.is_some() => w,
        _ => return Ok(()),
    };
    let mut bad = Bad::None;
    if run.c.below(3) == 2 {
        let (what, b) = spoil(&mut run.c, &mut w);
        bad = b;
        run.log(|| format!("on the disk: {what}"));
        run.probe(what);
    }
    let mut plan = run.benign_plan();
    let mut vanish = false;
    let os_faults = bad == Bad::None || run.c.below(4) == 3;
    if os_faults {
        for _ in 0..run.c.range(1, 2) {
            let class = *run.c.pick(&[
                OpClass::Open,
                OpClass::Read,
                OpClass::Stat,
                OpClass::OpenDir,
                OpClass::ReadDir,
            ]);
            let nth = run.c.below(match class {
                OpClass::Read => 40,
                OpClass::OpenDir => 8,
                OpClass::Open => 8,
                _ => 30,
            });
            let action = match run.c.below(8) {
                // what is gone from a directory before it is listed is not part of the model
                6 if class != OpClass::ReadDir && bad == Bad::None => {
                    vanish = true;
                    Action::Vanish
                }
                7 if class == OpClass::Read && bad == Bad::None => Action::Eof,
                _ => Action::Errno(*run.c.pick(&[
                    libc::EIO,
                    libc::EACCES,
                    libc::ESTALE,
                    libc::EMFILE,
                    libc::ENOMEM,
                    libc::ENXIO,
                ])),
            };
            let sticky = run.c.below(3) == 2;
            plan.faults.push(Fault { class, nth, action, sticky });
        }
    }
    let r = route(&mut run.c, &w, !vanish && bad == Bad::None);
    run.log(|| format!("{r:?}"));
    let expand = run.c.below(6) == 5 && !vanish;
    let any_idl = w.parts.iter().any(|p| p.idl.is_some());
    let life = run.life("assemble", plan, w.fs.clone(), move || assemble(&r, expand, true));
    let fired: u64 = life.fired.iter().filter(|(k, _)| !k.ends_with(":eintr") && !k.contains("short")).map(|(_, n)| *n).sum();
    let eof = life.fired.contains_key("read:early-eof");
    let errors = life.errors_returned;
    run.nontrivial = fired > 0 || bad != Bad::None;
    let changed = life.fs.to_image() != w.fs.to_image();
    let got = life.ok("assembling")?;
    if !vanish && changed {
        return violation("assembling changed the disk", "a file differs from before");
    }
    let vanished = vanish && changed;
    for (i, (m, what)) in [(Some(&got.first), "model assembled under faults"), (got.second.as_ref(), "model assembled after a failure")]
        .into_iter()
        .enumerate()
    {
        match m {
            None => {}
            Some(Err(e)) => {
                if errors == 0 && fired == 0 && bad == Bad::None {
                    return violation(format!("{what}: failed without a fault"), e.clone());
                }
                run.probe("failed and said so");
            }
            Some(Ok(_)) if bad == Bad::Certain => {
                return violation(format!("{what}: succeeded in spite of a bad path or file"), "Ok");
            }
            Some(Ok(g)) => {
                if eof && any_idl {
                    run.probe("cut short on the way in");
                    continue;
                }
                if vanished && i == 1 {
                    // what is gone before the paths are looked at is not part of the model
                    run.probe("assembled without what vanished before");
                    continue;
                }
                judge(&w.want, &Ok(g.clone()), what)?;
                run.probe(if fired > 0 { "complete in spite of a fault" } else { "complete" });
            }
        }
    }
    Ok(())
}
