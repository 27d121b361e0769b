//! P20: generated documentation.

use super::*;
use super::assemble::build_shuffled;
use crate::canon::*;
use crate::gen;
use crate::idl::{kind_of, name_of, ns_of};
use crate::run::violation;
use crate::streams::*;
use atelier_core::io::ModelWriter;
use atelier_core::model::Model;
use atelier_describe::document::writer::{describe_model, DocumentationWriter};
use somedoc::model::block::{BlockContent, HasCaption, HasLabel, List, ListItem};
use somedoc::model::inline::{HyperLinkTarget, InlineContent};
use somedoc::model::{Document, HasInnerContent};
use somedoc::write::markdown::MarkdownFlavor;
use somedoc::write::{write_document, OutputFormat};
use std::collections::BTreeMap;
use std::io::ErrorKind;

pub static P20: Prop = Prop {
    id: "P20",
    title: "Generated documentation covers the whole model in every execution",
    run: run20,
    quick_runs: 100_000,
    recheck: 60,
    rule: "A generated model, built in a drawn order in processes with their own hash keys, is described; the document tree is reduced to its sections and the entries of each, and compared with those the model calls for; the text of DocumentationWriter is compared with the tree's, on sinks that take drawn pieces or fail; non-trivial: the model defines at least two shapes.",
    real: &["describe_model", "DocumentationWriter", "somedoc"],
    stubs: STUB_STREAM,
    assumptions: &["numbers are finite", "the order of namespaces, metadata, renames and external links is not compared; resource identifiers are outside the statement; documentation and traits of the members of a structure come before the list of members (a test of the repository pins this), so that it is not compared which member they belong to"],
};

type Facts = Vec<(String, Vec<String>)>;

fn inline(v: &[InlineContent], links: &mut Vec<(String, String)>) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            InlineContent::Text(t) => s.push_str(t),
            InlineContent::Span(x) => s.push_str(&inline(x.inner(), links)),
            InlineContent::HyperLink(h) => {
                let caption = h.caption().as_ref().map(|c| c.to_string()).unwrap_or_default();
                match h.target() {
                    HyperLinkTarget::Internal(l) => {
                        links.push((caption.clone(), l.to_string()));
                        s.push_str(&caption);
                    }
                    HyperLinkTarget::External(u) => s.push_str(&format!("{caption} <{u}> ")),
                }
            }
            other => s.push_str(&format!("{other:?}")),
        }
    }
    s
}

fn items(l: &List, links: &mut Vec<(String, String)>, out: &mut Vec<String>) {
    for i in l.inner() {
        match i {
            ListItem::List(l) => items(l, links, out),
            ListItem::Item(i) => out.push(format!("item {}", inline(i.inner(), links))),
        }
    }
}

/// The same letters, in whatever order.
fn letters(s: &str) -> String {
    let mut v: Vec<char> = s.chars().filter(|c| !c.is_whitespace()).collect();
    v.sort_unstable();
    v.into_iter().collect()
}

struct Seen {
    facts: Facts,
    /// Captions and labels of links inside the document, per namespace.
    links: Vec<(String, String, String)>,
    labels: Vec<String>,
    /// The writer's text is that of the document.
    text: Result<String, String>,
    failed: Option<bool>,
}

fn reduce(doc: &Document) -> Seen {
    let mut facts: Facts = vec![("document".into(), vec![])];
    let mut links: Vec<(String, String, String)> = Vec::new();
    let mut labels = Vec::new();
    let mut ns = String::new();
    let mut under = String::new();
    fn blocks(
        v: &[BlockContent],
        facts: &mut Facts,
        links: &mut Vec<(String, String, String)>,
        labels: &mut Vec<String>,
        ns: &mut String,
        under: &mut String,
    ) {
        for b in v {
            let mut here: Vec<(String, String)> = Vec::new();
            match b {
                BlockContent::Heading(h) => {
                    let text = inline(h.inner(), &mut here);
                    match format!("{:?}", h.level()).as_str() {
                        "Section" => {
                            *ns = text.clone();
                            under.clear();
                            facts.push((text, vec![]));
                        }
                        "SubSection" => {
                            under.clear();
                            if let Some(l) = h.label() {
                                labels.push(format!("{ns}/{}", &**l));
                            }
                            facts.push((format!("{ns} / {text}"), vec![]));
                        }
                        "SubSubSection" => {
                            *under = text.clone();
                            facts.last_mut().unwrap().1.push(format!("heading {text}"));
                        }
                        other => facts.last_mut().unwrap().1.push(format!("{other} {text}")),
                    }
                }
                BlockContent::Paragraph(p) => {
                    let t = inline(p.inner(), &mut here);
                    let t = if t.starts_with("See also: ") { letters(&t) } else { t };
                    let of = ["Member type: ", "Key type: ", ", value type: "].iter().find(|x| t.starts_with(**x));
                    let t = format!("{under}: {t}");
                    facts.last_mut().unwrap().1.push(t);
                    if let Some(of) = of {
                        // what follows is about this member
                        *under = of.to_string();
                    }
                }
                BlockContent::Quote(q) => blocks(q.inner(), facts, links, labels, ns, under),
                BlockContent::List(l) => {
                    let mut out = Vec::new();
                    items(l, &mut here, &mut out);
                    facts.last_mut().unwrap().1.extend(out.into_iter().map(|t| format!("{under}: {t}")));
                }
                BlockContent::Table(t) => {
                    for r in t.rows() {
                        let mut cells: Vec<String> = r.cells().iter().map(|c| inline(c.inner(), &mut here)).collect();
                        if cells.len() == 2 {
                            cells[1] = letters(&cells[1]);
                        }
                        facts.last_mut().unwrap().1.push(format!("{under}: row {cells:?}"));
                    }
                }
                other => {
                    let t = format!("{other:?}");
                    facts.last_mut().unwrap().1.push(t);
                }
            }
            links.extend(here.into_iter().map(|(c, l)| (ns.clone(), c, l)));
        }
    }
    blocks(doc.inner(), &mut facts, &mut links, &mut labels, &mut ns, &mut under);
    for f in &mut facts {
        f.1.sort();
    }
    facts.sort();
    Seen { facts, links, labels, text: Ok(String::new()), failed: None }
}

// ------------------------------------------------------------------------------------------------
// What is to be there
// ------------------------------------------------------------------------------------------------

fn shape_name(id: &str) -> &str {
    name_of(id).split('$').next().unwrap()
}

fn link(from: &str, to: &str) -> String {
    if ns_of(from) == ns_of(to) {
        shape_name(to).to_string()
    } else {
        to.to_string()
    }
}

pub fn scalar(v: &CVal) -> String {
    match v {
        CVal::Null => "None".into(),
        CVal::Bool(b) => b.to_string(),
        CVal::Int(i) => i.to_string(),
        CVal::Float(f) => f.to_string(),
        CVal::Str(s) => format!("\"{s}\""),
        CVal::Arr(a) => format!("[ {} ]", a.iter().map(scalar).collect::<Vec<_>>().join(", ")),
        CVal::Obj(o) => {
            format!("{{ {} }}", o.iter().map(|(k, v)| format!("{k}: {}", scalar(v))).collect::<Vec<_>>().join(", "))
        }
    }
}

fn rows(under: &str, id: &str, path: &str, v: &CVal, out: &mut Vec<String>) {
    let mut row = |v: &str| out.push(format!("{under}: row {:?}", [id, path, v]));
    match v {
        CVal::Arr(a) if !a.is_empty() => a.iter().enumerate().for_each(|(i, v)| rows(under, id, &format!("{path}[{i}]"), v, out)),
        CVal::Obj(o) if !o.is_empty() => o.iter().for_each(|(k, v)| rows(under, id, &format!("{path}.{k}"), v, out)),
        CVal::Arr(_) | CVal::Obj(_) | CVal::Null => row(""),
        CVal::Str(s) => row(s),
        v => row(&scalar(v)),
    }
}

fn about(t: &CTraits, under: &str, out: &mut Vec<String>) {
    for (id, v) in t {
        match id.to_lowercase().as_str() {
            "smithy.api#documentation" => {
                if let CVal::Str(s) = v {
                    out.push(format!("{under}: {s}"));
                }
            }
            "smithy.api#externaldocumentation" => {
                if let CVal::Obj(o) = v {
                    if !o.is_empty() {
                        let t: Vec<String> = o
                            .iter()
                            .map(|(k, v)| match v {
                                CVal::Str(s) => format!("{k} <{s}> "),
                                v => format!("{k} <{}> ", scalar(v)),
                            })
                            .collect();
                        out.push(format!("{under}: {}", letters(&format!("See also: {}", t.concat()))));
                    }
                }
            }
            _ => {
                let shown = if ns_of(id) == "smithy.api" { name_of(id) } else { id };
                rows(under, shown, "", v, out);
            }
        }
    }
}

/// Shapes only referred to (or only given traits) have no section.
pub fn defined(m: &CModel) -> impl Iterator<Item = (&String, &CShape)> {
    m.shapes.iter().filter(|(_, s)| !matches!(s.body, CBody::Unresolved))
}

fn wanted(m: &CModel) -> Facts {
    let mut facts: Facts = vec![("document".into(), vec![": Smithy Version: 1.0".into()])];
    if !m.metadata.is_empty() {
        facts.push((
            "Metadata".into(),
            m.metadata.iter().map(|(k, v)| format!(": row {:?}", [k, &letters(&scalar(v))])).collect(),
        ));
    }
    let mut spaces: Vec<&str> = defined(m).map(|(k, _)| ns_of(k)).collect();
    spaces.sort();
    spaces.dedup();
    facts.extend(spaces.iter().map(|n| (format!("Namespace {n}"), vec![])));
    for (id, s) in defined(m) {
        let kind = kind_of(&s.body);
        let mut f = Vec::new();
        about(&s.traits, "", &mut f);
        let list = |title: &str, ids: &[String], f: &mut Vec<String>| {
            if !ids.is_empty() {
                f.push(format!("heading {title}"));
                f.extend(ids.iter().map(|t| format!("{title}: item {}", link(id, t))));
            }
        };
        match &s.body {
            CBody::List(x) | CBody::Set(x) => {
                f.push(format!(": Member type: {}", link(id, &x.target)));
                about(&x.traits, "Member type: ", &mut f);
            }
            CBody::Map(k, v) => {
                f.push(format!(": Key type: {}", link(id, &k.target)));
                f.push(format!("Key type: : , value type: {}", link(id, &v.target)));
                about(&k.traits, "Key type: ", &mut f);
                about(&v.traits, ", value type: ", &mut f);
            }
            CBody::Structure(ms) | CBody::Union(ms) => {
                if !ms.is_empty() {
                    f.push("heading Members".into());
                    for x in ms.values() {
                        f.push(format!("Members: {}: {}", x.id, link(id, &x.target)));
                        about(&x.traits, "Members", &mut f);
                    }
                }
            }
            CBody::Service { version, operations, resources, renames } => {
                f.push(format!(": Service version: {version}"));
                list("Operations", operations, &mut f);
                list("Resources", resources, &mut f);
                if !renames.is_empty() {
                    f.push("heading Renames".into());
                    f.extend(renames.iter().map(|(a, b)| format!("Renames: item {a} renamed to {b}")));
                }
            }
            CBody::Operation { input, output, errors } => {
                f.extend(input.iter().map(|t| format!(": Input type: {}", link(id, t))));
                f.extend(output.iter().map(|t| format!(": Output type: {}", link(id, t))));
                if !errors.is_empty() {
                    f.push(": Errors:".into());
                    f.extend(errors.iter().map(|t| format!(": item {}", link(id, t))));
                }
            }
            CBody::Resource(r) => {
                if !r.lifecycle.is_empty() {
                    f.push("heading Resource Operations".into());
                    f.extend(r.lifecycle.iter().map(|(k, t)| format!("Resource Operations: item {k}: {}", link(id, t))));
                }
                list("Operations", &r.operations, &mut f);
                list("Collection Operations", &r.collection_operations, &mut f);
                list("Resources", &r.resources, &mut f);
            }
            CBody::Simple(_) | CBody::Unresolved => {}
        }
        f.sort();
        facts.push((format!("Namespace {} / {} ({kind})", ns_of(id), shape_name(id)), f));
    }
    for f in &mut facts {
        f.1.sort();
    }
    facts.sort();
    facts
}

fn compare(want: &Facts, got: &Facts) -> Result<(), crate::run::Violation> {
    let count = |f: &Facts| -> BTreeMap<String, Vec<Vec<String>>> {
        let mut m: BTreeMap<String, Vec<Vec<String>>> = BTreeMap::new();
        for (k, v) in f {
            m.entry(k.clone()).or_default().push(v.clone());
        }
        m
    };
    let (w, g) = (count(want), count(got));
    for (k, v) in &w {
        match g.get(k) {
            None => return violation("a section is missing", k.clone()),
            Some(x) if x.len() < v.len() => return violation("a section is missing", k.clone()),
            Some(x) if x.len() > v.len() => return violation("a section is there twice", k.clone()),
            Some(x) => {
                for (a, b) in v.iter().zip(x) {
                    if a != b {
                        let missing: Vec<&String> = a.iter().filter(|e| !b.contains(e)).collect();
                        let extra: Vec<&String> = b.iter().filter(|e| !a.contains(e)).collect();
                        let class = match (missing.is_empty(), extra.is_empty()) {
                            (false, true) => "an entry is missing",
                            (true, false) => "an entry the model does not call for",
                            (false, false) => "an entry is wrong",
                            _ => "an entry is not there as often as it should be",
                        };
                        let cut = |v: Vec<&String>| format!("{v:?}").chars().take(500).collect::<String>();
                        return violation(class, format!("{k}: missing {} extra {}", cut(missing), cut(extra)));
                    }
                }
            }
        }
    }
    for k in g.keys() {
        if !w.contains_key(k) {
            return violation("a section the model does not call for", k.clone());
        }
    }
    Ok(())
}

fn words(b: &[u8]) -> Vec<String> {
    let mut v: Vec<String> = String::from_utf8_lossy(b).split_whitespace().map(|s| s.to_string()).collect();
    v.sort();
    v
}

fn look(m: &Model, sink: &mut SimWriter) -> Result<Seen, String> {
    let doc = describe_model(m).map_err(|e| e.to_string())?;
    let mut seen = reduce(&doc);
    let mut want = Vec::new();
    write_document(&doc, OutputFormat::Markdown(MarkdownFlavor::CommonMark), &mut want).map_err(|e| e.to_string())?;
    let r = DocumentationWriter::default().write(sink, m);
    if sink.failed {
        seen.failed = Some(r.is_err());
    } else {
        seen.text = match r {
            Err(e) => Err(format!("the writer fails: {e}")),
            Ok(()) => {
                let (a, b) = (words(&want), words(&sink.out));
                if a == b {
                    Ok(String::new())
                } else {
                    let missing: Vec<&String> = a.iter().filter(|w| !b.contains(w)).take(5).collect();
                    let extra: Vec<&String> = b.iter().filter(|w| !a.contains(w)).take(5).collect();
                    Err(format!("the writer's text is not that of the document: missing {missing:?} extra {extra:?}"))
                }
            }
        };
    }
    Ok(seen)
}

fn run20(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    if run.c.below(3) > 0 {
        mix.traits_pm = mix.traits_pm.max(600);
    }
    let mut m = gen::model(&mut run.c, &mix);
    // documentation, where it can be
    let wild = mix.clone();
    for s in m.shapes.values_mut() {
        let c = &mut run.c;
        let mut dress = |t: &mut CTraits, c: &mut crate::choice::Choices| {
            if c.below(3) == 2 {
                t.retain(|k, _| !k.eq_ignore_ascii_case("smithy.api#documentation"));
                t.insert("smithy.api#documentation".into(), CVal::Str(gen::text(c, &wild)));
            }
            if c.below(6) == 5 {
                t.retain(|k, _| !k.eq_ignore_ascii_case("smithy.api#externalDocumentation"));
                let o = (0..c.below(3)).map(|i| (format!("Home page {i}"), CVal::Str(format!("https://example.org/{i}?q=a")))).collect();
                t.insert("smithy.api#externalDocumentation".into(), CVal::Obj(o));
            }
        };
        dress(&mut s.traits, c);
        for x in crate::idl::members_mut(&mut s.body) {
            dress(&mut x.traits, c);
        }
    }
    let want = wanted(&m);
    run.nontrivial = m.shapes.len() >= 2;
    run.mark(to_json(&m).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&m)));
    if m.shapes.len() > 20 {
        run.probe("many shapes");
    }
    for k in 0..run.c.range(1, 2) {
        let seed = run.c.seed();
        let order = run.c.seed();
        let del = run.delivery();
        let fault = match run.c.below(3) {
            2 => StreamFault::Err { at: run.c.size(400), kind: *run.c.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe]), os: true },
            _ => StreamFault::None,
        };
        let sh = run.sh.clone();
        let m2 = m.clone();
        let seen = run
            .pure_life(&format!("describe-{k}"), seed, move || {
                let m = build_shuffled(&m2, order);
                let mut sink = SimWriter::new(del, fault, &sh);
                look(&m, &mut sink)
            })
            .ok("describing")?;
        let seen = match seen {
            Ok(s) => s,
            Err(e) => return violation("a model cannot be described", e),
        };
        compare(&want, &seen.facts)?;
        if let Err(e) = seen.text {
            return violation("the text is not the document", e);
        }
        match seen.failed {
            Some(false) => return violation("the sink failed and the writer did not say so", String::new()),
            Some(true) => run.probe("a failing sink"),
            None => {}
        }
        // links to shapes that have a section lead there
        for (ns, caption, label) in &seen.links {
            let here = ns.trim_start_matches("Namespace ");
            let defined = defined(&m).any(|(id, _)| ns_of(id) == here && name_of(id) == caption);
            if defined && !seen.labels.iter().any(|l| *l == format!("{ns}/{label}")) {
                return violation("a link leads nowhere", format!("{caption} in {here}: {label:?}"));
            }
        }
    }
    Ok(())
}
