//! P21: GraphML and PlantUML.

use super::assemble::build_shuffled;
use super::docs::{defined, scalar};
use super::*;
use crate::canon::*;
use crate::formats::Format;
use crate::gen;
use crate::idl::{kind_of, members_of, name_of, ns_of};
use crate::run::violation;
use crate::streams::*;
use std::collections::BTreeMap;
use std::io::ErrorKind;

pub static P21: Prop = Prop {
    id: "P21",
    title: "Generated diagrams contain every shape and relationship once",
    run: run21,
    quick_runs: 200_000,
    recheck: 60,
    rule: "A generated model, built in a drawn order in processes with their own hash keys, is written as GraphML or PlantUML to sinks that take drawn pieces or fail; the text is parsed by the check's own strict parsers and compared with the nodes, edges, blocks, fields and relations the model calls for; non-trivial: the model defines at least two shapes.",
    real: &["GraphMLWriter", "PlantUmlWriter", "walk_model"],
    stubs: STUB_STREAM,
    assumptions: &["numbers are finite", "the order of nodes, edges, packages, blocks and fields is not compared"],
};

// ------------------------------------------------------------------------------------------------
// XML, strictly
// ------------------------------------------------------------------------------------------------

#[derive(Debug, Default)]
struct Element {
    name: String,
    attributes: Vec<(String, String)>,
    inner: Vec<Element>,
    text: String,
}

impl Element {
    fn attribute(&self, name: &str) -> Result<&str, String> {
        match self.attributes.iter().find(|(k, _)| k == name) {
            Some((_, v)) => Ok(v),
            None => Err(format!("element {} without attribute {name}", self.name)),
        }
    }
    fn only(&self, names: &[&str]) -> Result<(), String> {
        match self.attributes.iter().find(|(k, _)| !names.contains(&k.as_str())) {
            Some((k, _)) => Err(format!("element {} with attribute {k}", self.name)),
            None => Ok(()),
        }
    }
}

struct Xml<'a> {
    s: &'a [char],
    at: usize,
}

impl<'a> Xml<'a> {
    fn fail<T>(&self, what: &str) -> Result<T, String> {
        let from = self.at.saturating_sub(60).min(self.s.len());
        let to = (self.at + 20).min(self.s.len());
        Err(format!("{what} at {:?}", self.s[from..to].iter().collect::<String>()))
    }
    fn peek(&self) -> char {
        self.s.get(self.at).copied().unwrap_or('\0')
    }
    fn take(&mut self, t: &str) -> bool {
        let n = t.chars().count();
        if self.at + n <= self.s.len() && self.s[self.at..self.at + n].iter().copied().eq(t.chars()) {
            self.at += n;
            true
        } else {
            false
        }
    }
    fn space(&mut self) -> bool {
        let from = self.at;
        while matches!(self.peek(), ' ' | '\t' | '\n' | '\r') {
            self.at += 1;
        }
        self.at > from
    }
    fn name(&mut self) -> Result<String, String> {
        let from = self.at;
        while self.peek().is_ascii_alphanumeric() || matches!(self.peek(), ':' | '_' | '-' | '.') {
            self.at += 1;
        }
        if from == self.at || !(self.s[from].is_ascii_alphabetic() || self.s[from] == '_') {
            return self.fail("no name");
        }
        Ok(self.s[from..self.at].iter().collect())
    }
    fn reference(&mut self) -> Result<char, String> {
        for (t, c) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&apos;", '\'')] {
            if self.take(t) {
                return Ok(c);
            }
        }
        if self.take("&#") {
            let hex = self.take("x");
            let from = self.at;
            while self.peek().is_ascii_hexdigit() {
                self.at += 1;
            }
            let digits: String = self.s[from..self.at].iter().collect();
            if self.take(";") {
                let n = u32::from_str_radix(&digits, if hex { 16 } else { 10 }).ok().and_then(char::from_u32);
                if let Some(c) = n.filter(|c| allowed(*c)) {
                    return Ok(c);
                }
            }
        }
        self.fail("a bad reference")
    }
    fn chars(&mut self, end: char, out: &mut String) -> Result<(), String> {
        while self.at < self.s.len() && self.peek() != end {
            let c = match self.peek() {
                '<' => return self.fail("a < in a value"),
                '&' => {
                    out.push(self.reference()?);
                    continue;
                }
                c if !allowed(c) => return self.fail("a character XML does not allow"),
                '\r' => {
                    if self.s.get(self.at + 1) == Some(&'\n') {
                        self.at += 1;
                    }
                    '\n'
                }
                c => c,
            };
            out.push(c);
            self.at += 1;
        }
        Ok(())
    }
    fn element(&mut self) -> Result<Element, String> {
        if !self.take("<") {
            return self.fail("no element");
        }
        let mut e = Element { name: self.name()?, ..Default::default() };
        loop {
            let space = self.space();
            if self.take("/>") {
                return Ok(e);
            }
            if self.take(">") {
                break;
            }
            if !space {
                return self.fail("no space before an attribute");
            }
            let name = self.name()?;
            if !self.take("=\"") {
                return self.fail("no attribute value");
            }
            let mut v = String::new();
            self.chars('"', &mut v)?;
            if !self.take("\"") {
                return self.fail("an attribute value without end");
            }
            if e.attributes.iter().any(|(k, _)| *k == name) {
                return self.fail("an attribute given twice");
            }
            e.attributes.push((name, v));
        }
        loop {
            let mut text = String::new();
            self.chars('<', &mut text)?;
            e.text.push_str(&text);
            if self.take("</") {
                let name = self.name()?;
                self.space();
                if name != e.name || !self.take(">") {
                    return self.fail("the wrong end tag");
                }
                return Ok(e);
            }
            if self.at >= self.s.len() {
                return self.fail("an element without end");
            }
            e.inner.push(self.element()?);
        }
    }
}

fn allowed(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

fn xml(text: &str) -> Result<Element, String> {
    let s: Vec<char> = text.chars().collect();
    let mut x = Xml { s: &s, at: 0 };
    if !x.take("<?xml version=\"1.0\" encoding=\"UTF-8\"?>") {
        return x.fail("no XML declaration");
    }
    x.space();
    let e = x.element()?;
    x.space();
    if x.at < s.len() {
        return x.fail("something after the document");
    }
    Ok(e)
}

// ------------------------------------------------------------------------------------------------
// GraphML
// ------------------------------------------------------------------------------------------------

type Counts = BTreeMap<String, usize>;

fn add(c: &mut Counts, what: String) {
    *c.entry(what).or_default() += 1;
}

fn data(e: &Element) -> Result<Vec<(String, String)>, String> {
    let mut v = Vec::new();
    for d in &e.inner {
        d.only(&["key"])?;
        if d.name != "data" || !d.inner.is_empty() {
            return Err(format!("a {} in a {}", d.name, e.name));
        }
        v.push((d.attribute("key")?.to_string(), d.text.clone()));
    }
    v.sort();
    Ok(v)
}

fn graph_found(text: &str) -> Result<Counts, String> {
    let root = xml(text)?;
    if root.name != "graphml" || root.attribute("xmlns")? != "http://graphml.graphdrawing.org/xmlns" {
        return Err(format!("the root is {}", root.name));
    }
    let graphs: Vec<&Element> = root.inner.iter().filter(|e| e.name == "graph").collect();
    if graphs.len() != 1 {
        return Err(format!("{} graphs", graphs.len()));
    }
    let mut keys: Vec<&str> = Vec::new();
    for k in root.inner.iter().filter(|e| e.name == "key") {
        keys.push(k.attribute("id")?);
    }
    for k in ["type", "version", "trait", "member"] {
        if keys.iter().filter(|x| **x == k).count() != 1 {
            return Err(format!("key {k} is not declared once: {keys:?}"));
        }
    }
    let g = graphs[0];
    if g.attribute("edgedefault")? != "directed" {
        return Err("the graph is not directed".into());
    }
    let mut c = Counts::new();
    let mut numbers: Vec<String> = Vec::new();
    for e in &g.inner {
        match e.name.as_str() {
            "data" => {
                e.only(&["key"])?;
                add(&mut c, format!("graph {}={}", e.attribute("key")?, e.text));
            }
            "node" => {
                e.only(&["id"])?;
                add(&mut c, format!("node {} {:?}", e.attribute("id")?, data(e)?));
            }
            "edge" => {
                e.only(&["id", "source", "target"])?;
                numbers.push(e.attribute("id")?.to_string());
                add(&mut c, format!("edge {} -> {} {:?}", e.attribute("source")?, e.attribute("target")?, data(e)?));
            }
            other => return Err(format!("a {other} in the graph")),
        }
    }
    let edges = numbers.len();
    numbers.sort();
    numbers.dedup();
    if numbers.len() != edges {
        return Err("two edges have the same id".into());
    }
    Ok(c)
}

fn graph_wanted(m: &CModel) -> Counts {
    let mut c = Counts::new();
    add(&mut c, "graph smithy.version=1.0".into());
    for (id, s) in defined(m) {
        let mut d = vec![("type".to_string(), kind_of(&s.body))];
        if let CBody::Service { version, .. } = &s.body {
            let v = version.chars().map(|c| if allowed(c) { c } else { '\u{fffd}' }).collect();
            d.push(("version".into(), v));
        }
        add(&mut c, format!("node {id} {d:?}"));
        for t in s.traits.keys() {
            add(&mut c, format!("edge {id} -> {t} {:?}", [("trait", "true")]));
        }
        let mut to = |t: &str, label: &str| add(&mut c, format!("edge {id} -> {t} {:?}", [("member", label)]));
        match &s.body {
            CBody::Service { operations, resources, .. } => {
                operations.iter().for_each(|t| to(t, "operations"));
                resources.iter().for_each(|t| to(t, "resources"));
            }
            CBody::Operation { input, output, errors } => {
                input.iter().for_each(|t| to(t, "input"));
                output.iter().for_each(|t| to(t, "output"));
                errors.iter().for_each(|t| to(t, "errors"));
            }
            CBody::Resource(r) => {
                r.lifecycle.iter().for_each(|(k, t)| to(t, k));
                r.operations.iter().for_each(|t| to(t, "operations"));
                r.collection_operations.iter().for_each(|t| to(t, "collectionOperations"));
                r.resources.iter().for_each(|t| to(t, "resources"));
            }
            b => members_of(b).iter().for_each(|x| to(&x.target, &x.id)),
        }
    }
    c
}

// ------------------------------------------------------------------------------------------------
// PlantUML
// ------------------------------------------------------------------------------------------------

fn uml_found(text: &str) -> Result<Counts, String> {
    let mut c = Counts::new();
    // inside nothing, the diagram, a package, a block, a note
    let mut at = 0;
    let mut package = String::new();
    let mut block = String::new();
    let mut part = String::new();
    let mut note: Vec<String> = Vec::new();
    if text.contains('\r') {
        return Err("a bare carriage return".into());
    }
    for line in text.split('\n') {
        let l = line.trim_matches(' ');
        if l.is_empty() {
            continue;
        }
        match at {
            0 if l == "@startuml" => at = 1,
            1 if l == "@enduml" => at = 5,
            1 if l == "hide empty members" => {}
            1 if l.starts_with("package ") && l.ends_with(" {") => {
                package = l["package ".len()..l.len() - 2].to_string();
                add(&mut c, format!("package {package}"));
                at = 2;
            }
            1 => add(&mut c, format!("relation {l}")),
            2 if l == "}" => at = 1,
            2 if (l.starts_with("class ") || l.starts_with("annotation ")) && l.ends_with('{') => {
                block = l[..l.len() - 1].trim().to_string();
                part.clear();
                add(&mut c, format!("{package}: {block}"));
                at = 3;
            }
            2 if l.starts_with("class ") && l.ends_with("{ }") => {
                add(&mut c, format!("{package}: {}", l[..l.len() - 3].trim()))
            }
            2 if l.starts_with("note as ") => {
                note = vec![l["note as ".len()..].to_string()];
                at = 4;
            }
            2 if l.starts_with("note ") => {
                let (text, name) = l["note ".len()..].rsplit_once(" as ").ok_or_else(|| format!("a bad note {l}"))?;
                add(&mut c, format!("{package}: note {name} {text}"));
            }
            2 => add(&mut c, format!("{package}: relation {l}")),
            3 if l == "}" => at = 2,
            3 if l.starts_with("..") => {
                add(&mut c, format!("{block}: part {l}"));
                part = l.to_string();
            }
            3 => add(&mut c, format!("{block} {part}: {l}")),
            4 if l == "end note" => {
                add(&mut c, format!("{package}: note {} {}", note[0], note[1..].join("\n")));
                at = 2;
            }
            4 => note.push(l.to_string()),
            _ => return Err(format!("{l:?} where it has no place")),
        }
    }
    if at != 5 {
        return Err("the diagram does not end".into());
    }
    Ok(c)
}

fn one_line(s: &str) -> String {
    s.replace('\r', "\\r").replace('\n', "\\n")
}

fn type_of(m: &CModel, t: &str) -> String {
    match m.shapes.get(t).map(|s| &s.body) {
        Some(CBody::Simple(s)) => s.clone(),
        Some(CBody::List(x)) => format!("List<{}>", name_of(&x.target)),
        Some(CBody::Set(x)) => format!("Set<{}>", name_of(&x.target)),
        Some(CBody::Map(k, v)) => format!("Map<{}, {}>", name_of(&k.target), name_of(&v.target)),
        _ => t.to_string(),
    }
}

fn uml_wanted(m: &CModel, expand: bool) -> Counts {
    let mut c = Counts::new();
    let mut packages: Vec<&str> = defined(m).map(|(k, _)| ns_of(k)).collect();
    packages.sort();
    packages.dedup();
    for p in &packages {
        add(&mut c, format!("package {p}"));
        if expand {
            add(&mut c, format!("relation {p} ..> smithy.api"));
        }
    }
    if expand {
        add(&mut c, "package smithy.api".into());
        for k in [
            "blob", "boolean", "document", "string", "byte", "short", "integer", "long", "float", "double",
            "bigInteger", "bigDecimal", "timestamp",
        ] {
            add(&mut c, format!("smithy.api: class {k} <<primitive>>"));
        }
    }
    for (id, s) in defined(m) {
        let ns = ns_of(id);
        let has = |t: &str| s.traits.keys().any(|k| k == t);
        let block = match &s.body {
            CBody::Simple(_) => format!("class {id} <<dataType>>"),
            CBody::Service { .. } => format!("class {id} <<service>>"),
            CBody::Resource(_) => format!("class {id} <<resource>>"),
            CBody::Structure(_) | CBody::Union(_) if has("smithy.api#trait") => format!("annotation {id}"),
            CBody::Structure(_) | CBody::Union(_) if has("smithy.api#error") => format!("class {id} <<error>>"),
            CBody::Union(_) => format!("class {id} <<union>>"),
            CBody::Structure(_) => format!("class {id}"),
            _ => continue,
        };
        add(&mut c, format!("{ns}: {block}"));
        let mut part = "";
        for (t, v) in &s.traits {
            match (t.as_str(), v) {
                ("smithy.api#error", _) => {}
                ("smithy.api#documentation", CVal::Str(d)) => {
                    add(&mut c, format!("{ns}: note {id}_note_0 {d:?}"));
                    add(&mut c, format!("{ns}: relation {id} .. {id}_note_0"));
                }
                ("smithy.api#documentation", _) => {}
                (t, v) => {
                    part = "..";
                    let v = match v {
                        CVal::Null => String::new(),
                        // applied without a value
                        CVal::Obj(o) if o.is_empty() => String::new(),
                        CVal::Obj(_) => " = { .. }".into(),
                        CVal::Arr(_) => " = [ .. ]".into(),
                        CVal::Str(s) => format!(" = \"{}\"", one_line(s)),
                        v => format!(" = {}", scalar(v)),
                    };
                    add(&mut c, format!("{block} : @{t}{v}"));
                }
            }
        }
        let mut open = |c: &mut Counts, p: &'static str| {
            add(c, format!("{block}: part {p}"));
            p
        };
        if !part.is_empty() {
            open(&mut c, part);
        }
        let operation = |c: &mut Counts, part: &str, name: &str, t: &str| {
            let (i, o) = match m.shapes.get(t).map(|s| &s.body) {
                Some(CBody::Operation { input, output, .. }) => (input.as_ref(), output.as_ref()),
                _ => (None, None),
            };
            let i = i.map(|i| type_of(m, i)).unwrap_or_default();
            let o = o.map(|o| format!(": {}", type_of(m, o))).unwrap_or_default();
            add(c, format!("{block} {part}: {name}(in: {i}){o}"));
        };
        match &s.body {
            CBody::Structure(ms) | CBody::Union(ms) => {
                ms.values().for_each(|x| add(&mut c, format!("{block} {part}: {}: {}", x.id, x.target)))
            }
            CBody::Service { version, operations, resources, .. } => {
                add(&mut c, format!("{block} {part}: version: string = \"{}\"", one_line(version)));
                operations.iter().for_each(|t| operation(&mut c, part, t, t));
                resources.iter().for_each(|t| add(&mut c, format!("{ns}: relation {id} *-- {t}")));
            }
            CBody::Resource(r) => {
                r.identifiers.iter().for_each(|(k, t)| add(&mut c, format!("{block} {part}: {k}: {t}")));
                r.lifecycle.iter().for_each(|(k, t)| operation(&mut c, part, k, t));
                if !r.operations.is_empty() {
                    part = open(&mut c, "..operations..");
                    r.operations.iter().for_each(|t| operation(&mut c, part, t, t));
                }
                if !r.collection_operations.is_empty() {
                    part = open(&mut c, "..collectionOperations..");
                    r.collection_operations.iter().for_each(|t| operation(&mut c, part, t, t));
                }
                r.resources.iter().for_each(|t| add(&mut c, format!("{ns}: relation {id} *-- {t}")));
            }
            CBody::Simple(k) if expand => add(&mut c, format!("{ns}: relation smithy.api.{k} <|-- {id}")),
            _ => {}
        }
    }
    c
}

fn compare(want: &Counts, got: &Counts) -> Outcome {
    for (k, n) in want {
        let g = got.get(k).copied().unwrap_or(0);
        let class = match g {
            0 => "something the model calls for is missing",
            g if g != *n => "something is not there as often as it should be",
            _ => continue,
        };
        let near: Vec<&String> = got.keys().filter(|x| !want.contains_key(*x)).take(3).collect();
        return violation(class, format!("{k:?} {n} times, not {g}; instead perhaps {near:?}"));
    }
    match got.keys().find(|k| !want.contains_key(*k)) {
        Some(k) => violation("something the model does not call for", k.clone()),
        None => Ok(()),
    }
}

fn run21(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    if run.c.below(3) > 0 {
        mix.traits_pm = mix.traits_pm.max(500);
    }
    let m = gen::model(&mut run.c, &mix);
    let format = match run.c.below(4) {
        0 => Format::Uml(false),
        1 => Format::Uml(true),
        _ => Format::GraphMl,
    };
    let want = match &format {
        Format::Uml(e) => uml_wanted(&m, *e),
        _ => graph_wanted(&m),
    };
    run.nontrivial = m.shapes.len() >= 2;
    run.mark(to_json(&m).to_string().as_bytes());
    run.mark(format.name().as_bytes());
    run.probe(format.name());
    if m.shapes.len() > 20 {
        run.probe("many shapes");
    }
    run.log(|| format!("{format:?} of {}", to_json(&m)));
    for k in 0..run.c.range(1, 2) {
        let seed = run.c.seed();
        let order = run.c.seed();
        let del = run.delivery();
        let fault = match run.c.below(3) {
            2 => StreamFault::Err { at: run.c.size(2000), kind: *run.c.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe]), os: true },
            _ => StreamFault::None,
        };
        let sh = run.sh.clone();
        let (m2, f2) = (m.clone(), format.clone());
        let (r, out, failed) = run
            .pure_life(&format!("draw-{k}"), seed, move || {
                let m = build_shuffled(&m2, order);
                let mut sink = SimWriter::new(del, fault, &sh);
                let r = f2.write(&mut sink, &m);
                (r, sink.out, sink.failed)
            })
            .ok("drawing")?;
        if failed {
            run.probe("a failing sink");
            if r.is_ok() {
                return violation("the sink failed and the writer did not say so", String::new());
            }
            continue;
        }
        if let Err(e) = r {
            return violation("a model cannot be drawn", e);
        }
        let text = match String::from_utf8(out) {
            Ok(t) => t,
            Err(_) => return violation("the diagram is not UTF-8", String::new()),
        };
        run.log(|| format!("diagram:\n{text}"));
        let got = match &format {
            Format::Uml(_) => uml_found(&text),
            _ => graph_found(&text),
        };
        match got {
            Ok(got) => compare(&want, &got)?,
            Err(e) => return violation(format!("the {} is not well formed", format.name()), e),
        }
    }
    Ok(())
}
