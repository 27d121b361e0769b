//! P22: the RDF graph of a model.

use super::assemble::build_shuffled;
use super::docs::defined;
use super::*;
use crate::canon::*;
use crate::formats::{model_iri, Format};
use crate::gen;
use crate::idl::members_of;
use crate::run::violation;
use crate::streams::*;
use atelier_rdf::urn::{iri_to_shape, is_shape_iri, shape_to_iri};
use atelier_rdf::writer::model_to_rdf;
use rdftk_core::model::graph::GraphRef;
use rdftk_core::model::literal::DataType;
use rdftk_iri::{IRIRef, IRI};
use rdftk_io::turtle::writer::TurtleWriter;
use rdftk_io::GraphWriter;
use simrt::SplitMix;
use std::collections::{BTreeMap, BTreeSet};
use std::io::ErrorKind;
use std::str::FromStr;

pub static P22: Prop = Prop {
    id: "P22",
    title: "The RDF graph states every fact of the model and nothing else",
    run: run22,
    quick_runs: 16_000,
    recheck: 60,
    rule: "A generated model, built in a drawn order in processes with their own hash keys, is turned into a graph; the check's own reader of the documented mapping takes the set of its statements apart into a model, and nothing may be missing, wrong or left over; the text of RdfWriter, on sinks that take drawn pieces or fail, is compared with the graph's; shape identifiers are mapped to URNs and back, and damaged URNs; non-trivial: the model defines at least two shapes.",
    real: &["model_to_rdf", "RdfWriter", "atelier_rdf::urn", "rdftk"],
    stubs: STUB_STREAM,
    assumptions: &["numbers are finite", "the order in which a service or resource lists operations and resources is not stated by the mapping", "shapes a model refers to without defining them have no subject"],
};

const RDF: &str = "http://www.w3.org/1999/02/22-rdf-syntax-ns#";
const SMITHY: &str = "https://awslabs.github.io/smithy/rdf-1.0#";

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Node {
    Iri(String),
    Blank(String),
    Lit(String, String),
}

struct Graph {
    of: BTreeMap<Node, Vec<(String, Node)>>,
    parents: BTreeMap<Node, usize>,
}

/// The text that `{:?}` made.
fn plain(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some('t') => out.push('\t'),
            Some('0') => out.push('\0'),
            Some(c @ ('\\' | '"' | '\'')) => out.push(c),
            Some('u') => {
                let hex: String = it.by_ref().take_while(|c| *c != '}').filter(|c| *c != '{').collect();
                match u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32) {
                    Some(c) => out.push(c),
                    None => return Err(format!("a bad escape in {s:?}")),
                }
            }
            c => return Err(format!("a bad escape {c:?} in {s:?}")),
        }
    }
    Ok(out)
}

fn take_in(g: &GraphRef) -> Result<Graph, String> {
    let g = g.borrow();
    let mut all: BTreeSet<(Node, String, Node)> = BTreeSet::new();
    for st in g.statements() {
        let s = match (st.subject().as_iri(), st.subject().as_blank()) {
            (Some(i), _) => Node::Iri(i.to_string()),
            (_, Some(b)) => Node::Blank(b.clone()),
            _ => return Err("a statement about a statement".into()),
        };
        let o = st.object();
        let o = match (o.as_iri(), o.as_blank(), o.as_literal()) {
            (Some(i), _, _) => Node::Iri(i.to_string()),
            (_, Some(b), _) => Node::Blank(b.clone()),
            (_, _, Some(l)) => {
                if l.has_language() {
                    return Err("a literal with a language".into());
                }
                let t = match l.data_type() {
                    None | Some(DataType::String) => "string".to_string(),
                    Some(t) => format!("{t:?}"),
                };
                Node::Lit(plain(l.lexical_form())?, t)
            }
            _ => return Err("a statement as object".into()),
        };
        // a graph is a set of statements
        all.insert((s, st.predicate().to_string(), o));
    }
    let mut r = Graph { of: BTreeMap::new(), parents: BTreeMap::new() };
    for (s, p, o) in all {
        if let Node::Blank(_) = o {
            *r.parents.entry(o.clone()).or_default() += 1;
        }
        r.of.entry(s).or_default().push((p, o));
    }
    Ok(r)
}

type R<T> = Result<T, String>;

impl Graph {
    fn all(&mut self, s: &Node, p: &str) -> Vec<Node> {
        let mut v = Vec::new();
        if let Some(l) = self.of.get_mut(s) {
            l.retain(|(q, o)| {
                if q == p {
                    v.push(o.clone());
                }
                q != p
            });
        }
        v
    }
    fn at_most_one(&mut self, s: &Node, p: &str) -> R<Option<Node>> {
        let mut v = self.all(s, p);
        if v.len() > 1 {
            return Err(format!("{s:?} has {} values of {p}", v.len()));
        }
        Ok(v.pop())
    }
    fn one(&mut self, s: &Node, p: &str) -> R<Node> {
        self.at_most_one(s, p)?.ok_or_else(|| format!("{s:?} has no {p}"))
    }
    /// A blank node that nothing else refers to.
    fn own(&mut self, n: Node) -> R<Node> {
        match (&n, self.parents.get(&n)) {
            (Node::Blank(_), Some(1)) => Ok(n),
            (Node::Blank(_), _) => Err(format!("{n:?} is shared")),
            _ => Err(format!("{n:?} is not a blank node")),
        }
    }
    fn closed(&self, s: &Node) -> R<()> {
        match self.of.get(s).and_then(|l| l.first()) {
            Some((p, o)) => Err(format!("a statement the model does not call for: {s:?} {p} {o:?}")),
            None => Ok(()),
        }
    }
    /// The members of a container, by number; `rdf:li` where order does not matter.
    fn numbered(&mut self, s: &Node, li: bool) -> R<Vec<Node>> {
        let mut v: Vec<(usize, Node)> = Vec::new();
        if let Some(l) = self.of.get_mut(s) {
            let prefix = format!("{RDF}_");
            let mut rest = Vec::new();
            for (p, o) in l.drain(..) {
                match p.strip_prefix(&prefix).and_then(|n| n.parse().ok()) {
                    Some(n) => v.push((n, o)),
                    None => rest.push((p, o)),
                }
            }
            *l = rest;
        }
        v.sort();
        for (i, (n, _)) in v.iter().enumerate() {
            if *n != i + 1 {
                return Err(format!("the members of {s:?} are numbered {:?}", v.iter().map(|x| x.0).collect::<Vec<_>>()));
            }
        }
        let mut v: Vec<Node> = v.into_iter().map(|x| x.1).collect();
        if li {
            v.extend(self.all(s, &format!("{RDF}li")));
        }
        Ok(v)
    }
    fn container(&mut self, s: &Node, what: &str) -> R<()> {
        match self.one(s, &format!("{RDF}type"))? {
            Node::Iri(i) if i == format!("{RDF}{what}") => Ok(()),
            n => Err(format!("{s:?} is a {n:?}, not an rdf:{what}")),
        }
    }
    fn text(&mut self, s: &Node, p: &str) -> R<String> {
        match self.one(s, &format!("{SMITHY}{p}"))? {
            Node::Lit(t, k) if k == "string" => Ok(t),
            n => Err(format!("{p} of {s:?} is {n:?}")),
        }
    }
    fn entries(&mut self, s: &Node) -> R<BTreeMap<String, CVal>> {
        let mut o = BTreeMap::new();
        for e in self.numbered(s, true)? {
            let e = self.own(e)?;
            let k = self.text(&e, "key")?;
            let v = self.one(&e, &format!("{SMITHY}value"))?;
            let v = self.value(v)?;
            self.closed(&e)?;
            if o.insert(k.clone(), v).is_some() {
                return Err(format!("key {k:?} is there twice"));
            }
        }
        Ok(o)
    }
    fn value(&mut self, n: Node) -> R<CVal> {
        Ok(match n {
            Node::Lit(t, k) => match k.as_str() {
                "string" => CVal::Str(t),
                "Boolean" => CVal::Bool(t.parse().map_err(|_| format!("boolean {t:?}"))?),
                "Double" => CVal::Float(t.parse().map_err(|_| format!("double {t:?}"))?),
                "Long" => CVal::Int(t.parse().map_err(|_| format!("long {t:?}"))?),
                k => return Err(format!("a value {t:?} of type {k}")),
            },
            Node::Iri(i) if i == format!("{RDF}nil") || i == format!("{SMITHY}null") => CVal::Null,
            Node::Iri(i) => return Err(format!("the value {i}")),
            n => {
                let n = self.own(n)?;
                let v = match self.one(&n, &format!("{RDF}type"))? {
                    Node::Iri(i) if i == format!("{RDF}Seq") => {
                        let v = self.numbered(&n, false)?;
                        CVal::Arr(v.into_iter().map(|v| self.value(v)).collect::<R<_>>()?)
                    }
                    Node::Iri(i) if i == format!("{RDF}Bag") => CVal::Obj(self.entries(&n)?),
                    t => return Err(format!("a value of type {t:?}")),
                };
                self.closed(&n)?;
                v
            }
        })
    }
    fn traits(&mut self, s: &Node) -> R<CTraits> {
        let mut t = CTraits::new();
        for a in self.all(s, &format!("{SMITHY}apply")) {
            let a = self.own(a)?;
            let id = self.id(&a, "trait")?;
            let v = match self.at_most_one(&a, &format!("{SMITHY}value"))? {
                Some(v) => self.value(v)?,
                None => CVal::Obj(BTreeMap::new()),
            };
            self.closed(&a)?;
            if t.insert(id.clone(), v).is_some() {
                return Err(format!("trait {id} is applied twice to {s:?}"));
            }
        }
        Ok(t)
    }
    fn id(&mut self, s: &Node, p: &str) -> R<String> {
        let n = self.one(s, &format!("{SMITHY}{p}"))?;
        shape_id(&n)
    }
    fn ids(&mut self, s: &Node, p: &str) -> R<Vec<String>> {
        self.all(s, &format!("{SMITHY}{p}")).iter().map(shape_id).collect()
    }
    fn maybe_id(&mut self, s: &Node, p: &str) -> R<Option<String>> {
        self.at_most_one(s, &format!("{SMITHY}{p}"))?.map(|n| shape_id(&n)).transpose()
    }
    fn members(&mut self, s: &Node) -> R<BTreeMap<String, CMember>> {
        let mut v = BTreeMap::new();
        for x in self.all(s, &format!("{SMITHY}member")) {
            let x = self.own(x)?;
            let id = self.text(&x, "name")?;
            let target = shape_id(&self.one(&x, &format!("{RDF}type"))?)?;
            let traits = self.traits(&x)?;
            self.closed(&x)?;
            if v.insert(id.clone(), CMember { id: id.clone(), target, traits }).is_some() {
                return Err(format!("member {id} of {s:?} is there twice"));
            }
        }
        Ok(v)
    }
    fn shape(&mut self, s: &Node) -> R<CShape> {
        let kind = match self.one(s, &format!("{RDF}type"))? {
            Node::Iri(i) => i.strip_prefix(SMITHY).map(|k| k.to_string()).ok_or_else(|| format!("{s:?} is a {i}"))?,
            n => return Err(format!("{s:?} is a {n:?}")),
        };
        let only = |mut m: BTreeMap<String, CMember>, names: &[&str]| -> R<Vec<CMember>> {
            let v = names.iter().map(|n| m.remove(*n).ok_or_else(|| format!("no member {n}"))).collect::<R<_>>()?;
            match m.keys().next() {
                Some(k) => Err(format!("a member {k}")),
                None => Ok(v),
            }
        };
        let simple = |k: &str| SIMPLE.iter().find(|s| s.eq_ignore_ascii_case(k)).map(|s| s.to_string());
        let body = match kind.as_str() {
            "List" => CBody::List(only(self.members(s)?, &["member"])?.remove(0)),
            "Set" => CBody::Set(only(self.members(s)?, &["member"])?.remove(0)),
            "Map" => {
                let mut v = only(self.members(s)?, &["key", "value"])?;
                let value = v.remove(1);
                CBody::Map(v.remove(0), value)
            }
            "Structure" => CBody::Structure(self.members(s)?),
            "Union" => CBody::Union(self.members(s)?),
            "Operation" => CBody::Operation {
                input: self.maybe_id(s, "input")?,
                output: self.maybe_id(s, "output")?,
                errors: self.ids(s, "error")?,
            },
            "Service" => {
                let mut renames = BTreeMap::new();
                if let Some(bag) = self.at_most_one(s, &format!("{SMITHY}rename"))? {
                    let bag = self.own(bag)?;
                    self.container(&bag, "Bag")?;
                    for e in self.numbered(&bag, true)? {
                        let e = self.own(e)?;
                        let (id, name) = (self.id(&e, "shape")?, self.text(&e, "name")?);
                        self.closed(&e)?;
                        if renames.insert(id.clone(), name).is_some() {
                            return Err(format!("{id} is renamed twice"));
                        }
                    }
                    self.closed(&bag)?;
                }
                CBody::Service {
                    version: self.text(s, "version")?,
                    operations: self.ids(s, "operation")?,
                    resources: self.ids(s, "resource")?,
                    renames,
                }
            }
            "Resource" => {
                let mut r = CResource::default();
                if let Some(bag) = self.at_most_one(s, &format!("{SMITHY}identifiers"))? {
                    let bag = self.own(bag)?;
                    self.container(&bag, "Bag")?;
                    for e in self.numbered(&bag, true)? {
                        let e = self.own(e)?;
                        let k = self.text(&e, "key")?;
                        let t = match self.maybe_id(&e, "target")? {
                            Some(t) => t,
                            None => self.id(&e, "value")?,
                        };
                        self.closed(&e)?;
                        if r.identifiers.insert(k.clone(), t).is_some() {
                            return Err(format!("identifier {k} is there twice"));
                        }
                    }
                    self.closed(&bag)?;
                }
                for l in ["create", "put", "read", "update", "delete", "list"] {
                    if let Some(t) = self.maybe_id(s, l)? {
                        r.lifecycle.insert(l.to_string(), t);
                    }
                }
                r.operations = self.ids(s, "operation")?;
                r.collection_operations = self.ids(s, "collectionOperation")?;
                r.resources = self.ids(s, "resource")?;
                CBody::Resource(r)
            }
            k => match simple(k) {
                Some(k) => CBody::Simple(k),
                None => return Err(format!("{s:?} is a smithy:{k}")),
            },
        };
        let traits = self.traits(s)?;
        self.closed(s)?;
        Ok(CShape { traits, body })
    }
    fn model(&mut self, iri: Option<&str>) -> R<CModel> {
        let (ty, model) = (format!("{RDF}type"), Node::Iri(format!("{SMITHY}Model")));
        let roots: Vec<Node> = self
            .of
            .iter()
            .filter(|(_, l)| l.iter().any(|(p, o)| *p == ty && *o == model))
            .map(|(s, _)| s.clone())
            .collect();
        let root = match (roots.as_slice(), iri) {
            ([r @ Node::Blank(_)], None) => r.clone(),
            ([Node::Iri(i)], Some(w)) if i == w => roots[0].clone(),
            _ => return Err(format!("the model is {roots:?}, not {iri:?}")),
        };
        self.one(&root, &ty)?;
        if self.text(&root, "smithy_version")? != "1.0" {
            return Err("the wrong Smithy version".into());
        }
        let mut m = CModel::default();
        if let Some(bag) = self.at_most_one(&root, &format!("{SMITHY}metadata"))? {
            let bag = self.own(bag)?;
            self.container(&bag, "Bag")?;
            m.metadata = self.entries(&bag)?;
            self.closed(&bag)?;
        }
        for s in self.all(&root, &format!("{SMITHY}shape")) {
            let id = shape_id(&s)?;
            let shape = self.shape(&s)?;
            m.shapes.insert(id, shape);
        }
        self.closed(&root)?;
        let left: Vec<Node> = self.of.keys().cloned().collect();
        left.iter().try_for_each(|s| self.closed(s))?;
        Ok(m)
    }
}

fn shape_id(n: &Node) -> R<String> {
    if let Node::Iri(i) = n {
        if let Some((ns, name)) = i.strip_prefix("urn:smithy:").and_then(|r| r.split_once(':')) {
            return Ok(format!("{ns}#{}", name.replacen('/', "$", 1)));
        }
    }
    Err(format!("{n:?} is not the URN of a shape"))
}

fn wanted(m: &CModel) -> CModel {
    let mut w = CModel { metadata: m.metadata.clone(), shapes: BTreeMap::new() };
    for (id, s) in defined(m) {
        let mut s = s.clone();
        sort(&mut s);
        w.shapes.insert(id.clone(), s);
    }
    w
}

fn sort(s: &mut CShape) {
    crate::mutate::lists_mut(&mut s.body).into_iter().for_each(|l| l.sort());
}

/// The words of a Turtle text, blank nodes without their names.
fn words(b: &[u8]) -> Vec<String> {
    let t = String::from_utf8_lossy(b).into_owned();
    let mut v: Vec<String> =
        // what separates statements depends on their order
        t.split_whitespace()
            .filter(|w| !w.chars().all(|c| "[];.,".contains(c)))
            .map(|w| if w.starts_with("_:B") { "_:B".into() } else { w.to_string() })
            .collect();
    v.sort();
    v
}

fn look(m: &atelier_core::model::Model, named: bool, b: Option<SimWriter>) -> Result<CModel, String> {
    let iri = named.then(model_iri);
    let g = model_to_rdf(m, iri.clone(), rdftk_core::simple::graph_factory()).map_err(|e| format!("no graph: {e}"))?;
    let mut taken = take_in(&g)?;
    let mut found = taken.model(iri.map(|i| i.to_string()).as_deref())?;
    found.shapes.values_mut().for_each(sort);
    let Some(mut b) = b else { return Ok(found) };
    let mut a = Vec::new();
    TurtleWriter::default().write(&mut a, &g).map_err(|e| format!("no Turtle: {e}"))?;
    let r = Format::Rdf(named).write(&mut b, m);
    if b.failed {
        return match r {
            Ok(()) => Err("the sink failed and RdfWriter did not say so".into()),
            Err(_) => Ok(found),
        };
    }
    r.map_err(|e| format!("RdfWriter fails: {e}"))?;
    let (a, b) = (words(&a), words(&b.out));
    if a != b {
        let missing: Vec<&String> = a.iter().filter(|w| !b.contains(w)).take(5).collect();
        let extra: Vec<&String> = b.iter().filter(|w| !a.contains(w)).take(5).collect();
        return Err(format!("the text of RdfWriter is not that of the graph: missing {missing:?} extra {extra:?}"));
    }
    Ok(found)
}

/// Shape identifiers as URNs and back, and URNs with some damage.
fn urns(ids: &[String], seed: u64) -> Result<(), String> {
    let mut r = SplitMix::new(seed);
    for id in ids {
        let sid = sid(id);
        let iri = shape_to_iri(&sid);
        let want = format!("urn:smithy:{}", id.replacen('#', ":", 1).replacen('$', "/", 1));
        if iri.to_string() != want {
            return Err(format!("the URN of {id} is {iri}"));
        }
        match iri_to_shape(iri.clone()) {
            Ok(back) if back.to_string() == *id => {}
            other => return Err(format!("{iri} is the URN of {id}, but read as {other:?}")),
        }
        if !is_shape_iri(iri) {
            return Err(format!("{want} is the URN of {id}, but is_shape_iri does not say so"));
        }
        let mut t: Vec<char> = want.chars().collect();
        for _ in 0..1 + r.next() % 2 {
            let at = r.next() as usize % t.len();
            let c = ['/', ':', '.', '_', 'a', '9', '-', '#', '?', '%', '$', 'Z', ' '][r.next() as usize % 13];
            match r.next() % 3 {
                0 => t[at] = c,
                1 => t.insert(at, c),
                _ if t.len() > 1 => {
                    t.remove(at);
                }
                _ => {}
            }
        }
        let text: String = t.into_iter().collect();
        let Ok(iri) = IRI::from_str(&text).map(IRIRef::from) else { continue };
        if iri.to_string() != text {
            continue;
        }
        let read = iri_to_shape(iri.clone());
        if is_shape_iri(iri) != read.is_ok() {
            return Err(format!("is_shape_iri and iri_to_shape disagree on {text}"));
        }
        if let Ok(id) = read {
            if shape_to_iri(&id).to_string() != text {
                return Err(format!("{text} is read as {id}, whose URN is {}", shape_to_iri(&id)));
            }
        }
    }
    Ok(())
}

fn run22(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    if run.c.below(3) > 0 {
        mix.traits_pm = mix.traits_pm.max(500);
    }
    let m = gen::model(&mut run.c, &mix);
    let want = wanted(&m);
    let mut ids: Vec<String> = m.shapes.keys().cloned().collect();
    for (id, s) in &m.shapes {
        ids.extend(members_of(&s.body).iter().map(|x| format!("{id}${}", x.id)));
    }
    ids.retain(|id| id.matches('$').count() < 2);
    while ids.len() > 4 {
        let at = run.c.size(ids.len() - 1);
        ids.swap_remove(at);
    }
    run.nontrivial = m.shapes.len() >= 2;
    run.mark(to_json(&m).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&m)));
    if m.shapes.len() > 20 {
        run.probe("many shapes");
    }
    for k in 0..run.c.range(1, 2) {
        let seed = run.c.seed();
        let order = run.c.seed();
        let damage = run.c.seed();
        let named = run.c.below(2) == 1;
        let explicit = run.c.below(2) == 1;
        // Turtle takes far longer than the graph
        let text = run.c.below(8) == 7;
        let del = run.delivery();
        let fault = match run.c.below(4) {
            3 => StreamFault::Err { at: run.c.size(2000), kind: *run.c.pick(&[ErrorKind::Other, ErrorKind::BrokenPipe]), os: true },
            _ => StreamFault::None,
        };
        let sh = run.sh.clone();
        let (m2, ids) = (m.clone(), ids.clone());
        let (found, urns) = run
            .pure_life(&format!("graph-{k}"), seed, move || {
                if explicit {
                    as_read();
                }
                let m = build_shuffled(&m2, order);
                (look(&m, named, text.then(|| SimWriter::new(del, fault, &sh))), urns(&ids, damage))
            })
            .ok("making the graph")?;
        if let Err(e) = urns {
            return violation("a URN does not stand for its shape", e);
        }
        match found {
            Err(e) => return violation("the graph is not that of a model", e),
            Ok(found) => {
                if let Some((class, detail)) = diff(&want, &found) {
                    return violation(format!("the graph states another model: {class}"), detail);
                }
            }
        }
    }
    Ok(())
}
