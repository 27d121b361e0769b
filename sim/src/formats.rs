//! Every representation a model can be written in and read from, behind one enumeration.

use crate::canon::*;
use crate::choice::Choices;
use crate::gen::{self, Mix};
use crate::idl::{self, Style};
use atelier_core::io::debug::DebugWriter;
use atelier_core::io::lines::LineOrientedWriter;
use atelier_core::io::{read_model_from_file, read_model_from_string, write_model_to_file, write_model_to_string, ModelReader, ModelWriter};
use atelier_core::model::Model;
use atelier_describe::document::writer::DocumentationWriter;
use atelier_describe::graphml::writer::GraphMLWriter;
use atelier_describe::plant_uml::writer::PlantUmlWriter;
use atelier_json::{JsonReader, JsonWriter};
use atelier_rdf::writer::RdfWriter;
use atelier_smithy::{SmithyReader, SmithyWriter};
use std::io::{Read, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Format {
    JsonCompact,
    JsonPretty,
    Smithy(String),
    Lines,
    Debug,
    Docs,
    GraphMl,
    Uml(bool),
    Rdf(bool),
}

pub fn any(c: &mut Choices, namespaces: &[String]) -> Format {
    match c.below(12) {
        0 => Format::Lines,
        1 => Format::JsonCompact,
        2 => Format::JsonPretty,
        3 | 4 | 5 => Format::Smithy(c.pick(namespaces).clone()),
        6 => Format::Debug,
        7 => Format::Docs,
        8 => Format::GraphMl,
        9 => Format::Uml(c.below(2) == 1),
        _ => Format::Rdf(c.below(2) == 1),
    }
}

pub fn all(namespaces: &[String]) -> Vec<Format> {
    let mut v = vec![
        Format::Lines,
        Format::JsonCompact,
        Format::JsonPretty,
        Format::Debug,
        Format::Docs,
        Format::GraphMl,
        Format::Uml(false),
        Format::Uml(true),
        Format::Rdf(false),
        Format::Rdf(true),
    ];
    v.extend(namespaces.iter().map(|n| Format::Smithy(n.clone())));
    v
}

pub fn model_iri() -> rdftk_iri::IRIRef {
    use std::str::FromStr;
    rdftk_iri::IRIRef::from(rdftk_iri::IRI::from_str("https://example.org/the/model").unwrap())
}

macro_rules! with_writer {
    ($f:expr, $w:ident => $body:expr) => {
        match $f {
            Format::JsonCompact => { let mut $w = JsonWriter::new(false); $body }
            Format::JsonPretty => { let mut $w = JsonWriter::new(true); $body }
            Format::Smithy(ns) => { let mut $w = SmithyWriter::new(nsid(ns)); $body }
            Format::Lines => { let mut $w = LineOrientedWriter::default(); $body }
            Format::Debug => { let mut $w = DebugWriter::default(); $body }
            Format::Docs => { let mut $w = DocumentationWriter::default(); $body }
            Format::GraphMl => { let mut $w = GraphMLWriter::default(); $body }
            Format::Uml(e) => { let mut $w = PlantUmlWriter::new(*e); $body }
            Format::Rdf(false) => { let mut $w = RdfWriter::default(); $body }
            Format::Rdf(true) => { let mut $w = RdfWriter::new(model_iri()); $body }
        }
    };
}

impl Format {
    pub fn write(&self, out: &mut impl Write, m: &Model) -> Result<(), String> {
        with_writer!(self, w => w.write(out, m).map_err(|e| e.to_string()))
    }
    /// The same writer used for each of these in turn.
    pub fn write_each(&self, models: &[&Model], outs: &mut [&mut dyn Write]) -> Vec<Result<(), String>> {
        with_writer!(self, w => models
            .iter()
            .zip(outs.iter_mut())
            .map(|(m, mut o)| w.write(&mut o, m).map_err(|e| e.to_string()))
            .collect())
    }
    pub fn to_text(&self, m: &Model) -> Result<String, String> {
        with_writer!(self, w => write_model_to_string(&mut w, m).map_err(|e| e.to_string()))
    }
    pub fn to_file(&self, m: &Model, path: &str) -> Result<(), String> {
        with_writer!(self, w => write_model_to_file(&mut w, m, path.into()).map_err(|e| e.to_string()))
    }
    pub fn name(&self) -> &'static str {
        match self {
            Format::JsonCompact => "json",
            Format::JsonPretty => "json-pretty",
            Format::Smithy(_) => "smithy",
            Format::Lines => "lines",
            Format::Debug => "debug",
            Format::Docs => "documentation",
            Format::GraphMl => "graphml",
            Format::Uml(_) => "plantuml",
            Format::Rdf(_) => "rdf",
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lang {
    Json,
    Idl,
}

impl Lang {
    pub fn read(&self, r: &mut impl Read) -> Result<Model, String> {
        match self {
            Lang::Json => JsonReader::default().read(r).map_err(|e| e.to_string()),
            Lang::Idl => SmithyReader::default().read(r).map_err(|e| e.to_string()),
        }
    }
    pub fn read_file(&self, path: &str) -> Result<Model, String> {
        match self {
            Lang::Json => read_model_from_file(&mut JsonReader::default(), path.into()).map_err(|e| e.to_string()),
            Lang::Idl => read_model_from_file(&mut SmithyReader::default(), path.into()).map_err(|e| e.to_string()),
        }
    }
    pub fn read_bytes(&self, b: &[u8]) -> Result<Model, String> {
        match self {
            Lang::Json => read_model_from_string(&mut JsonReader::default(), b).map_err(|e| e.to_string()),
            Lang::Idl => read_model_from_string(&mut SmithyReader::default(), b).map_err(|e| e.to_string()),
        }
    }
}

pub fn namespaces_of(m: &CModel) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for id in m.shapes.keys() {
        let ns = idl::ns_of(id).to_string();
        if !v.contains(&ns) {
            v.push(ns);
        }
    }
    if v.is_empty() {
        v.push("example.alpha".to_string());
    }
    v
}

/// A legal document of either language, and the model it was made from.
pub fn document(c: &mut Choices, mix: &mut Mix) -> (Lang, String, CModel) {
    let lang = if c.below(2) == 0 { Lang::Json } else { Lang::Idl };
    document_in(c, mix, lang)
}

pub fn document_in(c: &mut Choices, mix: &mut Mix, lang: Lang) -> (Lang, String, CModel) {
    let (mut escapes, mut quoted_keys) = (false, false);
    if lang == Lang::Idl {
        escapes = c.below(4) == 3;
        quoted_keys = c.below(4) == 3;
        mix.mild = !escapes;
        mix.wild_keys = quoted_keys;
    }
    let m = gen::model(c, mix);
    let (t, p) = written(c, lang, &m, escapes, quoted_keys);
    (lang, t, p)
}

/// A document of this very model (of one namespace of it, in the IDL).
pub fn document_of(c: &mut Choices, _mix: &Mix, lang: Lang, m: &CModel) -> (String, CModel) {
    written(c, lang, m, true, true)
}

fn written(c: &mut Choices, lang: Lang, m: &CModel, escapes: bool, quoted_keys: bool) -> (String, CModel) {
    match lang {
        Lang::Json => (gen::foreign_json(c, m), m.clone()),
        Lang::Idl => {
            let ns = c.pick(&namespaces_of(m)).clone();
            let mut p = idl::part(m, &ns);
            // traits both applied from outside and written at the member would conflict
            p.shapes.retain(|k, _| !k.contains('$'));
            let style = Style {
                escapes,
                quoted_keys,
                list_member_traits: c.below(4) == 3,
                layout: c.below(3),
            };
            let t = idl::text(c, &p, &ns, style);
            (t, p)
        }
    }
}
