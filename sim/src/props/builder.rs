//! P23: models put together with the builder.

use super::*;
use crate::canon::*;
use crate::choice::Choices;
use crate::gen::{self, Mix};
use crate::idl::{members_of, Extra, Style, name_of, ns_of, PRELUDE_SHAPE_NAMES};
use crate::run::violation;
use atelier_core::builder::traits as named;
use atelier_core::builder::traits::ErrorSource;
use atelier_core::builder::{
    ArrayBuilder, ListBuilder, MapBuilder, MemberBuilder, ModelBuilder, ObjectBuilder, OperationBuilder,
    ReferenceBuilder, ResourceBuilder, ServiceBuilder, ShapeTraits, SimpleShapeBuilder, StructureBuilder,
    TraitBuilder, ValueBuilder,
};
use atelier_core::model::shapes::Simple;
use atelier_core::model::values::{Number, Value};
use atelier_core::model::Model;
use atelier_core::Version;
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryFrom;
use std::str::FromStr;

pub static P23: Prop = Prop {
    id: "P23",
    title: "Models put together with the builder are the ones described, in every order",
    run: run23,
    quick_runs: 150_000,
    recheck: 60,
    rule: "A drawn model is described to a ModelBuilder step by step, in drawn orders, spellings and ways of saying the same (relative and absolute names, uses, applied traits, convenience methods, value builders), with conversions in between, in two processes with different hash keys; the outcome is compared with the model; a third of the runs, and one in six that is an IDL document, contradict themselves at one place; non-trivial: at least one relative name, use or apply was resolved.",
    real: &["atelier_smithy::SmithyReader, atelier_core::builder, atelier_core::model, atelier_core::prelude"],
    stubs: STUB_OS,
    assumptions: &[
        "texts that are no identifiers are left out (the builder is documented to panic)",
        "an annotation trait without a value and one with the empty object are the same",
        "which of the errors a contradiction gives is left open",
    ],
};

// ------------------------------------------------------------------------------------------------
// Descriptions
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct TSpec {
    /// as spelled
    id: String,
    value: CVal,
    how: u64,
    /// a prelude trait with a function of its own
    special: bool,
}

#[derive(Clone, Debug)]
struct MSpec {
    id: String,
    target: String,
    how: u64,
    traits: Vec<TSpec>,
}

#[derive(Clone, Debug)]
struct Def {
    name: String,
    /// With references as spelled; members are in `members`.
    body: CBody,
    members: Vec<MSpec>,
    traits: Vec<TSpec>,
    how: u64,
}

#[derive(Clone, Debug)]
enum Step {
    Def(Def),
    Use { id: String, traits: Vec<TSpec> },
    Apply { to: String, a_trait: TSpec },
    Meta { key: String, value: CVal, how: u64 },
    MetaAll(Vec<(String, CVal)>),
    /// Convert what there is so far, and drop it.
    Convert(u64),
}

// ------------------------------------------------------------------------------------------------
// Description -> calls of the builder
// ------------------------------------------------------------------------------------------------

fn a_value(v: &CVal, how: u64) -> Value {
    if how % 3 == 0 {
        return value(v);
    }
    match v {
        CVal::Null => Value::None,
        CVal::Bool(b) => ValueBuilder::boolean(*b).into(),
        CVal::Int(i) if how % 2 == 0 => ValueBuilder::number(Number::Integer(*i)).into(),
        CVal::Int(i) => ValueBuilder::integer(*i).into(),
        CVal::Float(f) => ValueBuilder::float(*f).into(),
        CVal::Str(s) => (&mut ValueBuilder::string(s)).into(),
        CVal::Arr(a) => {
            let mut b: ArrayBuilder = ValueBuilder::array();
            for x in a {
                let _ = match x {
                    CVal::Bool(x) => b.boolean(*x),
                    CVal::Int(x) if how % 2 == 0 => b.number(Number::Integer(*x)),
                    CVal::Int(x) => b.integer(*x),
                    CVal::Float(x) => b.float(*x),
                    CVal::Str(x) => b.string(x),
                    x => b.push(a_value(x, how)),
                };
            }
            if how % 2 == 0 {
                b.into()
            } else {
                (&mut b).into()
            }
        }
        CVal::Obj(o) => {
            let mut b: ObjectBuilder = ValueBuilder::object();
            for (k, x) in o {
                let _ = match x {
                    CVal::Bool(x) => b.boolean(k, *x),
                    CVal::Int(x) if how % 2 == 0 => b.number(k, Number::Integer(*x)),
                    CVal::Int(x) => b.integer(k, *x),
                    CVal::Float(x) => b.float(k, *x),
                    CVal::Str(x) => b.string(k, x),
                    x => b.insert(k, a_value(x, how)),
                };
            }
            if how % 2 == 0 {
                b.into()
            } else {
                (&mut b).into()
            }
        }
    }
}

fn text_of<'a>(v: &'a CVal, key: &str) -> Option<&'a str> {
    match v {
        CVal::Obj(o) => match o.get(key) {
            Some(CVal::Str(s)) => Some(s),
            _ => None,
        },
        _ => None,
    }
}
fn number_of(v: &CVal, key: &str) -> Option<usize> {
    match v {
        CVal::Obj(o) => match o.get(key) {
            Some(CVal::Int(i)) => Some(*i as usize),
            _ => None,
        },
        _ => None,
    }
}
fn texts(v: &CVal) -> Vec<&str> {
    match v {
        CVal::Arr(a) => a
            .iter()
            .filter_map(|x| match x {
                CVal::Str(s) => Some(s.as_str()),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

/// The function for a prelude trait.
fn special(t: &TSpec) -> TraitBuilder {
    let v = &t.value;
    let s = |v: &CVal| match v {
        CVal::Str(s) => s.clone(),
        _ => String::new(),
    };
    match name_of(&t.id) {
        "box" => named::boxed(),
        "deprecated" => named::deprecated(text_of(v, "message"), text_of(v, "since")),
        "documentation" => named::documentation(&s(v)),
        "error" => named::error_source(ErrorSource::from_str(&s(v)).expect("source")),
        "externalDocumentation" => named::external_documentation(&pairs(v)),
        "idempotent" => named::idempotent(),
        "length" => match (number_of(v, "min"), number_of(v, "max"), t.how % 2) {
            (Some(n), None, 1) => named::length_min(n),
            (None, Some(n), 1) => named::length_max(n),
            (a, b, _) => named::length(a, b),
        },
        "range" => match (number_of(v, "min"), number_of(v, "max"), t.how % 2) {
            (Some(n), None, 1) => named::range_min(n),
            (None, Some(n), 1) => named::range_max(n),
            (a, b, _) => named::range(a, b),
        },
        "noReplace" => named::no_replace(),
        "paginated" => named::paginated(
            text_of(v, "inputToken"),
            text_of(v, "outputToken"),
            text_of(v, "items"),
            text_of(v, "pageSize"),
        ),
        "pattern" => named::pattern(&s(v)),
        "private" => named::private(),
        "readonly" => named::readonly(),
        "references" => named::references(value(v)),
        "required" => named::required(),
        "requiresLength" => named::requires_length(),
        "sensitive" => named::sensitive(),
        "streaming" => named::streaming(),
        "since" => named::since(&s(v)),
        "tags" => named::tagged(&texts(v)),
        "title" => named::title(&s(v)),
        "trait" => named::a_trait(),
        "uniqueItems" => named::unique_items(),
        "unstable" => named::unstable(),
        n => unreachable!("{n}"),
    }
}

fn pairs(v: &CVal) -> Vec<(&str, &str)> {
    match v {
        CVal::Obj(o) => o
            .iter()
            .filter_map(|(k, v)| match v {
                CVal::Str(s) => Some((k.as_str(), s.as_str())),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

fn trait_builder(t: &TSpec) -> TraitBuilder {
    if t.special {
        return special(t);
    }
    if matches!(&t.value, CVal::Obj(o) if o.is_empty()) && t.how % 3 < 2 {
        return if t.how % 3 == 0 { TraitBuilder::new(&t.id) } else { TraitBuilder::annotation(&t.id) };
    }
    let mut b = TraitBuilder::new(&t.id);
    match (&t.value, t.how % 3) {
        (CVal::Bool(x), 0) => drop(b.boolean(*x)),
        (CVal::Int(x), 0) => drop(b.integer(*x)),
        (CVal::Int(x), 1) => drop(b.number(Number::Integer(*x))),
        (CVal::Float(x), 0) => drop(b.float(*x)),
        (CVal::Str(x), 0) => drop(b.string(x)),
        (CVal::Arr(x), 0) => drop(b.array(x.iter().map(|x| a_value(x, t.how)).collect())),
        (CVal::Obj(x), 0) => drop(b.object(x.iter().map(|(k, x)| (k.clone(), a_value(x, t.how))).collect())),
        (v, 1) => return TraitBuilder::with_value(&t.id, a_value(v, t.how)),
        (v, _) => drop(b.value(a_value(v, t.how))),
    }
    b
}

/// Apply to a builder: with the method for it, where there is one.
fn dress<B: ShapeTraits>(b: &mut B, traits: &[TSpec], own: impl Fn(&mut B, &TSpec) -> bool) {
    for t in traits {
        let v = &t.value;
        if t.special && t.how % 3 == 0 {
            if own(b, t) {
                continue;
            }
            let done = match name_of(&t.id) {
                "documentation" => matches!(v, CVal::Str(s) if { b.documentation(s); true }),
                "externalDocumentation" => {
                    b.external_documentation(&pairs(v));
                    true
                }
                "deprecated" => {
                    b.deprecated(text_of(v, "message"), text_of(v, "since"));
                    true
                }
                "private" => {
                    b.private();
                    true
                }
                "since" => matches!(v, CVal::Str(s) if { b.since(s); true }),
                "tags" => {
                    b.tagged(&texts(v));
                    true
                }
                "unstable" => {
                    b.unstable();
                    true
                }
                _ => false,
            };
            if done {
                continue;
            }
        }
        b.apply_trait(trait_builder(t));
    }
}

fn member_builder(m: &MSpec) -> MemberBuilder {
    let mut b = match (m.target.strip_prefix("smithy.api#"), m.how % 2) {
        (Some("Blob"), 1) => MemberBuilder::blob(&m.id),
        (Some("Boolean"), 1) => MemberBuilder::boolean(&m.id),
        (Some("Document"), 1) => MemberBuilder::document(&m.id),
        (Some("String"), 1) => MemberBuilder::string(&m.id),
        (Some("Byte"), 1) => MemberBuilder::byte(&m.id),
        (Some("Short"), 1) => MemberBuilder::short(&m.id),
        (Some("Integer"), 1) => MemberBuilder::integer(&m.id),
        (Some("Long"), 1) => MemberBuilder::long(&m.id),
        (Some("Float"), 1) => MemberBuilder::float(&m.id),
        (Some("Double"), 1) => MemberBuilder::double(&m.id),
        (Some("BigInteger"), 1) => MemberBuilder::big_integer(&m.id),
        (Some("BigDecimal"), 1) => MemberBuilder::big_decimal(&m.id),
        (Some("Timestamp"), 1) => MemberBuilder::timestamp(&m.id),
        _ if m.how % 3 == 2 => {
            let target = MemberBuilder::new(&m.id, &m.target).target().clone();
            MemberBuilder::with_target(&m.id, target)
        }
        _ => MemberBuilder::new(&m.id, &m.target),
    };
    dress(&mut b, &m.traits, |b, t| {
        name_of(&t.id) == "required" && {
            b.required();
            true
        }
    });
    b
}

fn structure(d: &Def) -> StructureBuilder {
    let mut b = StructureBuilder::new(&d.name);
    for m in &d.members {
        if m.traits.is_empty() && m.how % 3 == 0 {
            match m.target.as_str() {
                // resolved where it is used
                "Blob" => b.blob(&m.id),
                "Boolean" => b.boolean(&m.id),
                "Document" => b.document(&m.id),
                "String" => b.string(&m.id),
                "Byte" => b.byte(&m.id),
                "Short" => b.short(&m.id),
                "Integer" => b.integer(&m.id),
                "Long" => b.long(&m.id),
                "Float" => b.float(&m.id),
                "Double" => b.double(&m.id),
                "BigInteger" => b.big_integer(&m.id),
                "BigDecimal" => b.big_decimal(&m.id),
                "Timestamp" => b.timestamp(&m.id),
                t => b.member(&m.id, t),
            };
        } else {
            b.add_member(member_builder(m));
        }
    }
    dress(&mut b, &d.traits, |b, t| match (name_of(&t.id), &t.value) {
        ("error", CVal::Str(s)) => {
            b.error_source(ErrorSource::from_str(s).expect("source"));
            true
        }
        ("sensitive", _) => {
            b.sensitive();
            true
        }
        _ => false,
    });
    b
}

fn strs(v: &[String]) -> Vec<&str> {
    v.iter().map(|s| s.as_str()).collect()
}

fn paged(v: &CVal) -> [Option<&str>; 4] {
    ["inputToken", "outputToken", "items", "pageSize"].map(|k| text_of(v, k))
}

fn define(b: &mut ModelBuilder, d: &Def) {
    match &d.body {
        CBody::Simple(kind) => {
            let mut s = match (kind.as_str(), d.how % 2) {
                ("blob", 0) => SimpleShapeBuilder::blob(&d.name),
                ("boolean", 0) => SimpleShapeBuilder::boolean(&d.name),
                ("document", 0) => SimpleShapeBuilder::document(&d.name),
                ("string", 0) => SimpleShapeBuilder::string(&d.name),
                ("byte", 0) => SimpleShapeBuilder::byte(&d.name),
                ("short", 0) => SimpleShapeBuilder::short(&d.name),
                ("integer", 0) => SimpleShapeBuilder::integer(&d.name),
                ("long", 0) => SimpleShapeBuilder::long(&d.name),
                ("float", 0) => SimpleShapeBuilder::float(&d.name),
                ("double", 0) => SimpleShapeBuilder::double(&d.name),
                ("bigInteger", 0) => SimpleShapeBuilder::big_integer(&d.name),
                ("bigDecimal", 0) => SimpleShapeBuilder::big_decimal(&d.name),
                ("timestamp", 0) => SimpleShapeBuilder::timestamp(&d.name),
                (k, _) => SimpleShapeBuilder::new(&d.name, Simple::from_str(k).expect("simple")),
            };
            dress(&mut s, &d.traits, |s, t| {
                match name_of(&t.id) {
                    "box" => s.boxed(),
                    "sensitive" => s.sensitive(),
                    "streaming" => s.streaming(),
                    _ => return false,
                };
                true
            });
            b.simple_shape(if d.how % 3 == 0 { (&mut s).into() } else { s });
        }
        CBody::List(_) | CBody::Set(_) => {
            let m = &d.members[0];
            let mut s = if d.how % 2 == 0 {
                ListBuilder::new(&d.name, &m.target)
            } else {
                ListBuilder::with_target(&d.name, member_builder(m).target().clone())
            };
            if !m.traits.is_empty() || d.how % 3 == 0 {
                s.target(member_builder(m));
            }
            dress(&mut s, &d.traits, |s, t| {
                match name_of(&t.id) {
                    "sensitive" => s.sensitive(),
                    "uniqueItems" => s.unique_items(),
                    _ => return false,
                };
                true
            });
            if let CBody::List(_) = d.body {
                b.list(s);
            } else {
                b.set(s);
            }
        }
        CBody::Map(..) => {
            let (k, v) = (&d.members[0], &d.members[1]);
            let mut s = MapBuilder::new(&d.name, &k.target, &v.target);
            if !k.traits.is_empty() || d.how % 2 == 0 {
                s.key(member_builder(k));
            }
            if !v.traits.is_empty() || d.how % 3 == 0 {
                s.value(member_builder(v));
            }
            dress(&mut s, &d.traits, |_, _| false);
            b.map(s);
        }
        CBody::Structure(_) => drop(b.structure(structure(d))),
        CBody::Union(_) => drop(b.union(structure(d))),
        CBody::Service { version, operations, resources, renames } => {
            let mut s = ServiceBuilder::new(&d.name, if d.how % 2 == 0 { version } else { "to be replaced" });
            if d.how % 2 == 1 {
                s.version(version);
            }
            if d.how % 3 == 0 {
                s.operations(&strs(operations)).resources(&strs(resources));
            } else {
                resources.iter().for_each(|r| drop(s.resource(r)));
                operations.iter().for_each(|o| drop(s.operation(o)));
            }
            renames.iter().for_each(|(k, v)| drop(s.rename(k, v)));
            dress(&mut s, &d.traits, |s, t| {
                match (name_of(&t.id), &t.value) {
                    ("sensitive", _) => s.sensitive(),
                    ("paginated", v) => {
                        let [a, b, c, d] = paged(v);
                        s.paginated(a, b, c, d)
                    }
                    ("title", CVal::Str(v)) => s.title(v),
                    _ => return false,
                };
                true
            });
            b.service(s);
        }
        CBody::Operation { input, output, errors } => {
            let mut s = OperationBuilder::new(&d.name);
            if let Some(i) = input {
                s.input(i);
            }
            if let Some(o) = output {
                s.output(o);
            }
            if d.how % 2 == 0 {
                s.errors(&strs(errors));
            } else {
                errors.iter().for_each(|e| drop(s.error(e)));
            }
            dress(&mut s, &d.traits, |s, t| {
                match (name_of(&t.id), &t.value) {
                    ("idempotent", _) => s.idempotent(),
                    ("readonly", _) => s.readonly(),
                    ("sensitive", _) => s.sensitive(),
                    ("paginated", v) => {
                        let [a, b, c, d] = paged(v);
                        s.paginated(a, b, c, d)
                    }
                    _ => return false,
                };
                true
            });
            b.operation(s);
        }
        CBody::Resource(r) => {
            let mut s = ResourceBuilder::new(&d.name);
            for (k, v) in &r.identifiers {
                s.identifier(k, v);
            }
            for (k, v) in &r.lifecycle {
                match k.as_str() {
                    "create" => s.create(v),
                    "put" => s.put(v),
                    "read" => s.read(v),
                    "update" => s.update(v),
                    "delete" => s.delete(v),
                    _ => s.list(v),
                };
            }
            if d.how % 2 == 0 {
                s.operations(&strs(&r.operations))
                    .collection_operations(&strs(&r.collection_operations))
                    .resources(&strs(&r.resources));
            } else {
                r.resources.iter().for_each(|x| drop(s.resource(x)));
                r.collection_operations.iter().for_each(|x| drop(s.collection_operation(x)));
                r.operations.iter().for_each(|x| drop(s.operation(x)));
            }
            dress(&mut s, &d.traits, |s, t| {
                match (name_of(&t.id), &t.value) {
                    ("sensitive", _) => s.sensitive(),
                    ("noReplace", _) => s.no_replace(),
                    ("title", CVal::Str(v)) => s.title(v),
                    _ => return false,
                };
                true
            });
            b.resource(s);
        }
        CBody::Unresolved => unreachable!("a use"),
    }
}

fn carry_out(steps: &[Step], ns: &str, last: u64) -> Result<CModel, String> {
    let mut b = ModelBuilder::new(Version::V10, ns);
    for s in steps {
        match s {
            Step::Def(d) => define(&mut b, d),
            Step::Use { id, traits } => {
                if traits.is_empty() {
                    b.uses(id);
                } else {
                    let mut r = ReferenceBuilder::new(id);
                    dress(&mut r, traits, |_, _| false);
                    b.reference(r);
                }
            }
            Step::Apply { to, a_trait } => drop(b.apply(to, trait_builder(a_trait))),
            Step::Meta { key, value, how } => drop(b.meta_data(key.clone(), a_value(value, *how))),
            Step::MetaAll(v) => drop(b.meta_data_from(v.iter().map(|(k, v)| (k.clone(), value(v))).collect())),
            Step::Convert(0) => drop(Model::try_from(&mut b)),
            Step::Convert(1) => drop(Model::try_from(b.clone())),
            Step::Convert(_) => b = b.clone(),
        }
    }
    let m = match last {
        0 => Model::try_from(b),
        1 => Model::try_from(&mut b),
        _ => {
            let _ = Model::try_from(&mut b);
            Model::try_from(&mut b)
        }
    };
    m.map(|m| canon(&m)).map_err(|e| e.to_string())
}

// ------------------------------------------------------------------------------------------------
// Model -> description
// ------------------------------------------------------------------------------------------------

/// The traits of the Smithy 1.0 prelude.
const PRELUDE_TRAIT_NAMES: [&str; 60] = [
    "xmlFlattened", "references", "streaming", "requiresLength", "uniqueItems", "examples", "timestampFormat",
    "httpError", "httpBasicAuth", "documentation", "httpQuery", "suppress", "since", "trait", "httpBearerAuth",
    "httpPayload", "httpApiKeyAuth", "cors", "idRef", "unstable", "hostLabel", "private", "title", "required",
    "recommended", "enum", "idempotencyToken", "tags", "optionalAuth", "xmlAttribute", "xmlName", "httpHeader",
    "authDefinition", "resourceIdentifier", "mediaType", "httpChecksumRequired", "idempotent", "endpoint",
    "eventHeader", "sensitive", "error", "protocolDefinition", "deprecated", "httpPrefixHeaders", "eventPayload",
    "noReplace", "http", "externalDocumentation", "jsonName", "auth", "retryable", "httpDigestAuth", "range", "box",
    "paginated", "pattern", "readonly", "httpLabel", "xmlNamespace", "length",
];

/// Whether these names of traits are in the prelude is not settled.
const UNSETTLED: [&str; 13] = [
    "StructurallyExclusive", "NonEmptyString", "HttpApiKeyLocations", "Example", "TraitShapeIdList",
    "EnumDefinition", "EnumConstantBodyName", "TraitShapeId", "Reference", "NonEmptyStringMap",
    "NonEmptyStringList", "AuthTraitReference", "internal",
];

fn shuffle<T>(c: &mut Choices, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let k = c.size(i + 1);
        v.swap(i, k);
    }
}

struct Speller<'a> {
    ns: &'a str,
    /// Names defined in the namespace of the builder.
    local: BTreeSet<String>,
    /// What is used.
    uses: BTreeSet<String>,
    /// How often a relative name is written where one is possible.
    relative_pm: u64,
    /// Relative names that stand for nothing that is defined.
    left_open: BTreeSet<String>,
    /// How each name is spelled, by its lower case: only one of two variants is left open.
    known: BTreeMap<String, String>,
    resolved: u64,
}

impl Speller<'_> {
    /// What a relative name stands for; nothing if that is ambiguous.
    fn resolve(&self, name: &str, is_trait: bool) -> Option<String> {
        let used: Vec<&String> = self.uses.iter().filter(|u| name_of(u) == name).collect();
        match used.len() {
            0 => {}
            1 => return Some(used[0].clone()),
            _ => return None,
        }
        let prelude = if is_trait { PRELUDE_TRAIT_NAMES.contains(&name) } else { PRELUDE_SHAPE_NAMES.contains(&name) };
        if self.local.contains(name) || !prelude {
            Some(format!("{}#{name}", self.ns))
        } else {
            Some(format!("smithy.api#{name}"))
        }
    }

    fn name(&mut self, c: &mut Choices, id: &str, is_trait: bool) -> String {
        let n = name_of(id);
        let open = is_trait && !self.local.contains(n) && UNSETTLED.contains(&n);
        if !id.contains('$')
            && !open
            && self.resolve(n, is_trait).as_deref() == Some(id)
            && c.chance(self.relative_pm)
        {
            let used = self.uses.iter().any(|u| name_of(u) == n);
            if !used && ns_of(id) == self.ns && !self.local.contains(n) {
                let known = self.known.entry(id.to_lowercase()).or_insert_with(|| id.to_string());
                if known != id {
                    return id.to_string();
                }
            }
            self.resolved += 1;
            if !used && ns_of(id) == self.ns && !self.local.contains(n) {
                self.left_open.insert(id.to_string());
            }
            n.to_string()
        } else {
            id.to_string()
        }
    }

    fn traits(&mut self, c: &mut Choices, t: &BTreeMap<String, CVal>, specials: &BTreeSet<String>) -> Vec<TSpec> {
        let mut v: Vec<TSpec> = t
            .iter()
            .map(|(id, v)| {
                if specials.contains(id) && c.below(4) > 0 {
                    TSpec { id: id.clone(), value: v.clone(), how: c.below(6), special: true }
                } else {
                    TSpec { id: self.name(c, id, true), value: v.clone(), how: c.below(6), special: false }
                }
            })
            .collect();
        shuffle(c, &mut v);
        v
    }
}

/// Prelude traits with functions of their own, and values they take.
fn add_specials(c: &mut Choices, mix: &Mix, t: &mut CTraits) -> BTreeSet<String> {
    let mut added = BTreeSet::new();
    while c.below(3) == 2 && t.len() < 12 {
        let words = |c: &mut Choices| CVal::Str(format!("x{}", gen::text(c, mix)));
        let empty = || CVal::Obj(BTreeMap::new());
        let some = |c: &mut Choices, keys: &[&str], f: &dyn Fn(&mut Choices) -> CVal| {
            let mut o = BTreeMap::new();
            for k in keys {
                if c.below(2) == 1 {
                    o.insert(k.to_string(), f(c));
                }
            }
            o
        };
        if c.below(4) == 3 {
            let id = format!("smithy.api#{}", c.pick(&PRELUDE_TRAIT_NAMES));
            if !t.keys().any(|k| k.eq_ignore_ascii_case(&id)) {
                t.insert(id, gen::val(c, mix, 1));
            }
            continue;
        }
        let n = *c.pick(&[
            "documentation", "required", "tags", "deprecated", "error", "externalDocumentation", "length", "range",
            "paginated", "pattern", "since", "title", "references", "sensitive", "box", "idempotent", "noReplace",
            "private", "readonly", "requiresLength", "streaming", "trait", "uniqueItems", "unstable",
        ]);
        let v = match n {
            "documentation" => CVal::Str(gen::text(c, mix)),
            "title" | "since" | "pattern" => words(c),
            "tags" => CVal::Arr((0..c.below(3)).map(|_| CVal::Str(gen::text(c, mix))).collect()),
            "deprecated" => CVal::Obj(some(c, &["message", "since"], &words)),
            "error" => CVal::Str(c.pick(&["client", "server"]).to_string()),
            "externalDocumentation" => CVal::Obj(some(c, &["Home", "Far Away", ""], &words)),
            "length" | "range" => {
                let mut o = some(c, &["min", "max"], &|c| CVal::Int(c.below(100) as i64));
                if o.is_empty() {
                    o.insert("min".into(), CVal::Int(0));
                }
                CVal::Obj(o)
            }
            "paginated" => CVal::Obj(some(c, &["inputToken", "outputToken", "items", "pageSize"], &words)),
            "references" => CVal::Arr((0..c.below(3)).map(|_| gen::val(c, mix, 1)).collect()),
            _ => empty(),
        };
        let id = format!("smithy.api#{n}");
        if t.keys().any(|k| k.eq_ignore_ascii_case(&id)) {
            continue;
        }
        t.insert(id.clone(), v);
        added.insert(id);
    }
    added
}

fn refs_in(b: &mut CBody, f: &mut dyn FnMut(&mut String)) {
    match b {
        CBody::Service { operations, resources, .. } => operations.iter_mut().chain(resources).for_each(f),
        CBody::Operation { input, output, errors } => input.iter_mut().chain(output).chain(errors).for_each(f),
        CBody::Resource(r) => r
            .identifiers
            .values_mut()
            .chain(r.lifecycle.values_mut())
            .chain(&mut r.operations)
            .chain(&mut r.collection_operations)
            .chain(&mut r.resources)
            .for_each(f),
        _ => {}
    }
}

struct Description {
    steps: Vec<Step>,
    want: CModel,
    resolved: u64,
}

fn describe(run: &mut Run, m: &CModel, mix: &Mix, ns: &str) -> Description {
    let c = &mut run.c;
    let mut want = crate::idl::settle(m);
    // placeholders without traits are uses of something that is defined nowhere
    let mut uses: BTreeSet<String> = m
        .shapes
        .iter()
        .filter(|(id, s)| s.body == CBody::Unresolved && s.traits.is_empty() && !id.contains('$'))
        .map(|(id, _)| id.clone())
        .collect();
    let mut specials: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (id, s) in want.shapes.iter_mut() {
        if id.contains('$') {
            continue;
        }
        specials.insert(id.clone(), add_specials(c, mix, &mut s.traits));
        for x in crate::idl::members_mut(&mut s.body) {
            let key = format!("{id}${}", x.id);
            let a = add_specials(c, mix, &mut x.traits);
            specials.insert(key, a);
        }
    }
    // names of the prelude, standing for something else
    if c.below(3) == 2 {
        let named = |c: &mut Choices, id: &mut String| {
            if c.below(5) == 4 {
                let n = if c.below(2) == 0 { *c.pick(&PRELUDE_TRAIT_NAMES) } else { *c.pick(PRELUDE_SHAPE_NAMES) };
                let new = format!("{ns}#{n}");
                if !m.shapes.keys().any(|k| k.eq_ignore_ascii_case(&new) && *k != new) {
                    *id = new;
                }
            }
        };
        for s in want.shapes.values_mut() {
            refs_in(&mut s.body, &mut |r| named(c, r));
            for x in crate::idl::members_mut(&mut s.body) {
                named(c, &mut x.target);
            }
        }
    }
    // which definitions have relative names, and what is used besides
    let defined: Vec<String> =
        want.shapes.iter().filter(|(_, s)| s.body != CBody::Unresolved).map(|(id, _)| id.clone()).collect();
    let in_ns: Vec<&String> = defined.iter().filter(|id| ns_of(id) == ns).collect();
    let local: BTreeSet<String> = in_ns.iter().map(|id| name_of(id).to_string()).collect();
    let mut others: BTreeSet<String> = BTreeSet::new();
    for (_, s) in &want.shapes {
        let mut b = s.body.clone();
        refs_in(&mut b, &mut |r| drop(others.insert(r.clone())));
        others.extend(members_of(&s.body).iter().map(|m| m.target.clone()));
        others.extend(s.traits.keys().cloned());
        others.extend(members_of(&s.body).iter().flat_map(|m| m.traits.keys().cloned()));
    }
    for id in others.iter().chain(&defined) {
        if !id.contains('$') && c.below(6) == 5 {
            uses.insert(id.clone());
        }
    }
    // a use of something else by the name of a definition would be a contradiction
    uses.retain(|u| ns_of(u) == ns || !local.iter().any(|l| l.eq_ignore_ascii_case(name_of(u))));
    // and of two variants of one name there is only one
    let mut seen: BTreeMap<String, String> = want.shapes.keys().map(|id| (id.to_lowercase(), id.clone())).collect();
    uses.retain(|u| seen.entry(u.to_lowercase()).or_insert_with(|| u.clone()) == u);
    for u in &uses {
        want.shapes
            .entry(u.clone())
            .or_insert_with(|| CShape { traits: CTraits::new(), body: CBody::Unresolved });
    }
    let mut sp = Speller {
        ns,
        local,
        uses,
        relative_pm: *c.pick(&[700u64, 0, 1000, 300]),
        left_open: BTreeSet::new(),
        known: seen,
        resolved: 0,
    };
    let mut steps: Vec<Step> = Vec::new();
    let shapes = want.shapes.clone();
    for (id, s) in &shapes {
        let none = BTreeSet::new();
        let sps = specials.get(id).unwrap_or(&none);
        // traits said here, and traits applied from elsewhere
        let mut apart: Vec<(String, CTraits, BTreeSet<String>)> = Vec::new();
        let mut split = |c: &mut Choices, at: String, t: &CTraits, sps: &BTreeSet<String>| -> CTraits {
            let mut here = CTraits::new();
            let mut there = CTraits::new();
            for (k, v) in t {
                if c.below(5) == 4 {
                    there.insert(k.clone(), v.clone());
                } else {
                    here.insert(k.clone(), v.clone());
                }
            }
            if !there.is_empty() {
                apart.push((at, there, sps.clone()));
            }
            here
        };
        if s.body == CBody::Unresolved {
            if !id.contains('$') && sp.uses.contains(id) {
                let here = split(c, id.clone(), &s.traits, sps);
                let traits = sp.traits(c, &here, sps);
                steps.push(Step::Use { id: id.clone(), traits });
            } else {
                apart.push((id.clone(), s.traits.clone(), sps.clone()));
            }
        } else {
            let here = split(c, id.clone(), &s.traits, sps);
            let traits = sp.traits(c, &here, sps);
            let members = members_of(&s.body)
                .into_iter()
                .map(|x| {
                    let key = format!("{id}${}", x.id);
                    let sps = specials.get(&key).unwrap_or(&none);
                    let here = split(c, key.clone(), &x.traits, sps);
                    MSpec {
                        id: x.id.clone(),
                        target: sp.name(c, &x.target, false),
                        how: c.below(6),
                        traits: sp.traits(c, &here, sps),
                    }
                })
                .collect();
            let mut body = s.body.clone();
            refs_in(&mut body, &mut |r| *r = sp.name(c, r, false));
            // the name of a definition in the namespace is in itself relative or absolute
            let name = if ns_of(id) == ns && c.below(4) > 0 { name_of(id).to_string() } else { id.clone() };
            steps.push(Step::Def(Def { name, body, members, traits, how: c.below(6) }));
            if sp.uses.contains(id) {
                steps.push(Step::Use { id: id.clone(), traits: vec![] });
            }
        }
        for (at, t, sps) in apart {
            let (shape, member) = match at.split_once('$') {
                Some((s, m)) => (s, Some(m)),
                None => (at.as_str(), None),
            };
            let spelled = {
                // not left open: the trait makes a placeholder of its own
                let open = sp.left_open.clone();
                let s = sp.name(c, shape, false);
                sp.left_open = open;
                s
            };
            for a_trait in sp.traits(c, &t, &sps) {
                let to = match member {
                    Some(m) => format!("{spelled}${m}"),
                    None => spelled.clone(),
                };
                steps.push(Step::Apply { to, a_trait });
            }
        }
    }
    if c.below(3) == 2 && !want.metadata.is_empty() {
        steps.push(Step::MetaAll(want.metadata.iter().map(|(k, v)| (k.clone(), v.clone())).collect()));
    } else {
        for (k, v) in &want.metadata {
            steps.push(Step::Meta { key: k.clone(), value: v.clone(), how: c.below(6) });
        }
    }
    for id in &sp.left_open {
        want.shapes
            .entry(id.clone())
            .or_insert_with(|| CShape { traits: CTraits::new(), body: CBody::Unresolved });
    }
    Description { steps, want, resolved: sp.resolved }
}

// ------------------------------------------------------------------------------------------------
// Contradictions
// ------------------------------------------------------------------------------------------------

/// Make the description contradict itself at one place; what it is.
fn contradict(c: &mut Choices, steps: &mut Vec<Step>, ns: &str) -> Option<&'static str> {
    let defs: Vec<usize> = (0..steps.len()).filter(|i| matches!(steps[*i], Step::Def(_))).collect();
    let uses: Vec<String> = steps
        .iter()
        .filter_map(|s| match s {
            Step::Use { id, .. } => Some(id.clone()),
            _ => None,
        })
        .collect();
    if defs.is_empty() {
        return None;
    }
    let at = *c.pick(&defs);
    let mut d = match &steps[at] {
        Step::Def(d) => d.clone(),
        _ => return None,
    };
    let absolute = |n: &str| if n.contains('#') { n.to_string() } else { format!("{ns}#{n}") };
    let other_value = |v: &CVal| match v {
        CVal::Int(1) => CVal::Int(2),
        _ => CVal::Int(1),
    };
    match c.below(7) {
        0 => {
            // another definition by the same name
            d.body = match d.body {
                CBody::Simple(ref s) if s == "string" => CBody::Simple("blob".into()),
                _ => CBody::Simple("string".into()),
            };
            d.members.clear();
            d.traits.clear();
            if c.below(2) == 1 {
                d.name = absolute(&d.name);
            }
            steps.push(Step::Def(d));
            Some("two definitions")
        }
        1 => {
            if !matches!(d.body, CBody::Structure(_) | CBody::Union(_)) || d.members.is_empty() {
                return None;
            }
            let mut m = c.pick(&d.members).clone();
            m.target = if m.target.ends_with("Blob") { "smithy.api#Timestamp".into() } else { "smithy.api#Blob".into() };
            if let Step::Def(d) = &mut steps[at] {
                let k = c.size(d.members.len() + 1);
                // the convenience methods resolve names where they are used
                m.how |= 1;
                d.members.insert(k, m);
            }
            Some("two members of one name")
        }
        2 => {
            let (id, v) = (c.pick(&["org.acme#twice", "smithy.api#title"]).to_string(), CVal::Int(1));
            let a = TSpec { id: id.clone(), value: v.clone(), how: c.below(6), special: false };
            let b = TSpec { id, value: other_value(&v), how: c.below(6), special: false };
            if d.traits.iter().any(|t| t.id.ends_with("title")) {
                return None;
            }
            let to_member = c.below(2) == 1 && !d.members.is_empty();
            let k = if to_member { c.size(d.members.len()) } else { 0 };
            let place = if to_member { format!("{}${}", d.name, d.members[k].id) } else { d.name.clone() };
            for t in [a, b] {
                if c.below(2) == 1 {
                    let i = c.size(steps.len() + 1);
                    steps.insert(i, Step::Apply { to: place.clone(), a_trait: t });
                } else if let Some(Step::Def(x)) = steps.iter_mut().find(|s| matches!(s, Step::Def(x) if x.name == d.name)) {
                    if to_member {
                        x.members[k].traits.push(t);
                    } else {
                        x.traits.push(t);
                    }
                }
            }
            Some("two values of one trait")
        }
        3 => {
            // a relative name that two uses fit
            let n = "Twin";
            steps.push(Step::Use { id: format!("twin.a#{n}"), traits: vec![] });
            steps.push(Step::Use { id: format!("twin.b#{n}"), traits: vec![] });
            steps.push(Step::Def(Def {
                name: format!("{ns}#Uses_a_twin"),
                body: CBody::Structure(BTreeMap::new()),
                members: vec![MSpec { id: "m".into(), target: n.into(), how: 0, traits: vec![] }],
                traits: vec![],
                how: 0,
            }));
            Some("an ambiguous name")
        }
        4 => {
            if d.name.contains('#') || uses.iter().any(|u| name_of(u) == d.name) {
                return None;
            }
            steps.push(Step::Use { id: format!("twin.a#{}", d.name), traits: vec![] });
            Some("a definition by the name of a use")
        }
        5 => {
            let t = "some.where#Shape$member".to_string();
            let mut done = false;
            if let Step::Def(d) = &mut steps[at] {
                if let Some(m) = d.members.first_mut() {
                    m.target = t.clone();
                    m.how = 0;
                    done = true;
                } else {
                    refs_in(&mut d.body, &mut |r| {
                        if !done {
                            *r = t.clone();
                            done = true;
                        }
                    });
                }
            }
            done.then_some("a reference to a member")
        }
        _ => {
            let id = absolute(&d.name);
            // a trait of a use and of the definition
            if d.traits.iter().any(|t| t.id.ends_with("title")) {
                return None;
            }
            let t = |v: i64, how| TSpec { id: "smithy.api#title".into(), value: CVal::Int(v), how, special: false };
            if let Step::Def(d) = &mut steps[at] {
                d.traits.push(t(1, 0));
            }
            let how = c.below(6);
            steps.push(Step::Use { id, traits: vec![t(2, how)] });
            Some("two values of one trait, one of them at a use")
        }
    }
}

// ------------------------------------------------------------------------------------------------
// The scenario
// ------------------------------------------------------------------------------------------------

/// The same contradictions, in a Smithy IDL document.
fn document(run: &mut Run, m: &CModel, ns: &str) -> Outcome {
    let m = crate::idl::without_list_member_traits(&crate::idl::part(&crate::idl::settle(m), ns));
    let c = &mut run.c;
    let mut name = "Contradicted".to_string();
    while m.shapes.keys().any(|id| name_of(id).to_lowercase().starts_with(&name.to_lowercase())) {
        name.push('_');
    }
    let defs: Vec<(&String, &CShape)> = m
        .shapes
        .iter()
        .filter(|(id, s)| s.body != CBody::Unresolved && ns_of(id) == ns && !id.contains('$'))
        .collect();
    let (a, b) = *c.pick(&[("\"a\"", "\"b\""), ("1", "2"), ("1", "[1]"), ("{}", "[]"), ("true", "\"true\""), ("{ a: 1 }", "{ a: 2 }")]);
    let which = c.below(8);
    let kind = *c.pick(&["structure", "union"]);
    let member = c.below(2) == 1;
    let victim = if defs.is_empty() { None } else { Some(*c.pick(&defs)) };
    let other_kind = if victim.map(|v| &v.1.body) == Some(&CBody::Simple("string".into())) { "blob" } else { "string" };
    // with the contradiction, and the same without
    let extra = |bad: bool| {
        let mut x = Extra::default();
        let b = if bad { b } else { a };
        let mut say = |s: String| x.statements.push(s);
        let of_victim = victim.map(|v| name_of(v.0).to_string());
        let what = match which {
            0 => {
                let v = CVal::Int(1);
                x.metadata = vec![("clash".into(), v.clone()), ("clash".into(), if bad { CVal::Str("1".into()) } else { v })];
                "metadata"
            }
            1 => {
                let name = of_victim.unwrap_or_else(|| {
                    say(format!("blob {name}"));
                    name.clone()
                });
                x.uses.push(format!("other.place#{name}{}", if bad { "" } else { "_other_" }));
                "a definition by the name of a use"
            }
            2 => {
                let name = of_victim.unwrap_or_else(|| {
                    say(format!("blob {name}"));
                    name.clone()
                });
                say(format!("{other_kind} {name}{}", if bad { "" } else { "_other_" }));
                "two definitions"
            }
            3 => {
                let third = if bad { "a" } else { "c" };
                say(format!("{kind} {name} {{ a: smithy.api#String, b: smithy.api#Blob, {third}: smithy.api#Blob }}"));
                "two members of one name"
            }
            4 => {
                say(format!("@org.acme#t({a}) @org.acme#t({b}) blob {name}"));
                "two values of one trait"
            }
            5 => {
                say(format!("{kind} {name} {{ @org.acme#t({a}) @org.acme#t({b}) m: {name} }}"));
                "two values of one trait of a member"
            }
            6 => {
                let at = if member { format!("{name}$m") } else { name.clone() };
                say(format!("{kind} {name} {{ m: {name} }}"));
                say(format!("apply {ns}#{at} @org.acme#t({a})"));
                say(format!("apply {at} @org.acme#t({b})"));
                "two values of one applied trait"
            }
            _ => {
                x.uses = vec![format!("twin.a#{name}"), format!("twin.{}#{name}", if bad { "b" } else { "a" })];
                say(format!("{kind} {name}2 {{ m: {name} }}"));
                "an ambiguous name"
            }
        };
        (what, x)
    };
    let style = Style { layout: c.below(3), ..Style::default() };
    run.nontrivial = true;
    for bad in [false, true] {
        let (what, x) = extra(bad);
        let text = crate::idl::text_with(&mut run.c, &m, ns, style, &x);
        run.mark(text.as_bytes());
        run.log(|| format!("{what}, contradicting: {bad}: {text}"));
        run.probe(&format!("in a document: {what}"));
        let seed = run.c.seed();
        let shown = text.clone();
        let read = move || {
            atelier_core::io::read_model_from_string(&mut atelier_smithy::SmithyReader::default(), text)
                .map(|m| canon(&m))
                .map_err(|e| e.to_string())
        };
        match run.pure_life(&format!("contradicting: {bad}"), seed, read).ok("reading")? {
            Ok(got) if bad => {
                return violation(
                    format!("a contradiction in a document is accepted: {what}"),
                    format!("the model is {}", to_json(&got)),
                )
            }
            Err(e) if !bad => return violation("a sound document is refused", format!("{e}: {shown}")),
            _ => {}
        }
    }
    Ok(())
}

fn run23(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.max_shapes = mix.max_shapes.min(20);
    mix.long_strings = false;
    mix.repeats = run.c.below(4) == 3;
    let written = run.c.below(6) == 5;
    if written {
        mix.mild = true;
        mix.wild_keys = false;
    }
    let m = gen::model(&mut run.c, &mix);
    let ids: Vec<&String> = m.shapes.keys().collect();
    let ns = if run.c.below(6) == 5 { "some.where.else".to_string() } else { ns_of(run.c.pick(&ids)).to_string() };
    if written {
        return document(run, &m, &ns);
    }
    let Description { mut steps, want, resolved } = describe(run, &m, &mix, &ns);
    run.log(|| format!("default namespace {ns}; model {}", to_json(&want)));
    run.nontrivial = resolved > 0 || steps.iter().any(|s| matches!(s, Step::Use { .. } | Step::Apply { .. }));
    let wrong = if run.c.below(3) == 2 { contradict(&mut run.c, &mut steps, &ns) } else { None };
    for s in &steps {
        run.probe(match s {
            Step::Def(_) => "a definition",
            Step::Use { .. } => "a use",
            Step::Apply { to, .. } if to.contains('$') => "a trait applied to a member",
            Step::Apply { .. } => "a trait applied to a shape",
            _ => "metadata",
        });
    }
    if resolved > 0 {
        run.probe("a relative name");
    }
    if let Some(w) = wrong {
        run.probe(w);
    }
    for life in 0..2 {
        shuffle(&mut run.c, &mut steps);
        let mut now = steps.clone();
        if run.c.below(3) == 2 {
            for _ in 0..run.c.range(1, 2) {
                let at = run.c.size(now.len() + 1);
                let how = run.c.below(3);
                now.insert(at, Step::Convert(how));
            }
            run.probe("converted in between");
        }
        let last = run.c.below(3);
        let seed = run.c.seed();
        run.mark(format!("{now:?}").as_bytes());
        if run.tracing() {
            for s in &now {
                run.log(|| format!("life {life}: {s:?}"));
            }
        }
        let ns = ns.clone();
        let got = run.pure_life(&format!("life {life}"), seed, move || carry_out(&now, &ns, last)).ok("building")?;
        match (wrong, got) {
            (None, Ok(got)) => {
                if let Some((what, detail)) = diff(&want, &got) {
                    return violation(format!("built model: {what}"), detail);
                }
            }
            (None, Err(e)) => return violation("a sound description is refused", e),
            (Some(_), Err(_)) => {}
            (Some(w), Ok(got)) => {
                return violation(format!("a contradiction is accepted: {w}"), format!("the model is {}", to_json(&got)))
            }
        }
    }
    Ok(())
}
