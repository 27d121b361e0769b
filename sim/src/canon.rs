//! The reference representation of a Smithy model: plain ordered data, independent of the code
//! under test, with conversions to and from the library's `Model` and reference JSON AST and IDL
//! texts.  An annotation trait without a value and one with the empty object are the same thing
//! here (both serialisations spell them the same way).

use atelier_core::model::shapes::{
    AppliedTraits, HasTraits, ListOrSet, Map, MemberShape, Operation, Resource, Service, ShapeKind,
    Simple, StructureOrUnion, TopLevelShape,
};
use atelier_core::model::values::{Number, Value};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::Version;
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq)]
pub enum CVal {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<CVal>),
    Obj(BTreeMap<String, CVal>),
}

pub type CTraits = BTreeMap<String, CVal>;

#[derive(Clone, Debug, PartialEq)]
pub struct CMember {
    pub id: String,
    pub target: String,
    pub traits: CTraits,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CResource {
    pub identifiers: BTreeMap<String, String>,
    /// create, put, read, update, delete, list
    pub lifecycle: BTreeMap<String, String>,
    pub operations: Vec<String>,
    pub collection_operations: Vec<String>,
    pub resources: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum CBody {
    Simple(String),
    List(CMember),
    Set(CMember),
    Map(CMember, CMember),
    Structure(BTreeMap<String, CMember>),
    Union(BTreeMap<String, CMember>),
    Service {
        version: String,
        operations: Vec<String>,
        resources: Vec<String>,
        renames: BTreeMap<String, String>,
    },
    Operation {
        input: Option<String>,
        output: Option<String>,
        errors: Vec<String>,
    },
    Resource(CResource),
    Unresolved,
}

#[derive(Clone, Debug, PartialEq)]
pub struct CShape {
    pub traits: CTraits,
    pub body: CBody,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct CModel {
    pub metadata: BTreeMap<String, CVal>,
    pub shapes: BTreeMap<String, CShape>,
}

pub const SIMPLE: [&str; 13] = [
    "string",
    "blob",
    "boolean",
    "document",
    "byte",
    "short",
    "integer",
    "long",
    "float",
    "double",
    "bigInteger",
    "bigDecimal",
    "timestamp",
];

// ------------------------------------------------------------------------------------------------
// Model -> CModel
// ------------------------------------------------------------------------------------------------

pub fn cval(v: &Value) -> CVal {
    match v {
        Value::None => CVal::Null,
        Value::Boolean(b) => CVal::Bool(*b),
        Value::Number(Number::Integer(i)) => CVal::Int(*i),
        Value::Number(Number::Float(f)) => CVal::Float(*f),
        Value::String(s) => CVal::Str(s.clone()),
        Value::Array(a) => CVal::Arr(a.iter().map(cval).collect()),
        Value::Object(o) => CVal::Obj(o.iter().map(|(k, v)| (k.clone(), cval(v))).collect()),
    }
}

pub fn ctraits(t: &AppliedTraits) -> CTraits {
    t.iter()
        .map(|(k, v)| {
            (
                k.to_string(),
                match v {
                    None => CVal::Obj(BTreeMap::new()),
                    Some(v) => cval(v),
                },
            )
        })
        .collect()
}

fn cmember(m: &MemberShape) -> CMember {
    CMember {
        id: m.id().to_string(),
        target: m.target().to_string(),
        traits: ctraits(m.traits()),
    }
}

fn ids<'a>(i: impl Iterator<Item = &'a ShapeID>) -> Vec<String> {
    i.map(|s| s.to_string()).collect()
}

pub fn cbody(k: &ShapeKind) -> CBody {
    match k {
        ShapeKind::Simple(s) => CBody::Simple(s.to_string()),
        ShapeKind::List(l) => CBody::List(cmember(l.member())),
        ShapeKind::Set(l) => CBody::Set(cmember(l.member())),
        ShapeKind::Map(m) => CBody::Map(cmember(m.key()), cmember(m.value())),
        ShapeKind::Structure(s) => CBody::Structure(
            s.members()
                .map(|m| (m.id().to_string(), cmember(m)))
                .collect(),
        ),
        ShapeKind::Union(s) => CBody::Union(
            s.members()
                .map(|m| (m.id().to_string(), cmember(m)))
                .collect(),
        ),
        ShapeKind::Service(s) => CBody::Service {
            version: s.version().clone(),
            operations: ids(s.operations()),
            resources: ids(s.resources()),
            renames: s
                .renames()
                .map(|(k, v)| (k.to_string(), v.to_string()))
                .collect(),
        },
        ShapeKind::Operation(o) => CBody::Operation {
            input: o.input().as_ref().map(|i| i.to_string()),
            output: o.output().as_ref().map(|i| i.to_string()),
            errors: ids(o.errors()),
        },
        ShapeKind::Resource(r) => {
            let mut lifecycle = BTreeMap::new();
            for (n, v) in [
                ("create", r.create()),
                ("put", r.put()),
                ("read", r.read()),
                ("update", r.update()),
                ("delete", r.delete()),
                ("list", r.list()),
            ] {
                if let Some(v) = v {
                    lifecycle.insert(n.to_string(), v.to_string());
                }
            }
            CBody::Resource(CResource {
                identifiers: r
                    .identifiers()
                    .map(|(k, v)| (k.to_string(), v.to_string()))
                    .collect(),
                lifecycle,
                operations: ids(r.operations()),
                collection_operations: ids(r.collection_operations()),
                resources: ids(r.resources()),
            })
        }
        ShapeKind::Unresolved => CBody::Unresolved,
    }
}

pub fn canon(m: &Model) -> CModel {
    CModel {
        metadata: m.metadata().map(|(k, v)| (k.clone(), cval(v))).collect(),
        shapes: m
            .shapes()
            .map(|s| {
                (
                    s.id().to_string(),
                    CShape {
                        traits: ctraits(s.traits()),
                        body: cbody(s.body()),
                    },
                )
            })
            .collect(),
    }
}

// ------------------------------------------------------------------------------------------------
// CModel -> Model
// ------------------------------------------------------------------------------------------------

pub fn value(v: &CVal) -> Value {
    match v {
        CVal::Null => Value::None,
        CVal::Bool(b) => Value::Boolean(*b),
        CVal::Int(i) => Value::Number(Number::Integer(*i)),
        CVal::Float(f) => Value::Number(Number::Float(*f)),
        CVal::Str(s) => Value::String(s.clone()),
        CVal::Arr(a) => Value::Array(a.iter().map(value).collect()),
        CVal::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), value(v))).collect()),
    }
}

pub fn sid(s: &str) -> ShapeID {
    ShapeID::from_str(s).unwrap_or_else(|_| panic!("generator: bad shape id {s}"))
}
pub fn ident(s: &str) -> Identifier {
    Identifier::from_str(s).unwrap_or_else(|_| panic!("generator: bad identifier {s}"))
}
pub fn nsid(s: &str) -> NamespaceID {
    NamespaceID::from_str(s).unwrap_or_else(|_| panic!("generator: bad namespace {s}"))
}

thread_local! {
    static EXPLICIT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// From here on, in this incarnation, annotation traits are built the way both readers build them:
/// with the empty object as their value.
pub fn as_read() {
    EXPLICIT.with(|e| e.set(true));
}

pub fn traits_of(t: &CTraits) -> AppliedTraits {
    t.iter()
        .map(|(k, v)| {
            (
                sid(k),
                match v {
                    CVal::Obj(o) if o.is_empty() && !EXPLICIT.with(|e| e.get()) => None,
                    v => Some(value(v)),
                },
            )
        })
        .collect()
}

pub fn member_of(m: &CMember) -> MemberShape {
    MemberShape::with_traits(ident(&m.id), sid(&m.target), traits_of(&m.traits))
}

fn members(m: &BTreeMap<String, CMember>) -> StructureOrUnion {
    let v: Vec<MemberShape> = m.values().map(member_of).collect();
    StructureOrUnion::with_members(&v)
}

pub fn body_of(b: &CBody) -> ShapeKind {
    match b {
        CBody::Simple(s) => ShapeKind::Simple(Simple::from_str(s).expect("simple")),
        CBody::List(m) => ShapeKind::List(ListOrSet::from(member_of(m))),
        CBody::Set(m) => ShapeKind::Set(ListOrSet::from(member_of(m))),
        CBody::Map(k, v) => ShapeKind::Map(Map::from(member_of(k), member_of(v))),
        CBody::Structure(m) => ShapeKind::Structure(members(m)),
        CBody::Union(m) => ShapeKind::Union(members(m)),
        CBody::Service {
            version,
            operations,
            resources,
            renames,
        } => {
            let mut s = Service::new(version);
            for o in operations {
                s.add_operation(sid(o));
            }
            for o in resources {
                s.add_resource(sid(o));
            }
            let h: HashMap<ShapeID, Identifier> =
                renames.iter().map(|(k, v)| (sid(k), ident(v))).collect();
            s.set_renames(h);
            ShapeKind::Service(s)
        }
        CBody::Operation {
            input,
            output,
            errors,
        } => {
            let mut o = Operation::default();
            if let Some(i) = input {
                o.set_input(sid(i));
            }
            if let Some(i) = output {
                o.set_output(sid(i));
            }
            for e in errors {
                o.add_error(sid(e));
            }
            ShapeKind::Operation(o)
        }
        CBody::Resource(c) => {
            let mut r = Resource::default();
            for (k, v) in &c.identifiers {
                let _ = r.add_identifier(ident(k), sid(v));
            }
            for (k, v) in &c.lifecycle {
                let v = sid(v);
                match k.as_str() {
                    "create" => r.set_create(v),
                    "put" => r.set_put(v),
                    "read" => r.set_read(v),
                    "update" => r.set_update(v),
                    "delete" => r.set_delete(v),
                    _ => r.set_list(v),
                }
            }
            for o in &c.operations {
                r.add_operation(sid(o));
            }
            for o in &c.collection_operations {
                r.add_collection_operation(sid(o));
            }
            for o in &c.resources {
                r.add_resource(sid(o));
            }
            ShapeKind::Resource(r)
        }
        CBody::Unresolved => ShapeKind::Unresolved,
    }
}

pub fn shape_of(id: &str, s: &CShape) -> TopLevelShape {
    TopLevelShape::with_traits(sid(id), body_of(&s.body), traits_of(&s.traits))
}

/// Built through the public model API only.
pub fn build(c: &CModel) -> Model {
    let mut m = Model::new(Version::V10);
    for (k, v) in &c.metadata {
        m.add_metadata(k.clone(), value(v))
            .expect("generator: metadata conflict");
    }
    for (id, s) in &c.shapes {
        m.add_shape(shape_of(id, s))
            .expect("generator: shape conflict");
    }
    m
}

// ------------------------------------------------------------------------------------------------
// JSON AST, written and parsed by the simulator itself
// ------------------------------------------------------------------------------------------------

use serde_json::{json, Map as JMap, Value as J};

pub fn jval(v: &CVal) -> J {
    match v {
        CVal::Null => J::Null,
        CVal::Bool(b) => J::Bool(*b),
        CVal::Int(i) => json!(*i),
        CVal::Float(f) => json!(*f),
        CVal::Str(s) => J::String(s.clone()),
        CVal::Arr(a) => J::Array(a.iter().map(jval).collect()),
        CVal::Obj(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), jval(v))).collect()),
    }
}
fn jtraits(t: &CTraits, into: &mut JMap<String, J>) {
    if !t.is_empty() {
        into.insert(
            "traits".into(),
            J::Object(t.iter().map(|(k, v)| (k.clone(), jval(v))).collect()),
        );
    }
}
fn jref(s: &str) -> J {
    json!({ "target": s })
}
fn jrefs(v: &[String]) -> J {
    J::Array(v.iter().map(|s| jref(s)).collect())
}
fn jmember(m: &CMember) -> J {
    let mut o = JMap::new();
    o.insert("target".into(), J::String(m.target.clone()));
    jtraits(&m.traits, &mut o);
    J::Object(o)
}
fn jshape(s: &CShape) -> J {
    let mut o = JMap::new();
    jtraits(&s.traits, &mut o);
    let ty = |o: &mut JMap<String, J>, t: &str| {
        o.insert("type".into(), J::String(t.to_string()));
    };
    match &s.body {
        CBody::Simple(t) => ty(&mut o, t),
        CBody::List(m) => {
            ty(&mut o, "list");
            o.insert("member".into(), jmember(m));
        }
        CBody::Set(m) => {
            ty(&mut o, "set");
            o.insert("member".into(), jmember(m));
        }
        CBody::Map(k, v) => {
            ty(&mut o, "map");
            o.insert("key".into(), jmember(k));
            o.insert("value".into(), jmember(v));
        }
        CBody::Structure(m) | CBody::Union(m) => {
            ty(
                &mut o,
                if matches!(s.body, CBody::Union(_)) {
                    "union"
                } else {
                    "structure"
                },
            );
            if !m.is_empty() {
                o.insert(
                    "members".into(),
                    J::Object(m.iter().map(|(k, v)| (k.clone(), jmember(v))).collect()),
                );
            }
        }
        CBody::Service {
            version,
            operations,
            resources,
            renames,
        } => {
            ty(&mut o, "service");
            o.insert("version".into(), J::String(version.clone()));
            if !operations.is_empty() {
                o.insert("operations".into(), jrefs(operations));
            }
            if !resources.is_empty() {
                o.insert("resources".into(), jrefs(resources));
            }
            if !renames.is_empty() {
                o.insert("rename".into(), json!(renames));
            }
        }
        CBody::Operation {
            input,
            output,
            errors,
        } => {
            ty(&mut o, "operation");
            if let Some(i) = input {
                o.insert("input".into(), jref(i));
            }
            if let Some(i) = output {
                o.insert("output".into(), jref(i));
            }
            if !errors.is_empty() {
                o.insert("errors".into(), jrefs(errors));
            }
        }
        CBody::Resource(r) => {
            ty(&mut o, "resource");
            if !r.identifiers.is_empty() {
                o.insert(
                    "identifiers".into(),
                    J::Object(
                        r.identifiers
                            .iter()
                            .map(|(k, v)| (k.clone(), jref(v)))
                            .collect(),
                    ),
                );
            }
            for (k, v) in &r.lifecycle {
                o.insert(k.clone(), jref(v));
            }
            if !r.operations.is_empty() {
                o.insert("operations".into(), jrefs(&r.operations));
            }
            if !r.collection_operations.is_empty() {
                o.insert(
                    "collectionOperations".into(),
                    jrefs(&r.collection_operations),
                );
            }
            if !r.resources.is_empty() {
                o.insert("resources".into(), jrefs(&r.resources));
            }
        }
        CBody::Unresolved => ty(&mut o, "apply"),
    }
    J::Object(o)
}

pub fn to_json(c: &CModel) -> J {
    let mut o = JMap::new();
    o.insert("smithy".into(), json!("1.0"));
    if !c.metadata.is_empty() {
        o.insert(
            "metadata".into(),
            J::Object(c.metadata.iter().map(|(k, v)| (k.clone(), jval(v))).collect()),
        );
    }
    o.insert(
        "shapes".into(),
        J::Object(
            c.shapes
                .iter()
                .map(|(k, v)| (k.clone(), jshape(v)))
                .collect(),
        ),
    );
    J::Object(o)
}

pub fn from_jval(j: &J) -> CVal {
    match j {
        J::Null => CVal::Null,
        J::Bool(b) => CVal::Bool(*b),
        J::Number(n) => match n.as_i64() {
            Some(i) => CVal::Int(i),
            None => CVal::Float(n.as_f64().unwrap_or(f64::NAN)),
        },
        J::String(s) => CVal::Str(s.clone()),
        J::Array(a) => CVal::Arr(a.iter().map(from_jval).collect()),
        J::Object(o) => CVal::Obj(o.iter().map(|(k, v)| (k.clone(), from_jval(v))).collect()),
    }
}

// ------------------------------------------------------------------------------------------------
// Differences, in words
// ------------------------------------------------------------------------------------------------

/// First difference between two models, as (kind, detail): the kind is stable under shrinking.
pub fn diff(want: &CModel, got: &CModel) -> Option<(String, String)> {
    for (k, v) in &want.metadata {
        match got.metadata.get(k) {
            None => return Some(("metadata-missing".into(), format!("metadata {k:?} is missing"))),
            Some(g) if g != v => {
                return Some((
                    "metadata-differs".into(),
                    format!("metadata {k:?}: expected {v:?}, got {g:?}"),
                ))
            }
            _ => {}
        }
    }
    for k in got.metadata.keys() {
        if !want.metadata.contains_key(k) {
            return Some(("metadata-extra".into(), format!("unexpected metadata {k:?}")));
        }
    }
    for (k, v) in &want.shapes {
        match got.shapes.get(k) {
            None => return Some(("shape-missing".into(), format!("shape {k} is missing"))),
            Some(g) if g != v => {
                let kind = if g.traits != v.traits {
                    "traits-differ"
                } else {
                    "shape-differs"
                };
                return Some((
                    kind.into(),
                    format!("shape {k}: expected {v:?}, got {g:?}"),
                ));
            }
            _ => {}
        }
    }
    for k in got.shapes.keys() {
        if !want.shapes.contains_key(k) {
            return Some((
                "shape-extra".into(),
                format!("unexpected shape {k}: {:?}", got.shapes[k]),
            ));
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------
// A reader of the JSON AST of the simulator's own
// ------------------------------------------------------------------------------------------------

fn jr_traits(o: &JMap<String, J>) -> Result<CTraits, String> {
    match o.get("traits") {
        None => Ok(CTraits::new()),
        Some(J::Object(t)) => Ok(t.iter().map(|(k, v)| (k.clone(), from_jval(v))).collect()),
        Some(v) => Err(format!("traits is {v}")),
    }
}
fn jr_target(v: &J) -> Result<String, String> {
    v.get("target")
        .and_then(|t| t.as_str())
        .map(|s| s.to_string())
        .ok_or_else(|| format!("no target in {v}"))
}
fn jr_member(id: &str, v: Option<&J>) -> Result<CMember, String> {
    let v = v.ok_or_else(|| format!("no {id}"))?;
    Ok(CMember {
        id: id.to_string(),
        target: jr_target(v)?,
        traits: jr_traits(v.as_object().ok_or("member is not an object")?)?,
    })
}
fn jr_refs(o: &JMap<String, J>, k: &str) -> Result<Vec<String>, String> {
    match o.get(k) {
        None => Ok(vec![]),
        Some(J::Array(a)) => a.iter().map(jr_target).collect(),
        Some(v) => Err(format!("{k} is {v}")),
    }
}
fn jr_opt(o: &JMap<String, J>, k: &str) -> Result<Option<String>, String> {
    o.get(k).map(jr_target).transpose()
}

pub fn from_json(j: &J) -> Result<CModel, String> {
    let top = j.as_object().ok_or("not an object")?;
    if top.get("smithy").and_then(|v| v.as_str()) != Some("1.0") {
        return Err(format!("smithy version is {:?}", top.get("smithy")));
    }
    let mut out = CModel::default();
    if let Some(m) = top.get("metadata") {
        for (k, v) in m.as_object().ok_or("metadata is not an object")? {
            out.metadata.insert(k.clone(), from_jval(v));
        }
    }
    let empty = JMap::new();
    let shapes = match top.get("shapes") {
        None => &empty,
        Some(s) => s.as_object().ok_or("shapes is not an object")?,
    };
    for (id, s) in shapes {
        let o = s.as_object().ok_or("shape is not an object")?;
        let ty = o
            .get("type")
            .and_then(|t| t.as_str())
            .ok_or_else(|| format!("{id} has no type"))?;
        let members = || -> Result<BTreeMap<String, CMember>, String> {
            let mut m = BTreeMap::new();
            if let Some(v) = o.get("members") {
                for (k, v) in v.as_object().ok_or("members is not an object")? {
                    m.insert(k.clone(), jr_member(k, Some(v))?);
                }
            }
            Ok(m)
        };
        let body = match ty {
            "list" => CBody::List(jr_member("member", o.get("member"))?),
            "set" => CBody::Set(jr_member("member", o.get("member"))?),
            "map" => CBody::Map(jr_member("key", o.get("key"))?, jr_member("value", o.get("value"))?),
            "structure" => CBody::Structure(members()?),
            "union" => CBody::Union(members()?),
            "service" => CBody::Service {
                version: o
                    .get("version")
                    .and_then(|v| v.as_str())
                    .ok_or("service has no version")?
                    .to_string(),
                operations: jr_refs(o, "operations")?,
                resources: jr_refs(o, "resources")?,
                renames: match o.get("rename") {
                    None => BTreeMap::new(),
                    Some(v) => v
                        .as_object()
                        .ok_or("rename is not an object")?
                        .iter()
                        .map(|(k, v)| (k.clone(), v.as_str().unwrap_or("?").to_string()))
                        .collect(),
                },
            },
            "operation" => CBody::Operation {
                input: jr_opt(o, "input")?,
                output: jr_opt(o, "output")?,
                errors: jr_refs(o, "errors")?,
            },
            "resource" => {
                let mut r = CResource::default();
                if let Some(v) = o.get("identifiers") {
                    for (k, v) in v.as_object().ok_or("identifiers is not an object")? {
                        r.identifiers.insert(k.clone(), jr_target(v)?);
                    }
                }
                for l in ["create", "put", "read", "update", "delete", "list"] {
                    if let Some(t) = jr_opt(o, l)? {
                        r.lifecycle.insert(l.to_string(), t);
                    }
                }
                r.operations = jr_refs(o, "operations")?;
                r.collection_operations = jr_refs(o, "collectionOperations")?;
                r.resources = jr_refs(o, "resources")?;
                CBody::Resource(r)
            }
            "apply" => CBody::Unresolved,
            t if SIMPLE.contains(&t) => CBody::Simple(t.to_string()),
            t => return Err(format!("{id} has type {t}")),
        };
        out.shapes.insert(
            id.clone(),
            CShape {
                traits: jr_traits(o)?,
                body,
            },
        );
    }
    Ok(out)
}

/// Traits and values are data; order of nothing but lists matters.
pub fn size_of(m: &CModel) -> usize {
    m.metadata.len() + m.shapes.len()
}
