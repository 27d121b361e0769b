//! The executable reference of the Smithy merge rules, over reference data.

use crate::canon::*;
use crate::idl::members_mut;
use crate::mutate::{norm_shape, norm_val};
use std::collections::BTreeMap;

/// Everything that identifies something, in lower case: two models are the same up to the letter
/// case of identities if these are equal.
pub fn fold(m: &CModel) -> CModel {
    CModel {
        metadata: m.metadata.clone(),
        shapes: m.shapes.iter().map(|(k, s)| (low(k), fold_shape(s))).collect(),
    }
}

pub fn low(s: &str) -> String {
    s.to_lowercase()
}

fn lows(v: &[String]) -> Vec<String> {
    v.iter().map(|s| low(s)).collect()
}

pub fn fold_traits(t: &CTraits) -> CTraits {
    t.iter().map(|(k, v)| (low(k), v.clone())).collect()
}

fn fold_member(m: &CMember) -> CMember {
    CMember {
        id: low(&m.id),
        target: low(&m.target),
        traits: fold_traits(&m.traits),
    }
}

fn fold_members(m: &BTreeMap<String, CMember>) -> BTreeMap<String, CMember> {
    m.iter().map(|(k, m)| (low(k), fold_member(m))).collect()
}

pub fn fold_body(b: &CBody) -> CBody {
    match b {
        CBody::Simple(s) => CBody::Simple(s.clone()),
        CBody::List(m) => CBody::List(fold_member(m)),
        CBody::Set(m) => CBody::Set(fold_member(m)),
        CBody::Map(k, v) => CBody::Map(fold_member(k), fold_member(v)),
        CBody::Structure(m) => CBody::Structure(fold_members(m)),
        CBody::Union(m) => CBody::Union(fold_members(m)),
        CBody::Service { version, operations, resources, renames } => CBody::Service {
            version: version.clone(),
            operations: lows(operations),
            resources: lows(resources),
            renames: renames.iter().map(|(k, v)| (low(k), low(v))).collect(),
        },
        CBody::Operation { input, output, errors } => CBody::Operation {
            input: input.as_deref().map(low),
            output: output.as_deref().map(low),
            errors: lows(errors),
        },
        CBody::Resource(r) => CBody::Resource(CResource {
            identifiers: r.identifiers.iter().map(|(k, v)| (low(k), low(v))).collect(),
            lifecycle: r.lifecycle.iter().map(|(k, v)| (k.clone(), low(v))).collect(),
            operations: lows(&r.operations),
            collection_operations: lows(&r.collection_operations),
            resources: lows(&r.resources),
        }),
        CBody::Unresolved => CBody::Unresolved,
    }
}

pub fn fold_shape(s: &CShape) -> CShape {
    CShape {
        traits: fold_traits(&s.traits),
        body: fold_body(&s.body),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Refusal {
    Metadata,
    Shape,
    Trait,
    MemberId,
    /// The rules leave it open.
    Open,
}

fn bare(b: &CBody) -> CBody {
    let mut b = b.clone();
    for m in members_mut(&mut b) {
        m.traits.clear();
    }
    b
}

/// Equal up to what the Smithy semantic model leaves open (the order of a list of references, the
/// representation of a number).
fn nearly(a: &CBody, b: &CBody) -> bool {
    let n = |b: &CBody| {
        let mut s = CShape {
            traits: CTraits::new(),
            body: bare(b),
        };
        norm_shape(&mut s);
        for l in crate::mutate::lists_mut(&mut s.body) {
            l.dedup();
        }
        s
    };
    n(a) == n(b)
}

pub fn add_metadata(m: &mut CModel, k: &str, v: &CVal) -> Result<(), Refusal> {
    match m.metadata.get_mut(k) {
        None => {
            m.metadata.insert(k.to_string(), v.clone());
        }
        Some(CVal::Arr(a)) if matches!(v, CVal::Arr(_)) => {
            if let CVal::Arr(b) = v {
                a.extend(b.iter().cloned());
            }
        }
        Some(old) if old == v => {}
        Some(old) if norm_val(old) == norm_val(v) => return Err(Refusal::Open),
        Some(_) => return Err(Refusal::Metadata),
    }
    Ok(())
}

pub fn apply(t: &mut CTraits, id: &str, v: &CVal) -> Result<(), Refusal> {
    match t.get_mut(id) {
        None => {
            t.insert(id.to_string(), v.clone());
        }
        Some(CVal::Arr(a)) if matches!(v, CVal::Arr(_)) => {
            if let CVal::Arr(b) = v {
                a.extend(b.iter().cloned());
            }
        }
        Some(old) if old == v => {}
        Some(old) if norm_val(old) == norm_val(v) => return Err(Refusal::Open),
        Some(_) => return Err(Refusal::Trait),
    }
    Ok(())
}

pub fn add_shape(m: &mut CModel, id: &str, s: &CShape) -> Result<(), Refusal> {
    let unresolved = matches!(s.body, CBody::Unresolved);
    if id.contains('$') && !unresolved {
        return Err(Refusal::MemberId);
    }
    let Some(old) = m.shapes.get_mut(id) else {
        m.shapes.insert(id.to_string(), s.clone());
        return Ok(());
    };
    let mut new = old.clone();
    if matches!(old.body, CBody::Unresolved) {
        new.body = s.body.clone();
    } else if !unresolved {
        if bare(&old.body) != bare(&s.body) {
            return Err(if nearly(&old.body, &s.body) {
                Refusal::Open
            } else {
                Refusal::Shape
            });
        }
        let mut theirs = s.body.clone();
        for (mine, theirs) in members_mut(&mut new.body).into_iter().zip(members_mut(&mut theirs)) {
            for (k, v) in &theirs.traits {
                apply(&mut mine.traits, k, v)?;
            }
        }
    }
    for (k, v) in &s.traits {
        apply(&mut new.traits, k, v)?;
    }
    *old = new;
    Ok(())
}

/// Open only if nothing is plainly refused.
pub fn merge(m: &mut CModel, other: &CModel) -> Result<(), Refusal> {
    let mut new = m.clone();
    let mut refused: Vec<Refusal> = Vec::new();
    for (k, v) in &other.metadata {
        refused.extend(add_metadata(&mut new, k, v).err());
    }
    for (id, s) in &other.shapes {
        refused.extend(add_shape(&mut new, id, s).err());
    }
    match refused.iter().find(|r| **r != Refusal::Open).or(refused.first()) {
        Some(r) => Err(*r),
        None => {
            *m = new;
            Ok(())
        }
    }
}
