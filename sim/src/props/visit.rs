//! P14: walking a model.

use super::*;
use crate::canon::*;
use crate::gen;
use crate::idl::members_of;
use crate::props::assemble::build_shuffled;
use crate::run::violation;
use atelier_core::model::shapes::{
    AppliedTraits, ListOrSet, Map, Operation, Resource, Service, ShapeKind, Simple, StructureOrUnion,
};
use atelier_core::model::values::Value;
use atelier_core::model::visitor::{walk_model, MemberVisitor, ModelVisitor};
use atelier_core::model::{Identifier, ShapeID};
use std::cell::RefCell;

pub static P14: Prop = Prop {
    id: "P14",
    title: "Walking a model visits everything exactly once and stops at the first error",
    run,
    quick_runs: 400_000,
    recheck: 60,
    rule: "A generated model, built in a drawn order by a process with drawn hash keys, is walked by a recording visitor, with or without a member visitor, that fails at a drawn call or never; non-trivial: at least two calls were made.",
    real: &["atelier_core::model::visitor", "atelier_core::model"],
    stubs: &["the visitor (records calls, fails on demand)", "getrandom (hash keys), behind the libc symbol"],
    assumptions: &["an annotation trait without a value and one with the empty object are the same value"],
};

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Meta(String, CVal),
    Shape(String, CTraits, CBody),
    Member(String, String, String, Option<CTraits>),
}

struct Recorder {
    calls: RefCell<Vec<Call>>,
    fail_at: usize,
    members: bool,
}

impl Recorder {
    fn put(&self, c: Call) -> Result<(), usize> {
        let mut v = self.calls.borrow_mut();
        v.push(c);
        if v.len() == self.fail_at {
            Err(self.fail_at)
        } else {
            Ok(())
        }
    }
    fn shape(&self, id: &ShapeID, t: &AppliedTraits, b: ShapeKind) -> Result<(), usize> {
        self.put(Call::Shape(id.to_string(), ctraits(t), cbody(&b)))
    }
}

impl ModelVisitor for Recorder {
    type Error = usize;
    fn metadata(&self, key: &str, value: &Value) -> Result<(), usize> {
        self.put(Call::Meta(key.to_string(), cval(value)))
    }
    fn simple_shape(&self, id: &ShapeID, t: &AppliedTraits, b: &Simple) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Simple(b.clone()))
    }
    fn list(&self, id: &ShapeID, t: &AppliedTraits, b: &ListOrSet) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::List(b.clone()))
    }
    fn set(&self, id: &ShapeID, t: &AppliedTraits, b: &ListOrSet) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Set(b.clone()))
    }
    fn map(&self, id: &ShapeID, t: &AppliedTraits, b: &Map) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Map(b.clone()))
    }
    fn structure(&self, id: &ShapeID, t: &AppliedTraits, b: &StructureOrUnion) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Structure(b.clone()))
    }
    fn union(&self, id: &ShapeID, t: &AppliedTraits, b: &StructureOrUnion) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Union(b.clone()))
    }
    fn service(&self, id: &ShapeID, t: &AppliedTraits, b: &Service) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Service(b.clone()))
    }
    fn operation(&self, id: &ShapeID, t: &AppliedTraits, b: &Operation) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Operation(b.clone()))
    }
    fn resource(&self, id: &ShapeID, t: &AppliedTraits, b: &Resource) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Resource(b.clone()))
    }
    fn unresolved_id(&self, id: &ShapeID, t: &AppliedTraits) -> Result<(), usize> {
        self.shape(id, t, ShapeKind::Unresolved)
    }
    fn member_visitor(&self) -> Option<&dyn MemberVisitor<Error = usize>> {
        if self.members {
            Some(self)
        } else {
            None
        }
    }
}

impl MemberVisitor for Recorder {
    type Error = usize;
    fn member(&self, parent: &ShapeID, name: &Identifier, target: &ShapeID, t: Option<&AppliedTraits>) -> Result<(), usize> {
        self.put(Call::Member(
            parent.to_string(),
            name.to_string(),
            target.to_string(),
            t.map(ctraits),
        ))
    }
}

/// The references of a service shape, by the name of the property that holds them.
pub fn properties(b: &CBody) -> Vec<(&str, &str)> {
    let mut v: Vec<(&str, &str)> = Vec::new();
    match b {
        CBody::Service { operations, resources, .. } => {
            v.extend(operations.iter().map(|t| ("operations", t.as_str())));
            v.extend(resources.iter().map(|t| ("resources", t.as_str())));
        }
        CBody::Operation { input, output, errors } => {
            v.extend(input.iter().map(|t| ("input", t.as_str())));
            v.extend(output.iter().map(|t| ("output", t.as_str())));
            v.extend(errors.iter().map(|t| ("errors", t.as_str())));
        }
        CBody::Resource(r) => {
            v.extend(r.lifecycle.iter().map(|(k, t)| (k.as_str(), t.as_str())));
            v.extend(r.operations.iter().map(|t| ("operations", t.as_str())));
            v.extend(r.collection_operations.iter().map(|t| ("collectionOperations", t.as_str())));
            v.extend(r.resources.iter().map(|t| ("resources", t.as_str())));
        }
        _ => {}
    }
    v
}

fn expected_members(id: &str, b: &CBody) -> Vec<Call> {
    members_of(b)
        .iter()
        .map(|m| Call::Member(id.into(), m.id.clone(), m.target.clone(), Some(m.traits.clone())))
        .chain(
            properties(b)
                .iter()
                .map(|(n, t)| Call::Member(id.into(), n.to_string(), t.to_string(), None)),
        )
        .collect()
}

/// Remove from `want` what was seen; what is left over on either side.
fn account(want: &mut Vec<Call>, seen: &[Call]) -> Option<Call> {
    for s in seen {
        match want.iter().position(|w| w == s) {
            Some(i) => {
                want.swap_remove(i);
            }
            None => return Some(s.clone()),
        }
    }
    None
}

fn name(c: &Call) -> &'static str {
    match c {
        Call::Meta(..) => "metadata",
        Call::Shape(_, _, b) => match b {
            CBody::Simple(_) => "simple shape",
            CBody::List(_) => "list",
            CBody::Set(_) => "set",
            CBody::Map(..) => "map",
            CBody::Structure(_) => "structure",
            CBody::Union(_) => "union",
            CBody::Service { .. } => "service",
            CBody::Operation { .. } => "operation",
            CBody::Resource(_) => "resource",
            CBody::Unresolved => "unresolved",
        },
        Call::Member(..) => "member",
    }
}

fn run(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.repeats = run.c.below(3) == 2;
    let m = gen::model(&mut run.c, &mix);
    run.mark(to_json(&m).to_string().as_bytes());
    run.log(|| format!("model {}", to_json(&m)));
    let members = run.c.below(5) != 4;
    let mut want: Vec<Call> = m.metadata.iter().map(|(k, v)| Call::Meta(k.clone(), v.clone())).collect();
    let mut total = want.len() + m.shapes.len();
    for (id, s) in &m.shapes {
        want.push(Call::Shape(id.clone(), s.traits.clone(), s.body.clone()));
        if members {
            total += expected_members(id, &s.body).len();
        }
    }
    let fail_at = match run.c.below(3) {
        0 => 0,
        1 => 1 + run.c.size(total.max(1)),
        _ => 1 + run.c.size((total + 3).min(8)),
    };
    run.nontrivial = total >= 2;
    let (seed, order) = (run.c.seed(), run.c.seed());
    let m2 = m.clone();
    let (result, calls) = run
        .pure_life("walk", seed, move || {
            let m = build_shuffled(&m2, order);
            let r = Recorder {
                calls: RefCell::new(Vec::new()),
                fail_at,
                members,
            };
            let result = walk_model(&m, &r);
            (result, r.calls.into_inner())
        })
        .ok("walking")?;
    run.log(|| format!("{members} {fail_at} -> {result:?} after {} calls", calls.len()));
    let fails = fail_at > 0 && fail_at <= total;
    if fails {
        run.probe("visitor failed");
        if result != Err(fail_at) {
            return violation("a failing call did not end the walk", format!("call {fail_at} of {} failed, the walk returned {result:?}", calls.len()));
        }
        if calls.len() != fail_at {
            return violation("calls after the call that failed", format!("{} calls, call {fail_at} failed: {:?}", calls.len(), &calls[fail_at.min(calls.len())..]));
        }
    } else if result.is_err() {
        return violation("walk failed by itself", format!("{result:?} after {} of {total} calls", calls.len()));
    }
    // in order: after each shape its members, each once
    let mut i = 0;
    while i < calls.len() {
        let c = &calls[i];
        i += 1;
        match c {
            Call::Member(..) => {
                return violation("a member call that does not follow its shape", format!("{c:?}"))
            }
            _ => {
                if let Some(x) = account(&mut want, std::slice::from_ref(c)) {
                    return violation(format!("unexpected {} call", name(&x)), format!("{x:?}"));
                }
            }
        }
        if let (Call::Shape(id, _, b), true) = (c, members) {
            let mut ms = expected_members(id, b);
            let n = ms.len();
            let upto = (i + n).min(calls.len());
            let seen = &calls[i..upto];
            if let Some(x) = account(&mut ms, seen) {
                return violation(
                    format!("wrong member call for a {}", name(c)),
                    format!("{x:?} after {id}, where {ms:?} were to come"),
                );
            }
            if seen.len() < n && !fails {
                return violation(format!("members of a {} not visited", name(c)), format!("{id}: {ms:?}"));
            }
            i = upto;
        }
    }
    if !fails {
        if let Some(w) = want.first() {
            return violation(format!("{} not visited", name(w)), format!("{w:?}"));
        }
    }
    Ok(())
}
