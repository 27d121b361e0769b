//! P10, P19: histories of adding, merging and removing, against the reference rules.

use super::*;
use crate::canon::*;
use crate::gen::{self, Mix, Names};
use crate::mutate;
use crate::props::assemble::build_shuffled;
use crate::reference::{self, fold, low, Refusal};
use crate::run::violation;
use atelier_core::model::shapes::{HasTraits, ShapeKind};
use atelier_core::model::{HasIdentity, Identifier, Model, NamespaceID, ShapeID};
use atelier_core::Version;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

pub static P10: Prop = Prop {
    id: "P10",
    title: "Merging follows the Smithy merge rules in every history",
    run: run10,
    quick_runs: 300_000,
    recheck: 60,
    rule: "A drawn history of adding, merging, applying, editing and removing metadata, shapes, traits and members is executed on a real model and on an executable reference of the merge rules; after each step the contents, the outcome and every lookup are compared; non-trivial: at least one step meets something already there.",
    real: &["atelier_core::model: Model, shapes, traits, values"],
    stubs: STUB_OS,
    assumptions: &[
        "an annotation trait without a value and one with the empty object are the same",
        "whether lists of references in another order, or an integer and an equal float, conflict is left open",
        "what a refused merge leaves behind is left open, but for metadata",
    ],
};

pub static P19: Prop = Prop {
    id: "P19",
    title: "Shape identity is case-insensitive and never depends on hash keys",
    run: run19,
    quick_runs: 200_000,
    recheck: 60,
    rule: "Identities and variants of them in letter case are compared, hashed, ordered and looked up under drawn hash keys; histories of adding and merging use drawn variants at each step and are compared with the reference rules over folded names, in two processes; non-trivial: two variants of one identity met.",
    real: &["atelier_core::model: identity, Model, shapes", "readers"],
    stubs: STUB_OS,
    assumptions: &["which of two spellings a model keeps is left open"],
};

#[derive(Clone, Debug)]
enum Edit {
    AddMember(CMember),
    RemoveMember(String),
    AddTo(usize, Vec<String>),
    RemoveFrom(usize, String),
    SetList(usize, Vec<String>),
    Slot(String, Option<String>),
    Key(String, Option<String>),
    /// Another member of a list or set, or another key (0) or value (1) of a map.
    Member(usize, CMember),
    Version(String),
    /// All renames, or all identifiers, at once.
    SetKeys(BTreeMap<String, String>),
    /// Give a slot or a list a shape (an identity and what it is): taken only if it is of a kind
    /// that belongs there.
    ByShape(String, String, CBody),
}

#[derive(Clone, Debug)]
enum Op {
    AddMeta(String, CVal),
    RemoveMeta(String),
    AddShape(String, CShape),
    RemoveShape(String),
    Merge(CModel),
    Apply(String, String, CVal),
    Append(String, CTraits),
    RemoveTrait(String, String),
    SetBody(String, CBody),
    Edit(String, Edit),
}

struct World {
    ids: Vec<String>,
    mix: Mix,
    names: Names,
}

fn world(c: &mut crate::choice::Choices) -> World {
    let mut mix = gen::mix(c);
    mix.max_shapes = *c.pick(&[3u64, 2, 5]);
    mix.max_members = mix.max_members.min(5);
    if mix.long_strings {
        mix.long_strings = false;
    }
    let names = gen::names(c, &mix);
    let mut ids = names.ids.clone();
    if c.below(3) == 2 {
        ids.push(format!("{}$foo", names.ids[0]));
    }
    if c.below(8) == 7 {
        ids.push("smithy.api#Special".into());
    }
    World { ids, mix, names }
}

fn some_shape(c: &mut crate::choice::Choices, w: &World, m: &CModel, id: &str) -> CShape {
    let traits = gen::traits(c, &w.mix, &w.names);
    if id.contains('$') && c.below(20) > 0 {
        return CShape { traits, body: CBody::Unresolved };
    }
    match (m.shapes.get(id), c.below(8)) {
        (_, 7) => CShape { traits, body: CBody::Unresolved },
        (Some(old), 0..=3) => {
            // the same definition again, its member traits drawn anew
            let mut s = old.clone();
            s.traits = if c.below(3) == 0 { old.traits.clone() } else { traits };
            for m in crate::idl::members_mut(&mut s.body) {
                if c.below(2) == 1 {
                    m.traits = gen::traits(c, &w.mix, &w.names);
                }
            }
            s
        }
        (Some(old), 4) => match mutate::shape_body(c, &w.mix, &w.names, old) {
            // the same but for the body
            Some(mut s) => {
                if c.below(2) == 1 {
                    s.traits = traits;
                }
                s
            }
            None => old.clone(),
        },
        (Some(old), 5) => {
            // nearly the same
            let one = CModel {
                metadata: BTreeMap::new(),
                shapes: [(id.to_string(), old.clone())].into_iter().collect(),
            };
            match mutate::one(c, &w.mix, &one) {
                Some((_, o)) if o.shapes.contains_key(id) => o.shapes[id].clone(),
                _ => old.clone(),
            }
        }
        _ => CShape {
            traits,
            body: gen::body(c, &w.mix, &w.names),
        },
    }
}

fn some_meta(c: &mut crate::choice::Choices, w: &World, m: &CModel) -> (String, CVal) {
    let keys: Vec<String> = m.metadata.keys().cloned().collect();
    let k = if !keys.is_empty() && c.below(2) == 1 {
        c.pick(&keys).clone()
    } else {
        gen::obj_key(c, &w.mix)
    };
    let v = match (m.metadata.get(&k), c.below(4)) {
        (Some(old), 0 | 1) => old.clone(),
        (Some(CVal::Arr(_)), 2) => CVal::Arr((0..c.below(3)).map(|_| gen::val(c, &w.mix, 1)).collect()),
        _ => gen::val(c, &w.mix, w.mix.max_depth),
    };
    (k, v)
}

fn list_of(b: &CBody, which: usize) -> Option<&Vec<String>> {
    match (b, which) {
        (CBody::Service { operations, .. }, 0) => Some(operations),
        (CBody::Service { resources, .. }, 1) => Some(resources),
        (CBody::Operation { errors, .. }, 0) => Some(errors),
        (CBody::Resource(r), 0) => Some(&r.operations),
        (CBody::Resource(r), 1) => Some(&r.collection_operations),
        (CBody::Resource(r), 2) => Some(&r.resources),
        _ => None,
    }
}

/// Where a shape can be given whole.
fn by_shape(b: &CBody) -> &'static [&'static str] {
    match b {
        CBody::Service { .. } => &["operations", "resources"],
        CBody::Operation { .. } => &["input", "output", "errors"],
        CBody::Resource(_) => &[
            "create", "put", "read", "update", "delete", "list", "operations", "collectionOperations", "resources",
        ],
        _ => &[],
    }
}

fn fits(slot: &str, b: &CBody) -> bool {
    match slot {
        "input" | "output" | "errors" => !matches!(
            b,
            CBody::Service { .. } | CBody::Operation { .. } | CBody::Resource(_) | CBody::Unresolved
        ),
        "resources" => matches!(b, CBody::Resource(_)),
        _ => matches!(b, CBody::Operation { .. }),
    }
}

fn edit(c: &mut crate::choice::Choices, w: &World, b: &CBody) -> Option<Edit> {
    let slots = by_shape(b);
    if !slots.is_empty() && c.below(4) == 3 {
        let slot = c.pick(slots).to_string();
        let mut given = gen::body(c, &w.mix, &w.names);
        if !fits(&slot, &given) && c.below(2) == 0 {
            given = match slot.as_str() {
                "input" | "output" | "errors" => CBody::Structure(BTreeMap::new()),
                "resources" => CBody::Resource(Default::default()),
                _ => CBody::Operation { input: None, output: None, errors: vec![] },
            };
        }
        return Some(Edit::ByShape(slot, gen::target(c, &w.mix, &w.names), given));
    }
    Some(match b {
        CBody::List(_) | CBody::Set(_) => Edit::Member(0, CMember {
            id: "member".into(),
            target: gen::target(c, &w.mix, &w.names),
            traits: gen::traits(c, &w.mix, &w.names),
        }),
        CBody::Map(..) => {
            let which = c.size(2);
            Edit::Member(which, CMember {
                id: ["key", "value"][which].into(),
                target: gen::target(c, &w.mix, &w.names),
                traits: gen::traits(c, &w.mix, &w.names),
            })
        }
        CBody::Service { .. } if c.below(6) == 5 => Edit::Version(c.pick(&["1", "2.0", "2020-11-30"]).to_string()),
        CBody::Service { .. } | CBody::Resource(_) if c.below(6) == 5 => {
            let mut m: BTreeMap<String, String> = BTreeMap::new();
            for _ in 0..c.below(4) {
                let t = gen::target(c, &w.mix, &w.names);
                let (k, v) = if matches!(b, CBody::Service { .. }) {
                    (t, c.pick(&gen::NAMES).to_string())
                } else {
                    (c.pick(&gen::MEMBERS).to_string(), t)
                };
                if !m.keys().any(|x| low(x) == low(&k)) {
                    m.insert(k, v);
                }
            }
            Edit::SetKeys(m)
        }
        CBody::Structure(ms) | CBody::Union(ms) => {
            let k = if ms.is_empty() || c.below(2) == 0 {
                c.pick(&gen::MEMBERS).to_string()
            } else {
                let i = c.size(ms.len());
                ms.keys().nth(i).unwrap().clone()
            };
            if c.below(3) == 2 {
                Edit::RemoveMember(k)
            } else {
                Edit::AddMember(CMember {
                    id: k,
                    target: gen::target(c, &w.mix, &w.names),
                    traits: gen::traits(c, &w.mix, &w.names),
                })
            }
        }
        CBody::Service { .. } | CBody::Operation { .. } | CBody::Resource(_) => {
            let which = c.size(3);
            match (list_of(b, which), c.below(6)) {
                (Some(l), 0) => Edit::AddTo(which, vec![
                    if l.is_empty() || c.below(3) > 0 { gen::target(c, &w.mix, &w.names) } else { c.pick(l).clone() },
                ]),
                (Some(_), 1) => {
                    let n = c.below(4);
                    Edit::SetList(which, (0..n).map(|_| gen::target(c, &w.mix, &w.names)).collect())
                }
                (Some(l), 2) => Edit::RemoveFrom(
                    which,
                    if l.is_empty() { gen::target(c, &w.mix, &w.names) } else { c.pick(l).clone() },
                ),
                (Some(_), 3) => {
                    let n = c.below(4);
                    Edit::AddTo(which, (0..n).map(|_| gen::target(c, &w.mix, &w.names)).collect())
                }
                _ => {
                    let v = (c.below(3) > 0).then(|| gen::target(c, &w.mix, &w.names));
                    match b {
                        CBody::Service { renames, .. } => {
                            let k = if renames.is_empty() || c.below(2) == 0 {
                                gen::target(c, &w.mix, &w.names)
                            } else {
                                let i = c.size(renames.len());
                                renames.keys().nth(i).unwrap().clone()
                            };
                            Edit::Key(k, v.map(|_| c.pick(&gen::NAMES).to_string()))
                        }
                        CBody::Operation { .. } => Edit::Slot(c.pick(&["input", "output"]).to_string(), v),
                        _ if c.below(2) == 0 => Edit::Key(c.pick(&gen::MEMBERS).to_string(), v),
                        _ => Edit::Slot(
                            c.pick(&["create", "put", "read", "update", "delete", "list"]).to_string(),
                            v,
                        ),
                    }
                }
            }
        }
        _ => return None,
    })
}

fn some_op(c: &mut crate::choice::Choices, w: &World, m: &CModel) -> Option<Op> {
    let id = c.pick(&w.ids).clone();
    let there: Vec<String> = m.shapes.keys().cloned().collect();
    let known = if there.is_empty() { id.clone() } else { c.pick(&there).clone() };
    Some(match c.below(16) {
        0..=1 => {
            let (k, v) = some_meta(c, w, m);
            Op::AddMeta(k, v)
        }
        2..=5 => Op::AddShape(id.clone(), some_shape(c, w, m, &id)),
        6..=8 => {
            let mut o = CModel::default();
            for _ in 0..c.below(3) {
                let (k, v) = some_meta(c, w, m);
                o.metadata.insert(k, v);
            }
            for _ in 0..c.range(0, 3) {
                let id = c.pick(&w.ids).clone();
                let s = some_shape(c, w, m, &id);
                if !id.contains('$') || matches!(s.body, CBody::Unresolved) {
                    o.shapes.insert(id, s);
                }
            }
            Op::Merge(o)
        }
        9 => Op::RemoveShape(known),
        10 => {
            let keys: Vec<String> = m.metadata.keys().cloned().collect();
            Op::RemoveMeta(if keys.is_empty() { "nothing".into() } else { c.pick(&keys).clone() })
        }
        11 => {
            let t = match m.shapes.get(&known) {
                Some(s) if !s.traits.is_empty() && c.below(2) == 1 => {
                    let i = c.size(s.traits.len());
                    s.traits.keys().nth(i).unwrap().clone()
                }
                _ => gen::trait_id(c, &w.mix, &w.names),
            };
            let t = if c.below(30) == 29 { format!("{t}$x") } else { t };
            let v = match m.shapes.get(&known).and_then(|s| s.traits.get(&t)) {
                Some(v) if c.below(2) == 1 => v.clone(),
                _ => {
                    let mut x = gen::traits(c, &w.mix, &w.names);
                    x.pop_first().map(|v| v.1).unwrap_or(CVal::Obj(BTreeMap::new()))
                }
            };
            Op::Apply(known, t, v)
        }
        12 => Op::Append(known, gen::traits(c, &w.mix, &w.names)),
        13 => {
            let s = m.shapes.get(&known)?;
            let t = if s.traits.is_empty() {
                gen::trait_id(c, &w.mix, &w.names)
            } else {
                let i = c.size(s.traits.len());
                s.traits.keys().nth(i).unwrap().clone()
            };
            Op::RemoveTrait(known, t)
        }
        14 if !known.contains('$') => {
            let b = gen::body(c, &w.mix, &w.names);
            Op::SetBody(known, b)
        }
        _ => {
            let s = m.shapes.get(&known)?;
            Op::Edit(known.clone(), edit(c, w, &s.body)?)
        }
    })
}

/// The reference of one step.
fn step(m: &mut CModel, op: &Op) -> Result<(), Refusal> {
    match op {
        Op::AddMeta(k, v) => reference::add_metadata(m, k, v),
        Op::RemoveMeta(k) => {
            m.metadata.remove(k);
            Ok(())
        }
        Op::AddShape(id, s) => reference::add_shape(m, id, s),
        Op::RemoveShape(id) => {
            m.shapes.remove(id);
            Ok(())
        }
        Op::Merge(o) => reference::merge(m, o),
        Op::Apply(id, t, v) => {
            if t.contains('$') {
                return Err(Refusal::MemberId);
            }
            match m.shapes.get_mut(id) {
                Some(s) => reference::apply(&mut s.traits, t, v),
                None => Ok(()),
            }
        }
        Op::Append(id, ts) => {
            if let Some(s) = m.shapes.get_mut(id) {
                let mut new = s.traits.clone();
                let mut refused: Vec<Refusal> = Vec::new();
                for (k, v) in ts {
                    refused.extend(reference::apply(&mut new, k, v).err());
                }
                if let Some(r) = refused.iter().find(|r| **r != Refusal::Open).or(refused.first()) {
                    return Err(*r);
                }
                s.traits = new;
            }
            Ok(())
        }
        Op::RemoveTrait(id, t) => {
            if let Some(s) = m.shapes.get_mut(id) {
                s.traits.remove(t);
            }
            Ok(())
        }
        Op::SetBody(id, b) => {
            if let Some(s) = m.shapes.get_mut(id) {
                s.body = b.clone();
            }
            Ok(())
        }
        Op::Edit(id, e) => {
            if let Some(s) = m.shapes.get_mut(id) {
                ref_edit(&mut s.body, e);
            }
            Ok(())
        }
    }
}

fn put<V: Clone>(m: &mut BTreeMap<String, V>, k: &str, v: &Option<V>) {
    match v {
        Some(v) => {
            m.insert(k.to_string(), v.clone());
        }
        None => {
            m.remove(k);
        }
    }
}

fn ref_edit(b: &mut CBody, e: &Edit) {
    match e {
        Edit::AddMember(x) => match b {
            CBody::Structure(ms) | CBody::Union(ms) => {
                ms.insert(x.id.clone(), x.clone());
            }
            _ => {}
        },
        Edit::RemoveMember(k) => match b {
            CBody::Structure(ms) | CBody::Union(ms) => {
                ms.remove(k);
            }
            _ => {}
        },
        Edit::AddTo(w, v) => {
            if let Some(l) = mutate::lists_mut(b).into_iter().nth(*w) {
                l.extend(v.iter().cloned());
            }
        }
        Edit::SetList(w, v) => {
            if let Some(l) = mutate::lists_mut(b).into_iter().nth(*w) {
                *l = v.clone();
            }
        }
        Edit::RemoveFrom(w, v) => {
            if let Some(l) = mutate::lists_mut(b).into_iter().nth(*w) {
                l.retain(|x| x != v);
            }
        }
        Edit::Slot(k, v) => match b {
            CBody::Operation { input, output, .. } => {
                if k == "input" {
                    *input = v.clone();
                } else {
                    *output = v.clone();
                }
            }
            CBody::Resource(r) => put(&mut r.lifecycle, k, v),
            _ => {}
        },
        Edit::Key(k, v) => match b {
            CBody::Service { renames, .. } => put(renames, k, v),
            CBody::Resource(r) => put(&mut r.identifiers, k, v),
            _ => {}
        },
        Edit::Member(which, x) => match b {
            CBody::List(m) | CBody::Set(m) => *m = x.clone(),
            CBody::Map(m, _) if *which == 0 => *m = x.clone(),
            CBody::Map(_, m) => *m = x.clone(),
            _ => {}
        },
        Edit::Version(v) => {
            if let CBody::Service { version, .. } = b {
                *version = v.clone();
            }
        }
        Edit::SetKeys(m) => match b {
            CBody::Service { renames, .. } => *renames = m.clone(),
            CBody::Resource(r) => r.identifiers = m.clone(),
            _ => {}
        },
        Edit::ByShape(slot, id, given) => {
            if fits(slot, given) && by_shape(b).contains(&slot.as_str()) {
                let which = match (slot.as_str(), &*b) {
                    ("operations", _) | ("errors", _) => 0,
                    ("collectionOperations", _) | ("resources", CBody::Service { .. }) => 1,
                    ("resources", _) => 2,
                    _ => return ref_edit(b, &Edit::Slot(slot.clone(), Some(id.clone()))),
                };
                ref_edit(b, &Edit::AddTo(which, vec![id.clone()]));
            }
        }
    }
}

fn sids(v: &[String]) -> Vec<ShapeID> {
    v.iter().map(|s| sid(s)).collect()
}

macro_rules! list_edit {
    ($o:expr, $add:ident, $append:ident, $set:ident, $remove:ident, $e:expr) => {
        match $e {
            Edit::AddTo(_, v) if v.len() == 1 => $o.$add(sid(&v[0])),
            Edit::AddTo(_, v) => $o.$append(&sids(v)),
            Edit::SetList(_, v) => $o.$set(&sids(v)),
            Edit::RemoveFrom(_, v) => $o.$remove(&sid(v)),
            _ => {}
        }
    };
}

macro_rules! slot {
    ($o:expr, $set:ident, $unset:ident, $v:expr) => {
        match $v {
            Some(v) => $o.$set(sid(v)),
            None => $o.$unset(),
        }
    };
}

/// The real edit; what it returns about what was there before.
fn real_edit(k: &mut ShapeKind, e: &Edit) -> Option<String> {
    let which = match e {
        Edit::AddTo(w, _) | Edit::SetList(w, _) | Edit::RemoveFrom(w, _) => *w,
        _ => 9,
    };
    if let Edit::ByShape(slot, id, given) = e {
        let shape = shape_of(id, &CShape { traits: Default::default(), body: given.clone() });
        match (k, slot.as_str()) {
            (ShapeKind::Service(s), "operations") => s.add_operation_shape(&shape),
            (ShapeKind::Service(s), "resources") => s.add_resource_shape(&shape),
            (ShapeKind::Operation(o), "input") => o.set_input_shape(&shape),
            (ShapeKind::Operation(o), "output") => o.set_output_shape(&shape),
            (ShapeKind::Operation(o), "errors") => o.add_error_shape(&shape),
            (ShapeKind::Resource(r), "create") => r.set_create_operation_shape(&shape),
            (ShapeKind::Resource(r), "put") => r.set_put_operation_shape(&shape),
            (ShapeKind::Resource(r), "read") => r.set_read_operation_shape(&shape),
            (ShapeKind::Resource(r), "update") => r.set_update_operation_shape(&shape),
            (ShapeKind::Resource(r), "delete") => r.set_delete_operation_shape(&shape),
            (ShapeKind::Resource(r), "list") => r.set_list_operation_shape(&shape),
            (ShapeKind::Resource(r), "operations") => r.add_operation_shape(&shape),
            (ShapeKind::Resource(r), "collectionOperations") => r.add_collection_operation_shape(&shape),
            (ShapeKind::Resource(r), "resources") => r.add_resource_shape(&shape),
            _ => {}
        }
        return None;
    }
    match k {
        ShapeKind::List(l) | ShapeKind::Set(l) => {
            if let Edit::Member(_, m) = e {
                l.set_member(member_of(m));
            }
        }
        ShapeKind::Map(l) => match e {
            Edit::Member(0, m) => l.set_key(member_of(m)),
            Edit::Member(_, m) if m.traits.len() % 2 == 1 => {
                let mut value = l.value().clone();
                value.set_target(sid(&m.target));
                *value.traits_mut() = traits_of(&m.traits);
                l.set_value(value);
            }
            Edit::Member(_, m) => l.set_value(member_of(m)),
            _ => {}
        },
        ShapeKind::Structure(s) | ShapeKind::Union(s) => match e {
            Edit::AddMember(m) if m.traits.is_empty() => s.add_member(ident(&m.id), sid(&m.target)),
            Edit::AddMember(m) => return s.add_a_member(member_of(m)).map(|m| m.id().to_string()),
            Edit::RemoveMember(m) => return s.remove_member(&ident(m)).map(|m| m.id().to_string()),
            _ => {}
        },
        ShapeKind::Service(s) => match e {
            Edit::Key(k, Some(v)) => return s.insert_rename_shape(sid(k), ident(v)).map(|v| v.to_string()),
            Edit::Key(k, None) => return s.remove_rename_shape(&sid(k)).map(|v| v.to_string()),
            Edit::Version(v) => s.set_version(v),
            Edit::SetKeys(m) => s.set_renames(m.iter().map(|(k, v)| (sid(k), ident(v))).collect()),
            e if which == 0 => list_edit!(s, add_operation, append_operations, set_operations, remove_operation, e),
            e => list_edit!(s, add_resource, append_resources, set_resources, remove_resource, e),
        },
        ShapeKind::Operation(o) => match e {
            Edit::Slot(k, v) if k == "input" => slot!(o, set_input, unset_input, v),
            Edit::Slot(_, v) => slot!(o, set_output, unset_output, v),
            e => list_edit!(o, add_error, append_errors, set_errors, remove_error, e),
        },
        ShapeKind::Resource(r) => match e {
            Edit::Key(k, Some(v)) => return r.add_identifier(ident(k), sid(v)).map(|v| v.to_string()),
            Edit::Key(k, None) => return r.remove_identifier(&ident(k)).map(|v| v.to_string()),
            Edit::SetKeys(m) => r.set_identifiers(m.iter().map(|(k, v)| (ident(k), sid(v))).collect()),
            Edit::Slot(k, v) => match k.as_str() {
                "create" => slot!(r, set_create, unset_create, v),
                "put" => slot!(r, set_put, unset_put, v),
                "read" => slot!(r, set_read, unset_read, v),
                "update" => slot!(r, set_update, unset_update, v),
                "delete" => slot!(r, set_delete, unset_delete, v),
                _ => slot!(r, set_list, unset_list, v),
            },
            e if which == 0 => list_edit!(r, add_operation, append_operations, set_operations, remove_operation, e),
            e if which == 1 => list_edit!(
                r,
                add_collection_operation,
                append_collection_operations,
                set_collection_operations,
                remove_collection_operation,
                e
            ),
            e => list_edit!(r, add_resource, append_resources, set_resources, remove_resource, e),
        },
        _ => {}
    }
    None
}

fn trait_value(v: &CVal) -> Option<atelier_core::model::values::Value> {
    match v {
        CVal::Obj(o) if o.is_empty() => None,
        v => Some(value(v)),
    }
}

fn real_step(m: &mut Model, op: &Op, order: u64) -> Result<(), String> {
    let e = |e: atelier_core::error::Error| e.to_string();
    match op {
        Op::AddMeta(k, v) => m.add_metadata(k.clone(), value(v)).map(|_| ()).map_err(e),
        Op::RemoveMeta(k) => {
            let was = m.has_metadata_value(k);
            let got = m.remove_metadata(k).is_some();
            if was != got {
                return Err(format!("!remove_metadata({k}) returned {got}"));
            }
            Ok(())
        }
        Op::AddShape(id, s) => m.add_shape(shape_of(id, s)).map_err(e),
        Op::RemoveShape(id) => {
            let was = m.has_shape(&sid(id));
            let got = m.remove_shape(&sid(id)).map(|s| low(&s.id().to_string()));
            if got != was.then(|| low(id)) {
                return Err(format!("!remove_shape({id}) returned {got:?}"));
            }
            Ok(())
        }
        Op::Merge(o) => m.merge(build_shuffled(o, order)).map_err(e),
        Op::Apply(id, t, v) => match m.shape_mut(&sid(id)) {
            Some(s) => match trait_value(v) {
                None => s.apply(sid(t)).map_err(e),
                v => s.apply_with_value(sid(t), v).map_err(e),
            },
            None if t.contains('$') => Err("no such shape".into()),
            None => Ok(()),
        },
        Op::Append(id, t) => match m.shape_mut(&sid(id)) {
            Some(s) => s.append_traits(&traits_of(t)).map_err(e),
            None => Ok(()),
        },
        Op::RemoveTrait(id, t) => {
            if let Some(s) = m.shape_mut(&sid(id)) {
                s.remove_trait(&sid(t));
            }
            Ok(())
        }
        Op::SetBody(id, b) => {
            if let Some(s) = m.shape_mut(&sid(id)) {
                s.set_body(body_of(b));
            }
            Ok(())
        }
        Op::Edit(id, e) => {
            if let Some(s) = m.shape_mut(&sid(id)) {
                real_edit(s.body_mut(), e);
            }
            Ok(())
        }
    }
}

/// Do lookups and queries agree with the contents?  `ask` are the identities to ask for.
fn queries(m: &Model, c: &CModel, ask: &[String], members: &[String]) -> Option<String> {
    let f = fold(c);
    let say = |what: &str, id: &str, got: String| Some(format!("{what}({id}) answered {got}"));
    if m.has_metadata() == c.metadata.is_empty() {
        return say("has_metadata", "", m.has_metadata().to_string());
    }
    if m.has_shapes() == c.shapes.is_empty() {
        return say("has_shapes", "", m.has_shapes().to_string());
    }
    for k in c.metadata.keys().map(|k| k.as_str()).chain(["no such key", "foo", "key"]) {
        let want = c.metadata.get(k);
        if m.has_metadata_value(k) != want.is_some() {
            return say("has_metadata_value", k, m.has_metadata_value(k).to_string());
        }
        let got = m.metadata_value(k).map(cval);
        if got.as_ref() != want {
            return say("metadata_value", k, format!("{got:?}"));
        }
    }
    for id in ask {
        let key = sid(id);
        let want = f.shapes.get(&low(id));
        if m.has_shape(&key) != want.is_some() {
            return say("has_shape", id, m.has_shape(&key).to_string());
        }
        match (m.shape(&key), want) {
            (None, None) => {}
            (Some(s), Some(_)) if low(&s.id().to_string()) == low(id) && s.is(&key) => {}
            (got, _) => return say("shape", id, format!("{got:?}")),
        }
    }
    let sorted = |i: &mut dyn Iterator<Item = &ShapeID>| {
        let mut v: Vec<String> = i.map(|s| low(&s.to_string())).collect();
        v.sort();
        v
    };
    let of = |unresolved: bool| -> Vec<String> {
        f.shapes
            .iter()
            .filter(|(_, s)| matches!(s.body, CBody::Unresolved) == unresolved)
            .map(|(k, _)| k.clone())
            .collect()
    };
    let got = sorted(&mut m.shape_names());
    if got != of(false) {
        return say("shape_names", "", format!("{got:?}"));
    }
    let got = sorted(&mut m.unresolved_shape_names());
    if got != of(true) {
        return say("unresolved_shape_names", "", format!("{got:?}"));
    }
    if m.is_complete() != of(true).is_empty() {
        return say("is_complete", "", m.is_complete().to_string());
    }
    let spaces: BTreeSet<String> = of(false).iter().map(|k| crate::idl::ns_of(k).to_string()).collect();
    let got: Vec<String> = m.namespaces().iter().map(|n| low(&n.to_string())).collect();
    if got.iter().cloned().collect::<BTreeSet<_>>() != spaces || got.len() != spaces.len() {
        return say("namespaces", "", format!("{got:?}"));
    }
    for (id, want) in &f.shapes {
        let s = m.shape(&sid(id))?;
        if s.has_traits() == want.traits.is_empty() {
            return say("has_traits", id, s.has_traits().to_string());
        }
        for t in want.traits.keys().map(|k| k.as_str()).chain(["smithy.api#documentation", "smithy.api#Required"]) {
            let w = want.traits.get(&low(t));
            let got = s.trait_named(&sid(t)).map(|v| v.as_ref().map(cval).unwrap_or(CVal::Obj(BTreeMap::new())));
            if s.has_trait(&sid(t)) != w.is_some() || got.as_ref() != w {
                return say("trait_named", &format!("{id}, {t}"), format!("{got:?}"));
            }
        }
        let flags: [(&str, bool); 22] = [
            ("documentation", s.has_documentation()),
            ("externaldocumentation", s.has_external_documentation()),
            ("length", s.has_length()),
            ("pattern", s.has_pattern()),
            ("requireslength", s.has_required_length()),
            ("box", s.is_boxed()),
            ("deprecated", s.is_deprecated()),
            ("error", s.is_error()),
            ("idempotent", s.is_idempotent()),
            ("noreplace", s.is_no_replace()),
            ("paginated", s.is_paginated()),
            ("private", s.is_private()),
            ("readonly", s.is_readonly()),
            ("references", s.is_references()),
            ("required", s.is_required()),
            ("sensitive", s.is_sensitive()),
            ("streaming", s.is_streaming()),
            ("since", s.is_since()),
            ("tags", s.is_tagged()),
            ("title", s.is_titled()),
            ("trait", s.is_trait()),
            ("uniqueitems", s.has_unique_items()),
        ];
        for (t, got) in flags {
            if got != want.traits.contains_key(&format!("smithy.api#{t}")) {
                return say("the query for a prelude trait", &format!("{id}, {t}"), got.to_string());
            }
        }
        let kinds = [
            s.is_simple(),
            s.is_list(),
            s.is_set(),
            s.is_map(),
            s.is_structure(),
            s.is_union(),
            s.is_service(),
            s.is_operation(),
            s.is_resource(),
            s.is_unresolved(),
        ];
        let k = match want.body {
            CBody::Simple(_) => 0,
            CBody::List(_) => 1,
            CBody::Set(_) => 2,
            CBody::Map(..) => 3,
            CBody::Structure(_) => 4,
            CBody::Union(_) => 5,
            CBody::Service { .. } => 6,
            CBody::Operation { .. } => 7,
            CBody::Resource(_) => 8,
            CBody::Unresolved => 9,
        };
        if kinds.iter().enumerate().any(|(i, b)| *b != (i == k)) {
            return say("the kind", id, format!("{kinds:?}"));
        }
        if s.is_prelude_shape() != (crate::idl::ns_of(id) == "smithy.api") {
            return say("is_prelude_shape", id, s.is_prelude_shape().to_string());
        }
        let have: BTreeMap<String, &CMember> =
            crate::idl::members_of(&want.body).into_iter().map(|m| (low(&m.id), m)).collect();
        for n in members {
            let w = have.get(&low(n));
            let got = s.member(&ident(n)).map(|m| (low(&m.id().to_string()), low(&m.target().to_string())));
            if s.has_member(&ident(n)) != w.is_some() || got != w.map(|w| (low(&w.id), low(&w.target))) {
                return say("member", &format!("{id}, {n}"), format!("{got:?}"));
            }
        }
        let bad = match (s.body(), &want.body) {
            (ShapeKind::Structure(b), CBody::Structure(ms)) | (ShapeKind::Union(b), CBody::Union(ms)) => {
                b.has_members() == ms.is_empty()
                    || members.iter().any(|n| {
                        b.has_member(&ident(n)) != ms.contains_key(&low(n))
                            || b.member(&ident(n)).is_some() != ms.contains_key(&low(n))
                    })
            }
            (ShapeKind::Service(b), CBody::Service { operations, resources, renames, .. }) => {
                b.has_operations() == operations.is_empty()
                    || b.has_resources() == resources.is_empty()
                    || b.has_renames() == renames.is_empty()
                    || ask.iter().any(|id| {
                        b.has_rename_shape(&sid(id)) != renames.contains_key(&low(id))
                            || b.contains_rename_shape(&sid(id)).map(|i| low(&i.to_string())).as_ref()
                                != renames.get(&low(id))
                    })
            }
            (ShapeKind::Operation(b), CBody::Operation { input, output, errors }) => {
                b.has_input() != input.is_some()
                    || b.has_output() != output.is_some()
                    || b.has_errors() == errors.is_empty()
            }
            (ShapeKind::Resource(b), CBody::Resource(r)) => {
                b.has_identifiers() == r.identifiers.is_empty()
                    || b.has_any_resource_operation() == r.lifecycle.is_empty()
                    || [b.has_create(), b.has_put(), b.has_read(), b.has_update(), b.has_delete(), b.has_list()]
                        .iter()
                        .zip(["create", "put", "read", "update", "delete", "list"])
                        .any(|(has, k)| *has != r.lifecycle.contains_key(k))
                    || b.has_operations() == r.operations.is_empty()
                    || b.has_collection_operations() == r.collection_operations.is_empty()
                    || b.has_resources() == r.resources.is_empty()
                    || members.iter().any(|n| {
                        b.has_identifier(&ident(n)) != r.identifiers.contains_key(&low(n))
                            || b.identifier(&ident(n)).map(|i| low(&i.to_string())).as_ref()
                                != r.identifiers.get(&low(n))
                    })
            }
            _ => false,
        };
        if bad {
            return say("a query of the body", id, format!("{:?}", s.body()));
        }
    }
    None
}

struct Seen {
    out: Result<(), String>,
    after: CModel,
    wrong: Option<String>,
}

/// What a history has done to a model, and whether the result equals the same model built anew.
fn replay(run: &mut Run, ops: &[Op], hash: u64, order: u64, ask: &[String], members: &[String]) -> Result<Vec<Seen>, crate::run::Violation> {
    let (ops, ask, members) = (ops.to_vec(), ask.to_vec(), members.to_vec());
    run.pure_life("history", hash, move || {
        let mut m = Model::new(Version::V10);
        let mut out = Vec::new();
        for (i, op) in ops.iter().enumerate() {
            let before = canon(&m);
            let r = real_step(&mut m, op, order.wrapping_add(i as u64));
            let after = canon(&m);
            let mut wrong = queries(&m, &after, &ask, &members);
            if wrong.is_none() && r.is_ok() && i + 1 == ops.len() {
                let again = build_shuffled(&after, order ^ 0x55);
                if m != again || again != m {
                    wrong = Some("the model differs from one built with the same contents".into());
                }
                if fold(&before) != fold(&after) && build(&before) == m {
                    wrong = Some("the model equals the one before the last step".into());
                }
            }
            let stop = wrong.is_some();
            out.push(Seen { out: r, after, wrong });
            if stop {
                break;
            }
        }
        out
    })
    .ok("adding and merging")
}

fn wording(op: &Op) -> &'static str {
    match op {
        Op::AddMeta(..) => "add_metadata",
        Op::RemoveMeta(_) => "remove_metadata",
        Op::AddShape(..) => "add_shape",
        Op::RemoveShape(_) => "remove_shape",
        Op::Merge(_) => "merge",
        Op::Apply(..) => "apply",
        Op::Append(..) => "append_traits",
        Op::RemoveTrait(..) => "remove_trait",
        Op::SetBody(..) => "set_body",
        Op::Edit(..) => "edit",
    }
}

fn judge(ops: &[Op], seen: &[Seen], wants: &[(Result<(), Refusal>, CModel)], view: &dyn Fn(&CModel) -> CModel) -> Outcome {
    for (i, s) in seen.iter().enumerate() {
        let op = wording(&ops[i]);
        let (want, state) = &wants[i];
        match (want, &s.out) {
            (Ok(()), Err(e)) if e.starts_with('!') => {
                return violation(format!("{op}: wrong return value"), format!("step {i}: {e}"))
            }
            (Ok(()), Err(e)) => {
                return violation(format!("{op} refused without a conflict"), format!("step {i} {:?}: {e}", ops[i]))
            }
            (Err(r), Ok(())) => {
                return violation(
                    format!("{op}: a conflict ({r:?}) was resolved silently"),
                    format!("step {i}: {:?}", ops[i]),
                )
            }
            (Err(_), Err(_)) if !matches!(ops[i], Op::AddMeta(..)) => continue,
            _ => {}
        }
        if let Some((what, how)) = diff(&view(state), &view(&s.after)) {
            return violation(format!("{op}: wrong {what}"), format!("step {i} {:?}: {how}", ops[i]));
        }
        if let Some(w) = &s.wrong {
            return violation("a query contradicts the contents", format!("step {i}: {w}"));
        }
    }
    if seen.len() != ops.len() {
        return violation("history cut short", format!("{} of {}", seen.len(), ops.len()));
    }
    Ok(())
}

fn run10(run: &mut Run) -> Outcome {
    let w = world(&mut run.c);
    let mut m = CModel::default();
    let mut ops = Vec::new();
    let mut wants = Vec::new();
    let most = *run.c.pick(&[6u64, 12, 25]);
    let n = run.c.range(1, most);
    for _ in 0..n {
        let Some(op) = some_op(&mut run.c, &w, &m) else { continue };
        let mut next = m.clone();
        let r = step(&mut next, &op);
        match &op {
            Op::AddMeta(k, _) => run.nontrivial |= m.metadata.contains_key(k),
            Op::AddShape(id, _) => run.nontrivial |= m.shapes.contains_key(id),
            Op::Merge(o) => {
                run.nontrivial |=
                    o.shapes.keys().any(|k| m.shapes.contains_key(k)) || o.metadata.keys().any(|k| m.metadata.contains_key(k))
            }
            _ => {}
        }
        match r {
            Err(Refusal::Open) => continue,
            Ok(()) => {
                m = next;
                ops.push(op);
                wants.push((Ok(()), m.clone()));
            }
            Err(e) => {
                run.probe(match e {
                    Refusal::Metadata => "metadata conflict",
                    Refusal::Shape => "shape conflict",
                    Refusal::Trait => "trait conflict",
                    _ => "member ID refused",
                });
                let on = matches!(op, Op::AddMeta(..));
                ops.push(op);
                wants.push((Err(e), m.clone()));
                if !on {
                    break;
                }
            }
        }
    }
    run.mark(format!("{ops:?}").as_bytes());
    run.log(|| format!("{ops:#?}"));
    let (hash, order) = (run.c.seed(), run.c.seed());
    let mut ask = w.ids.clone();
    ask.push("example.alpha#Missing".into());
    ask.push("smithy.api#String".into());
    let members: Vec<String> = gen::MEMBERS.iter().map(|s| s.to_string()).collect();
    let seen = replay(run, &ops, hash, order, &ask, &members)?;
    judge(&ops, &seen, &wants, &|m| m.clone())
}

// ------------------------------------------------------------------------------------------------
// P19
// ------------------------------------------------------------------------------------------------

fn variant(c: &mut crate::choice::Choices, s: &str) -> String {
    match c.below(5) {
        0 => s.to_string(),
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        _ => {
            let bits = c.seed();
            s.chars()
                .enumerate()
                .map(|(i, ch)| {
                    if bits >> (i % 60) & 1 == 1 {
                        if ch.is_lowercase() {
                            ch.to_ascii_uppercase()
                        } else {
                            ch.to_ascii_lowercase()
                        }
                    } else {
                        ch
                    }
                })
                .collect()
        }
    }
}

fn vary_traits(c: &mut crate::choice::Choices, t: &mut CTraits) {
    *t = std::mem::take(t).into_iter().map(|(k, v)| (variant(c, &k), v)).collect();
}

fn vary_member(c: &mut crate::choice::Choices, m: &mut CMember, name: bool) {
    if name {
        m.id = variant(c, &m.id);
    }
    m.target = variant(c, &m.target);
    vary_traits(c, &mut m.traits);
}

fn vary_body(c: &mut crate::choice::Choices, b: &mut CBody) {
    match b {
        CBody::List(m) | CBody::Set(m) => vary_member(c, m, false),
        CBody::Map(k, v) => {
            vary_member(c, k, false);
            vary_member(c, v, false);
        }
        CBody::Structure(ms) | CBody::Union(ms) => {
            *ms = std::mem::take(ms)
                .into_values()
                .map(|mut m| {
                    vary_member(c, &mut m, true);
                    (m.id.clone(), m)
                })
                .collect();
        }
        CBody::Service { operations, resources, renames, .. } => {
            for x in operations.iter_mut().chain(resources) {
                *x = variant(c, x);
            }
            *renames = std::mem::take(renames)
                .into_iter()
                .map(|(k, v)| (variant(c, &k), variant(c, &v)))
                .collect();
        }
        CBody::Operation { input, output, errors } => {
            for x in input.iter_mut().chain(output).chain(errors) {
                *x = variant(c, x);
            }
        }
        CBody::Resource(r) => {
            r.identifiers = std::mem::take(&mut r.identifiers)
                .into_iter()
                .map(|(k, v)| (variant(c, &k), variant(c, &v)))
                .collect();
            for x in r.lifecycle.values_mut() {
                *x = variant(c, x);
            }
            for x in r.operations.iter_mut().chain(&mut r.collection_operations).chain(&mut r.resources) {
                *x = variant(c, x);
            }
        }
        _ => {}
    }
}

fn vary_op(c: &mut crate::choice::Choices, op: &mut Op) {
    match op {
        Op::AddMeta(..) | Op::RemoveMeta(_) => {}
        Op::AddShape(id, s) => {
            *id = variant(c, id);
            vary_traits(c, &mut s.traits);
            vary_body(c, &mut s.body);
        }
        Op::RemoveShape(id) => *id = variant(c, id),
        Op::Merge(m) => {
            m.shapes = std::mem::take(&mut m.shapes)
                .into_iter()
                .map(|(id, mut s)| {
                    vary_traits(c, &mut s.traits);
                    vary_body(c, &mut s.body);
                    (variant(c, &id), s)
                })
                .collect();
        }
        Op::Apply(id, t, _) => {
            *id = variant(c, id);
            *t = variant(c, t);
        }
        Op::Append(id, t) => {
            *id = variant(c, id);
            vary_traits(c, t);
        }
        Op::RemoveTrait(id, t) => {
            *id = variant(c, id);
            *t = variant(c, t);
        }
        Op::SetBody(id, b) => {
            *id = variant(c, id);
            vary_body(c, b);
        }
        Op::Edit(id, e) => {
            *id = variant(c, id);
            match e {
                Edit::AddMember(m) => vary_member(c, m, true),
                Edit::RemoveMember(k) => *k = variant(c, k),
                Edit::AddTo(_, v) | Edit::SetList(_, v) => {
                    for x in v {
                        *x = variant(c, x);
                    }
                }
                Edit::RemoveFrom(_, v) => *v = variant(c, v),
                Edit::Slot(_, v) => {
                    if let Some(v) = v {
                        *v = variant(c, v);
                    }
                }
                Edit::Key(k, v) => {
                    *k = variant(c, k);
                    if let Some(v) = v {
                        *v = variant(c, v);
                    }
                }
                Edit::Member(_, m) => vary_member(c, m, false),
                Edit::Version(_) => {}
                Edit::SetKeys(m) => {
                    *m = m.iter().map(|(k, v)| (variant(c, k), variant(c, v))).collect();
                }
                Edit::ByShape(_, id, _) => *id = variant(c, id),
            }
        }
    }
}

fn fold_op(op: &Op) -> Op {
    let l = |s: &String| low(s);
    let lv = |v: &[String]| v.iter().map(|s| low(s)).collect::<Vec<_>>();
    match op {
        Op::AddMeta(..) | Op::RemoveMeta(_) => op.clone(),
        Op::AddShape(id, s) => Op::AddShape(low(id), reference::fold_shape(s)),
        Op::RemoveShape(id) => Op::RemoveShape(low(id)),
        Op::Merge(m) => Op::Merge(fold(m)),
        Op::Apply(id, t, v) => Op::Apply(low(id), low(t), v.clone()),
        Op::Append(id, t) => Op::Append(low(id), reference::fold_traits(t)),
        Op::RemoveTrait(id, t) => Op::RemoveTrait(low(id), low(t)),
        Op::SetBody(id, b) => Op::SetBody(low(id), reference::fold_body(b)),
        Op::Edit(id, e) => Op::Edit(
            low(id),
            match e {
                Edit::AddMember(m) => Edit::AddMember(CMember {
                    id: low(&m.id),
                    target: low(&m.target),
                    traits: reference::fold_traits(&m.traits),
                }),
                Edit::RemoveMember(k) => Edit::RemoveMember(low(k)),
                Edit::AddTo(w, v) => Edit::AddTo(*w, lv(v)),
                Edit::SetList(w, v) => Edit::SetList(*w, lv(v)),
                Edit::RemoveFrom(w, v) => Edit::RemoveFrom(*w, low(v)),
                Edit::Slot(k, v) => Edit::Slot(k.clone(), v.as_ref().map(l)),
                Edit::Key(k, v) => Edit::Key(low(k), v.as_ref().map(l)),
                Edit::Member(w, m) => Edit::Member(*w, CMember {
                    id: low(&m.id),
                    target: low(&m.target),
                    traits: reference::fold_traits(&m.traits),
                }),
                Edit::Version(v) => Edit::Version(v.clone()),
                Edit::SetKeys(m) => Edit::SetKeys(m.iter().map(|(k, v)| (low(k), low(v))).collect()),
                Edit::ByShape(s, id, b) => Edit::ByShape(s.clone(), low(id), reference::fold_body(b)),
            },
        ),
    }
}

fn run19(run: &mut Run) -> Outcome {
    match run.c.below(4) {
        0 => laws(run),
        1 => loaded(run),
        _ => histories(run),
    }
}

fn histories(run: &mut Run) -> Outcome {
    let w = world(&mut run.c);
    let mut m = CModel::default(); // folded
    let mut ops: Vec<Op> = Vec::new();
    let mut wants = Vec::new();
    let mut spelled: BTreeMap<String, String> = BTreeMap::new();
    let most = *run.c.pick(&[4u64, 8, 16]);
    let n = run.c.range(1, most);
    let w = World {
        ids: w.ids.iter().map(|s| low(s)).collect(),
        names: Names {
            ids: w.names.ids.iter().map(|s| low(s)).collect(),
        },
        mix: w.mix,
    };
    for _ in 0..n {
        let Some(mut op) = some_op(&mut run.c, &w, &m) else { continue };
        vary_op(&mut run.c, &mut op);
        let folded = fold_op(&op);
        let mut next = m.clone();
        let r = step(&mut next, &folded);
        if r == Err(Refusal::Open) {
            continue;
        }
        let ids: Vec<String> = match &op {
            Op::AddShape(id, _) => vec![id.clone()],
            Op::Merge(o) => o.shapes.keys().cloned().collect(),
            _ => vec![],
        };
        for id in ids {
            if let Some(old) = spelled.insert(low(&id), id.clone()) {
                run.nontrivial |= old != id;
            }
        }
        ops.push(op);
        if r.is_ok() {
            m = next;
            wants.push((Ok(()), m.clone()));
        } else {
            let on = matches!(ops.last(), Some(Op::AddMeta(..)));
            wants.push((r, m.clone()));
            if !on {
                break;
            }
        }
    }
    run.mark(format!("{ops:?}").as_bytes());
    run.log(|| format!("{ops:#?}"));
    let mut ask: Vec<String> = Vec::new();
    for id in &w.ids {
        ask.push(variant(&mut run.c, id));
        ask.push(variant(&mut run.c, id));
    }
    ask.push(variant(&mut run.c, "example.alpha#Missing"));
    let members: Vec<String> = gen::MEMBERS.iter().map(|s| variant(&mut run.c, s)).collect();
    for _ in 0..2 {
        let (hash, order) = (run.c.seed(), run.c.seed());
        let seen = replay(run, &ops, hash, order, &ask, &members)?;
        judge(&ops, &seen, &wants, &fold)?;
    }
    Ok(())
}

/// A document that spells the IDs of its shapes differently, read by both readers' ways in.
fn loaded(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.max_shapes = 4;
    mix.unresolved = false;
    let m = gen::model(&mut run.c, &mix);
    // the same shapes again under other spellings, as a model of their own
    let mut other = CModel::default();
    for (id, s) in &m.shapes {
        let mut s = s.clone();
        for t in crate::idl::members_mut(&mut s.body) {
            t.traits.retain(|_, v| !matches!(v, CVal::Arr(_)));
        }
        s.traits.retain(|_, v| !matches!(v, CVal::Arr(_)));
        vary_traits(&mut run.c, &mut s.traits);
        vary_body(&mut run.c, &mut s.body);
        if run.c.below(6) == 5 {
            if let CBody::Simple(k) = &mut s.body {
                *k = if k == "string" { "blob".into() } else { "string".into() };
            }
        }
        let v = variant(&mut run.c, id);
        run.nontrivial |= v != *id;
        other.shapes.insert(v, s);
    }
    let mut want = fold(&m);
    let refused = reference::merge(&mut want, &fold(&other));
    if refused == Err(Refusal::Open) {
        return Ok(());
    }
    run.mark(to_json(&other).to_string().as_bytes());
    let one_document = run.c.below(2) == 1;
    let texts: Vec<String> = if one_document && !other.shapes.keys().any(|k| m.shapes.contains_key(k)) {
        let mut both = m.clone();
        both.shapes.extend(other.shapes.clone());
        vec![gen::foreign_json(&mut run.c, &both)]
    } else {
        vec![gen::foreign_json(&mut run.c, &m), gen::foreign_json(&mut run.c, &other)]
    };
    let swap = run.c.below(2) == 1;
    run.log(|| format!("{texts:#?}"));
    for _ in 0..2 {
        let seed = run.c.seed();
        let mut texts = texts.clone();
        if swap {
            texts.reverse();
        }
        let got = run
            .pure_life("loading", seed, move || {
                let mut out: Option<Model> = None;
                for t in &texts {
                    let m = crate::formats::Lang::Json.read_bytes(t.as_bytes())?;
                    match &mut out {
                        None => out = Some(m),
                        Some(o) => o.merge(m).map_err(|e| e.to_string())?,
                    }
                }
                Ok::<_, String>(out.map(|m| canon(&m)).unwrap_or_default())
            })
            .ok("loading")?;
        match (&refused, got) {
            (Ok(()), Ok(c)) => {
                if c.shapes.len() != want.shapes.len() {
                    return violation(
                        "shapes whose IDs differ only in case are kept apart",
                        format!("{:?}, expected {:?}", c.shapes.keys(), want.shapes.keys()),
                    );
                }
                if let Some((what, how)) = diff(&want, &fold(&c)) {
                    return violation(format!("loading: wrong {what}"), how);
                }
            }
            (Ok(()), Err(e)) => return violation("loading refused without a conflict", e),
            (Err(r), Ok(_)) => {
                return violation(format!("loading: a conflict ({r:?}) was resolved silently"), format!("{other:?}"))
            }
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    t.hash(&mut h);
    h.finish()
}

/// The laws every identity type has to keep, on a drawn pool of spellings.
fn check_laws<T>(kind: &str, pool: &[String]) -> Result<(), String>
where
    T: FromStr + std::fmt::Display + Clone + Eq + Ord + Hash + std::fmt::Debug,
{
    let mut v: Vec<(String, T)> = Vec::new();
    for s in pool {
        let t = T::from_str(s).map_err(|_| format!("{kind} {s} is refused"))?;
        if t.to_string() != *s {
            return Err(format!("{kind} {s} prints as {t}"));
        }
        v.push((s.clone(), t));
    }
    let mut map: HashMap<T, usize> = HashMap::new();
    let mut set: HashSet<T> = HashSet::new();
    let mut tree: BTreeMap<T, usize> = BTreeMap::new();
    let mut want: BTreeMap<String, usize> = BTreeMap::new();
    for (i, (s, t)) in v.iter().enumerate() {
        map.insert(t.clone(), i);
        tree.insert(t.clone(), i);
        let new = set.insert(t.clone());
        if new == want.contains_key(&low(s)) {
            return Err(format!("{kind} {s}: a set says new = {new}"));
        }
        want.insert(low(s), i);
        for (s2, t2) in &v {
            let same = low(s) == low(s2);
            if (t == t2) != same || (t != t2) == same {
                return Err(format!("{kind} {s} == {s2} is {}", t == t2));
            }
            if same && hash(t) != hash(t2) {
                return Err(format!("{kind} {s} and {s2} hash apart"));
            }
            if (t.cmp(t2) == Ordering::Equal) != same {
                return Err(format!("{kind} {s} cmp {s2} is {:?}", t.cmp(t2)));
            }
            if t.cmp(t2) != t2.cmp(t).reverse() || t.partial_cmp(t2) != Some(t.cmp(t2)) {
                return Err(format!("{kind} {s}, {s2} are not ordered consistently"));
            }
            for (s3, t3) in &v {
                if t <= t2 && t2 <= t3 && !(t <= t3) {
                    return Err(format!("{kind} {s} <= {s2} <= {s3}, but not {s} <= {s3}"));
                }
            }
        }
    }
    if map.len() != want.len() || set.len() != want.len() || tree.len() != want.len() {
        return Err(format!("{kind}: {} of {} identities in a map, {} in a tree", map.len(), want.len(), tree.len()));
    }
    for (s, t) in &v {
        if map.get(t) != want.get(&low(s)) || tree.get(t) != want.get(&low(s)) || !set.contains(t) {
            return Err(format!("{kind} {s} is not found"));
        }
    }
    Ok(())
}

fn laws(run: &mut Run) -> Outcome {
    let pool = |c: &mut crate::choice::Choices, base: &[&str]| -> Vec<String> {
        let n = c.range(2, 9);
        let few = c.range(1, 4) as usize;
        let bases: Vec<String> = (0..few).map(|_| c.pick(base).to_string()).collect();
        (0..n)
            .map(|_| {
                let b = c.pick(&bases).clone();
                variant(c, &b)
            })
            .collect()
    };
    let names: Vec<&str> = gen::NAMES.iter().chain(gen::MEMBERS.iter()).copied().collect();
    let ids = pool(&mut run.c, &names);
    let spaces = pool(&mut run.c, &gen::NAMESPACES);
    let n = run.c.range(2, 9);
    let shapes: Vec<String> = (0..n)
        .map(|_| {
            let ns = run.c.pick(&spaces).clone();
            let name = run.c.pick(&ids).clone();
            match run.c.below(3) {
                0 => format!("{ns}#{name}${}", run.c.pick(&ids)),
                _ => format!("{ns}#{name}"),
            }
        })
        .collect();
    run.nontrivial = true;
    run.mark(format!("{ids:?}{spaces:?}{shapes:?}").as_bytes());
    run.log(|| format!("{ids:?} {spaces:?} {shapes:?}"));
    let seed = run.c.seed();
    let r = run
        .pure_life("identities", seed, move || {
            check_laws::<Identifier>("identifier", &ids)?;
            check_laws::<NamespaceID>("namespace", &spaces)?;
            check_laws::<ShapeID>("shape ID", &shapes)?;
            let split = |s: &str| -> (String, String, Option<String>) {
                let (ns, rest) = s.split_once('#').unwrap();
                match rest.split_once('$') {
                    Some((n, m)) => (ns.into(), n.into(), Some(m.into())),
                    None => (ns.into(), rest.into(), None),
                }
            };
            for s in &shapes {
                let id = sid(s);
                let (ns, name, member) = split(s);
                let parts = (
                    id.namespace().to_string(),
                    id.shape_name().to_string(),
                    id.member_name().as_ref().map(|m| m.to_string()),
                );
                if parts != (ns.clone(), name.clone(), member.clone()) {
                    return Err(format!("{s} has the parts {parts:?}"));
                }
                let only = format!("{ns}#{name}");
                if id.is_member() != member.is_some() || id.shape_only().to_string() != only {
                    return Err(format!("{s}: is_member {}, shape_only {}", id.is_member(), id.shape_only()));
                }
                if nsid(&ns).make_shape(ident(&name)).to_string() != only {
                    return Err(format!("make_shape of {s}"));
                }
                if let Some(m) = &member {
                    if nsid(&ns).make_member(ident(&name), ident(m)).to_string() != *s {
                        return Err(format!("make_member of {s}"));
                    }
                }
                for t in &shapes {
                    let other = sid(t);
                    let (ns2, name2, member2) = split(t);
                    let near = low(&ns) == low(&ns2);
                    if id.is_in_same_namespace(&other) != near {
                        return Err(format!("{s} in the namespace of {t}: {}", !near));
                    }
                    let of = member.is_none() && member2.is_some() && near && low(&name) == low(&name2);
                    if id.is_valid_member(&other) != of {
                        return Err(format!("{t} a member of {s}: {}", !of));
                    }
                }
            }
            Ok(())
        })
        .ok("comparing identities")?;
    if let Err(e) = r {
        return violation("a law of identity is broken", e);
    }
    Ok(())
}
