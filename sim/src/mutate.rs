//! One difference between two models.

use crate::canon::*;
use crate::choice::Choices;
use crate::gen::{self, Mix, Names};
use crate::idl::{members_mut, name_of, ns_of};
use std::collections::BTreeMap;

/// The model up to what the Smithy semantic model does not distinguish: lists of operations,
/// resources and errors are sets, and a number is its value however it is held.
pub fn norm(m: &CModel) -> CModel {
    let mut m = m.clone();
    for v in m.metadata.values_mut() {
        *v = norm_val(v);
    }
    for s in m.shapes.values_mut() {
        norm_shape(s);
    }
    m
}

pub fn norm_val(v: &CVal) -> CVal {
    match v {
        CVal::Float(f) if f.fract() == 0.0 && f.abs() < 9.0e18 => CVal::Int(*f as i64),
        CVal::Arr(a) => CVal::Arr(a.iter().map(norm_val).collect()),
        CVal::Obj(o) => CVal::Obj(o.iter().map(|(k, v)| (k.clone(), norm_val(v))).collect()),
        v => v.clone(),
    }
}

pub fn norm_shape(s: &mut CShape) {
    for v in s.traits.values_mut() {
        *v = norm_val(v);
    }
    for m in members_mut(&mut s.body) {
        for v in m.traits.values_mut() {
            *v = norm_val(v);
        }
    }
    for l in lists_mut(&mut s.body) {
        l.sort();
    }
}

/// The lists of references of a service shape.
pub fn lists_mut(b: &mut CBody) -> Vec<&mut Vec<String>> {
    match b {
        CBody::Service { operations, resources, .. } => vec![operations, resources],
        CBody::Operation { errors, .. } => vec![errors],
        CBody::Resource(r) => vec![&mut r.operations, &mut r.collection_operations, &mut r.resources],
        _ => vec![],
    }
}

fn nth_mut<'a, V>(c: &mut Choices, m: &'a mut BTreeMap<String, V>) -> Option<(&'a String, &'a mut V)> {
    if m.is_empty() {
        return None;
    }
    let i = c.size(m.len());
    m.iter_mut().nth(i)
}

fn nth_key<V>(c: &mut Choices, m: &BTreeMap<String, V>) -> Option<String> {
    if m.is_empty() {
        return None;
    }
    let i = c.size(m.len());
    m.keys().nth(i).cloned()
}

fn fresh<V>(m: &BTreeMap<String, V>, base: &str) -> String {
    (0..)
        .map(|i| format!("{base}{i}"))
        .find(|k| !m.keys().any(|x| x.eq_ignore_ascii_case(k)))
        .unwrap()
}

/// Change one leaf, key or element of a value.
pub fn val(c: &mut Choices, mix: &Mix, v: &mut CVal) {
    match v {
        CVal::Arr(a) if !a.is_empty() => match c.below(5) {
            0 => {
                let i = c.size(a.len());
                a.remove(i);
            }
            1 => {
                let i = c.size(a.len() + 1);
                let x = gen::val(c, mix, 1);
                a.insert(i, x);
            }
            2 if a.len() > 1 => {
                let i = c.size(a.len());
                let j = c.size(a.len());
                if i == j {
                    a.swap(0, 1);
                } else {
                    a.swap(i, j);
                }
            }
            _ => {
                let i = c.size(a.len());
                val(c, mix, &mut a[i]);
            }
        },
        CVal::Obj(o) if !o.is_empty() => match c.below(5) {
            0 => {
                let k = nth_key(c, o).unwrap();
                o.remove(&k);
            }
            1 => {
                let k = fresh(o, "new");
                let x = gen::val(c, mix, 1);
                o.insert(k, x);
            }
            2 => {
                let k = nth_key(c, o).unwrap();
                let x = o.remove(&k).unwrap();
                let near = if mix.wild_keys { format!("{k} ") } else { format!("{k}x") };
                let k = if c.below(2) == 1 && !o.contains_key(&near) { near } else { fresh(o, "renamed") };
                o.insert(k, x);
            }
            _ => {
                let (_, x) = nth_mut(c, o).unwrap();
                val(c, mix, x);
            }
        },
        CVal::Str(s) if c.below(2) == 1 => match c.below(3) {
            1 if s.chars().any(|c| c.is_ascii_alphabetic()) => {
                // the same in another case
                let at = s.find(|c: char| c.is_ascii_alphabetic()).unwrap();
                let other = s[at..at + 1].chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
                s.replace_range(at..at + 1, &other);
            }
            2 if mix.wild_strings => s.push(' '),
            _ => s.push('x'),
        },
        CVal::Int(i) if c.below(2) == 1 => *i = i.wrapping_add(1),
        CVal::Bool(b) if c.below(2) == 1 => *b = !*b,
        CVal::Float(f) if c.below(2) == 1 => *f = *f + 0.5,
        _ => *v = gen::val(c, mix, 1),
    }
}

fn traits(c: &mut Choices, mix: &Mix, names: &Names, t: &mut CTraits) -> &'static str {
    match c.below(4) {
        0 => {
            if let Some(k) = nth_key(c, t) {
                t.remove(&k);
            }
            "trait removed"
        }
        1 => {
            let id = gen::trait_id(c, mix, names);
            let v = gen::val(c, mix, 1);
            t.entry(id).or_insert(v);
            "trait added"
        }
        2 => {
            if let Some(k) = nth_key(c, t) {
                let v = t.remove(&k).unwrap();
                let id = gen::trait_id(c, mix, names);
                t.insert(id, v);
            }
            "trait replaced"
        }
        _ => {
            if let Some((_, v)) = nth_mut(c, t) {
                val(c, mix, v);
            }
            "trait value"
        }
    }
}

fn refs(c: &mut Choices, mix: &Mix, names: &Names, l: &mut Vec<String>) -> &'static str {
    match c.below(if mix.repeats { 4 } else { 3 }) {
        3 if !l.is_empty() => {
            let i = c.size(l.len());
            let t = l[i].clone();
            l.push(t);
            "reference repeated"
        }
        0 if !l.is_empty() => {
            let i = c.size(l.len());
            l.remove(i);
            "reference removed"
        }
        1 if !l.is_empty() => {
            let i = c.size(l.len());
            let t = gen::target(c, mix, names);
            if !l.contains(&t) {
                l[i] = t;
            }
            "reference changed"
        }
        _ => {
            let t = gen::target(c, mix, names);
            if !l.contains(&t) {
                l.push(t);
            }
            "reference added"
        }
    }
}

fn opt(c: &mut Choices, mix: &Mix, names: &Names, o: &mut Option<String>) {
    *o = match o {
        Some(_) if c.below(2) == 1 => None,
        _ => Some(gen::target(c, mix, names)),
    };
}

fn body(c: &mut Choices, mix: &Mix, names: &Names, b: &mut CBody) -> &'static str {
    match b {
        CBody::Simple(s) => {
            *s = c.pick(&SIMPLE).to_string();
            "simple type"
        }
        CBody::List(m) => {
            if c.below(3) == 0 {
                *b = CBody::Set(m.clone());
                "list to set"
            } else {
                member(c, mix, names, m)
            }
        }
        CBody::Set(m) => {
            if c.below(3) == 0 {
                *b = CBody::List(m.clone());
                "set to list"
            } else {
                member(c, mix, names, m)
            }
        }
        CBody::Map(k, v) => match c.below(3) {
            0 => {
                std::mem::swap(&mut k.target, &mut v.target);
                "key and value swapped"
            }
            1 => member(c, mix, names, k),
            _ => member(c, mix, names, v),
        },
        CBody::Structure(m) | CBody::Union(m) => match c.below(6) {
            0 => {
                let m = m.clone();
                *b = match b {
                    CBody::Union(_) => CBody::Structure(m),
                    _ => CBody::Union(m),
                };
                "structure or union"
            }
            1 => {
                let id = fresh(m, "added");
                m.insert(
                    id.clone(),
                    CMember {
                        id,
                        target: gen::target(c, mix, names),
                        traits: CTraits::new(),
                    },
                );
                "member added"
            }
            2 => {
                if let Some(k) = nth_key(c, m) {
                    m.remove(&k);
                }
                "member removed"
            }
            3 => {
                if let Some(k) = nth_key(c, m) {
                    let mut x = m.remove(&k).unwrap();
                    x.id = fresh(m, "renamed");
                    m.insert(x.id.clone(), x);
                }
                "member renamed"
            }
            _ => match nth_mut(c, m) {
                Some((_, x)) => member(c, mix, names, x),
                None => "nothing",
            },
        },
        CBody::Service { version, operations, resources, renames } => match c.below(7) {
            0 => {
                version.push('x');
                "version"
            }
            1 => refs(c, mix, names, operations),
            2 => refs(c, mix, names, resources),
            3 => {
                std::mem::swap(operations, resources);
                "operations and resources swapped"
            }
            4 => {
                let t = gen::target(c, mix, names);
                renames.insert(t, "Renamed".to_string());
                "rename added"
            }
            5 => {
                if let Some(k) = nth_key(c, renames) {
                    renames.remove(&k);
                }
                "rename removed"
            }
            _ => {
                if let Some((_, v)) = nth_mut(c, renames) {
                    v.push('x');
                }
                "rename changed"
            }
        },
        CBody::Operation { input, output, errors } => match c.below(4) {
            0 => {
                opt(c, mix, names, input);
                "input"
            }
            1 => {
                opt(c, mix, names, output);
                "output"
            }
            2 => {
                std::mem::swap(input, output);
                "input and output swapped"
            }
            _ => refs(c, mix, names, errors),
        },
        CBody::Resource(r) => match c.below(10) {
            0 => refs(c, mix, names, &mut r.operations),
            1 => refs(c, mix, names, &mut r.collection_operations),
            2 => refs(c, mix, names, &mut r.resources),
            3 => {
                match c.below(3) {
                    0 => std::mem::swap(&mut r.operations, &mut r.collection_operations),
                    1 => std::mem::swap(&mut r.operations, &mut r.resources),
                    _ => std::mem::swap(&mut r.collection_operations, &mut r.resources),
                }
                "lists swapped"
            }
            4 => {
                let k = fresh(&r.identifiers, "ident");
                r.identifiers.insert(k, gen::target(c, mix, names));
                "identifier added"
            }
            5 => {
                if let Some(k) = nth_key(c, &r.identifiers) {
                    r.identifiers.remove(&k);
                }
                "identifier removed"
            }
            6 => {
                if let Some((_, t)) = nth_mut(c, &mut r.identifiers) {
                    *t = gen::target(c, mix, names);
                }
                "identifier changed"
            }
            7 => {
                if let Some(k) = nth_key(c, &r.lifecycle) {
                    let t = r.lifecycle.remove(&k).unwrap();
                    let l = *c.pick(&["create", "put", "read", "update", "delete", "list"]);
                    r.lifecycle.insert(l.to_string(), t);
                }
                "lifecycle operation moved"
            }
            _ => {
                let l = *c.pick(&["create", "put", "read", "update", "delete", "list"]);
                if c.below(2) == 1 {
                    r.lifecycle.remove(l);
                } else {
                    r.lifecycle.insert(l.to_string(), gen::target(c, mix, names));
                }
                "lifecycle operation"
            }
        },
        CBody::Unresolved => {
            *b = gen::body(c, mix, names);
            "unresolved"
        }
    }
}

fn member(c: &mut Choices, mix: &Mix, names: &Names, m: &mut CMember) -> &'static str {
    if c.below(2) == 1 {
        traits(c, mix, names, &mut m.traits)
    } else {
        m.target = gen::target(c, mix, names);
        "target"
    }
}

/// A copy of the shape with one thing of its body changed.
pub fn shape_body(c: &mut Choices, mix: &Mix, names: &Names, s: &CShape) -> Option<CShape> {
    let mut o = s.clone();
    body(c, mix, names, &mut o.body);
    let (mut a, mut b) = (s.clone(), o.clone());
    norm_shape(&mut a);
    norm_shape(&mut b);
    (a != b).then_some(o)
}

/// A copy of the model with one thing changed, or `None` if the change made no difference.
pub fn one(c: &mut Choices, mix: &Mix, m: &CModel) -> Option<(&'static str, CModel)> {
    let names = Names {
        ids: m.shapes.keys().filter(|k| !k.contains('$')).cloned().collect(),
    };
    if names.ids.is_empty() {
        return None;
    }
    let mut o = m.clone();
    let what = match c.below(12) {
        0 => {
            let k = fresh(&o.metadata, "extra");
            let v = gen::val(c, mix, 1);
            o.metadata.insert(k, v);
            "metadata added"
        }
        1 => {
            if let Some(k) = nth_key(c, &o.metadata) {
                o.metadata.remove(&k);
            }
            "metadata removed"
        }
        2 => {
            if let Some((_, v)) = nth_mut(c, &mut o.metadata) {
                val(c, mix, v);
            }
            "metadata value"
        }
        3 => {
            let k = nth_key(c, &o.shapes)?;
            o.shapes.remove(&k);
            "shape removed"
        }
        4 => {
            let id = fresh(&o.shapes, "example.alpha#Extra");
            let body = gen::body(c, mix, &names);
            o.shapes.insert(
                id,
                CShape {
                    traits: CTraits::new(),
                    body,
                },
            );
            "shape added"
        }
        5 => {
            let k = names.ids[c.size(names.ids.len())].clone();
            let s = o.shapes.remove(&k).unwrap();
            let id = if c.below(2) == 1 {
                format!("other.place#{}", name_of(&k))
            } else {
                format!("{}#Renamed", ns_of(&k))
            };
            o.shapes.insert(id, s);
            "shape renamed"
        }
        6 | 7 => {
            let (_, s) = nth_mut(c, &mut o.shapes)?;
            traits(c, mix, &names, &mut s.traits)
        }
        _ => {
            let k = names.ids[c.size(names.ids.len())].clone();
            body(c, mix, &names, &mut o.shapes.get_mut(&k).unwrap().body)
        }
    };
    if norm(&o) == norm(m) {
        None
    } else {
        Some((what, o))
    }
}
