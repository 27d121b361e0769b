//! What the standard linters and validators have to report, from their documented rules.

use crate::canon::*;
use crate::idl::{members_of, name_of, ns_of};
use crate::choice::Choices;
use crate::gen::{self, Mix, Names};
use atelier_core::action::ActionIssue;
use heck::{CamelCase, MixedCase, SnakeCase};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Issue {
    pub level: String,
    pub reporter: String,
    pub message: String,
    pub locus: Option<String>,
}

pub fn seen(i: &ActionIssue) -> Issue {
    Issue {
        level: i.level().to_string(),
        reporter: i.reporter().clone(),
        message: i.message().clone(),
        locus: i.locus().as_ref().map(|l| l.to_string()),
    }
}

pub fn sorted(v: &[ActionIssue]) -> Vec<Issue> {
    let mut v: Vec<Issue> = v.iter().map(seen).collect();
    v.sort();
    v
}

fn issue(level: &str, reporter: &str, message: String, locus: Option<&str>) -> Issue {
    Issue {
        level: level.into(),
        reporter: reporter.into(),
        message,
        locus: locus.map(|s| s.to_string()),
    }
}

fn shape_part(id: &str) -> &str {
    name_of(id).split('$').next().unwrap()
}

// ------------------------------------------------------------------------------------------------
// Linters
// ------------------------------------------------------------------------------------------------

pub fn naming(m: &CModel) -> Vec<Issue> {
    let who = "NamingConventions";
    let mut v = Vec::new();
    let shape = |id: &str, what: &str| {
        let n = shape_part(id);
        let good = n.to_camel_case();
        (good != n).then(|| {
            issue("info", who, format!("{what} shape names should conform to UpperCamelCase, i.e. {good}"), Some(id))
        })
    };
    let a_trait = |id: &str| {
        let n = shape_part(id);
        let good = n.to_mixed_case();
        (good != n).then(|| issue("info", who, format!("Trait names should conform to lowerCamelCase, i.e. {good}"), Some(id)))
    };
    for (id, s) in &m.shapes {
        if s.traits.keys().any(|k| k.eq_ignore_ascii_case("smithy.api#trait")) {
            v.extend(a_trait(id));
        } else {
            v.extend(shape(id, "Defined"));
        }
        v.extend(s.traits.keys().filter_map(|t| a_trait(t)));
        if let CBody::Structure(_) | CBody::Union(_) = s.body {
            for mem in members_of(&s.body) {
                let good = mem.id.to_mixed_case();
                if good != mem.id {
                    v.push(issue("info", who, format!("Member names should conform to lowerCamelCase, i.e. {good}"), Some(id)));
                }
                v.extend(shape(&mem.target, "References to"));
                v.extend(mem.traits.keys().filter_map(|t| a_trait(t)));
            }
        }
    }
    v.sort();
    v
}

const UNWELCOME: [&str; 5] = ["blacklist", "kill", "master", "slave", "whitelist"];

pub fn terms(m: &CModel) -> Vec<Issue> {
    let mut places: BTreeSet<(String, String)> = BTreeSet::new();
    let mut id_at = |id: &str| {
        for part in ns_of(id).split('.') {
            places.insert((part.to_string(), id.to_string()));
        }
        for part in name_of(id).split('$') {
            places.insert((part.to_string(), id.to_string()));
        }
    };
    let mut members: Vec<(String, String)> = Vec::new();
    for (id, s) in &m.shapes {
        id_at(id);
        s.traits.keys().for_each(|t| id_at(t));
        if let CBody::Structure(_) | CBody::Union(_) = s.body {
            for mem in members_of(&s.body) {
                members.push((mem.id.clone(), id.clone()));
                id_at(&mem.target);
                mem.traits.keys().for_each(|t| id_at(t));
            }
        }
    }
    places.extend(members);
    let mut v = Vec::new();
    for (name, place) in &places {
        for word in name.to_snake_case().split('_') {
            if UNWELCOME.contains(&word) {
                v.push(issue(
                    "warning",
                    "UnwelcomeTerms",
                    format!("The term '{word}' is considered either insensitive, divisive, or otherwise unwelcome"),
                    Some(place),
                ));
            }
        }
    }
    v.sort();
    v
}

// ------------------------------------------------------------------------------------------------
// Validators
// ------------------------------------------------------------------------------------------------

pub fn unresolved(m: &CModel) -> Vec<Issue> {
    let mut v: Vec<Issue> = m
        .shapes
        .iter()
        .filter(|(_, s)| s.body == CBody::Unresolved)
        .map(|(id, _)| {
            issue(
                "error",
                "NoUnresolvedReferences",
                format!("The model has an unresolved reference to shape '{id}'"),
                None,
            )
        })
        .collect();
    v.sort();
    v
}

pub fn types(m: &CModel) -> Vec<Issue> {
    let who = "CorrectTypeReferences";
    let by_name: BTreeMap<String, &CBody> = m.shapes.iter().map(|(k, s)| (k.to_lowercase(), &s.body)).collect();
    let find = |t: &str| by_name.get(&t.to_lowercase()).copied();
    let prelude = |t: &str| ns_of(t) == "smithy.api";
    let mut v = Vec::new();
    for (id, s) in &m.shapes {
        let ty = |member: &str, t: &str| match find(t) {
            Some(CBody::Service { .. } | CBody::Operation { .. } | CBody::Resource(_)) => Some(issue(
                "error",
                who,
                format!("{id} member {member} must not refer to a service, operation, resource or member."),
                Some(id),
            )),
            None if !prelude(t) => Some(issue(
                "warning",
                who,
                format!("{id} member {member}'s type ({t}) cannot be resolved to a shape in this model."),
                Some(id),
            )),
            _ => None,
        };
        let target = |member: &str, t: &str, operation: bool| match (find(t), operation) {
            (Some(CBody::Operation { .. }), true) | (Some(CBody::Resource(_)), false) => None,
            (Some(_), true) => Some(issue("error", who, format!("{member} must be an operation."), Some(id))),
            (Some(_), false) => Some(issue("error", who, format!("{member} must be a resource."), Some(id))),
            (None, _) if !prelude(t) => Some(issue(
                "warning",
                who,
                format!("{member}'s type ({t}) cannot be resolved to a shape in this model."),
                Some(id),
            )),
            _ => None,
        };
        match &s.body {
            CBody::Simple(_) => {
                if s.traits.is_empty() {
                    v.push(issue(
                        "info",
                        who,
                        format!("The simple shape ({id}) is simply a synonym, did you mean to add any constraint traits?"),
                        Some(id),
                    ));
                }
            }
            CBody::Service { operations, resources, .. } => {
                v.extend(operations.iter().filter_map(|t| target("Service operation", t, true)));
                v.extend(resources.iter().filter_map(|t| target("Service resource", t, false)));
            }
            CBody::Operation { input, output, errors } => {
                v.extend(input.iter().filter_map(|t| ty("input", t)));
                v.extend(output.iter().filter_map(|t| ty("output", t)));
                v.extend(errors.iter().filter_map(|t| ty("errors", t)));
            }
            CBody::Resource(r) => {
                v.extend(r.identifiers.iter().filter_map(|(k, t)| ty(k, t)));
                v.extend(
                    r.lifecycle
                        .iter()
                        .filter_map(|(k, t)| target(&format!("Resource operation '{k}'"), t, true)),
                );
                v.extend(r.operations.iter().filter_map(|t| target("Resource operation", t, true)));
                v.extend(
                    r.collection_operations
                        .iter()
                        .filter_map(|t| target("Resource collection operation", t, true)),
                );
                v.extend(r.resources.iter().filter_map(|t| target("Resource resource", t, false)));
            }
            b => v.extend(members_of(b).iter().filter_map(|x| ty(&x.id, &x.target))),
        }
    }
    v.sort();
    v
}

pub fn lint(m: &CModel) -> Vec<Issue> {
    let mut v = naming(m);
    v.extend(terms(m));
    v.sort();
    v
}

pub fn validation(m: &CModel, fail_fast: bool) -> Vec<Issue> {
    let mut v = unresolved(m);
    if !(fail_fast && !v.is_empty()) {
        v.extend(types(m));
    }
    v.sort();
    v
}

// ------------------------------------------------------------------------------------------------
// Models that give linters something to say
// ------------------------------------------------------------------------------------------------

pub const NAUGHTY: [&str; 22] = [
    "killMaster", "KillSwitch", "masterNode", "MasterNode", "slave_unit", "whitelist", "BlackList",
    "blacklisted", "blacklist_it", "Blacklist", "theWhitelist9", "ThingAsJSON", "URLThing", "HTTPServer2",
    "snake_case_name", "SHOUTING", "lowerCamel", "UpperCamel", "x9Y", "kill_kill", "Skill", "_master",
];

/// Unless the trait is there already, perhaps in another spelling.
fn add_trait(traits: &mut BTreeMap<String, CVal>, id: String, v: CVal) {
    if !traits.keys().any(|k| k.eq_ignore_ascii_case(&id)) {
        traits.insert(id, v);
    }
}

/// Names, targets and members among which are badly formed and unwelcome ones.
pub fn spiced(c: &mut Choices, mix: &Mix) -> CModel {
    let mut names = gen::names(c, mix);
    for id in names.ids.iter_mut() {
        if c.below(3) == 2 {
            let ns = if c.below(6) == 5 { "com.master.kill_it" } else { ns_of(id) };
            *id = format!("{ns}#{}", c.pick(&NAUGHTY));
        }
    }
    let mut all: Vec<String> = Vec::new();
    for id in names.ids {
        if !all.iter().any(|x| x.eq_ignore_ascii_case(&id)) {
            all.push(id);
        }
    }
    let names = Names { ids: all };
    let mut m = gen::model_with(c, mix, &names);
    for s in m.shapes.values_mut() {
        if c.below(5) == 4 {
            let id = format!("{}#{}", c.pick(&["com.master", "org.acme", "smithy.api"]), c.pick(&NAUGHTY));
            add_trait(&mut s.traits, id, CVal::Bool(true));
        }
        if let CBody::Structure(ms) | CBody::Union(ms) = &mut s.body {
            let old = std::mem::take(ms);
            for (_, mut x) in old {
                if c.below(3) == 2 {
                    x.id = c.pick(&NAUGHTY).to_string();
                }
                if c.below(6) == 5 {
                    x.target = format!("{}#{}", c.pick(&["com.slave", "example.alpha"]), c.pick(&NAUGHTY));
                }
                if c.below(6) == 5 {
                    add_trait(&mut x.traits, format!("org.acme#{}", c.pick(&NAUGHTY)), CVal::Int(1));
                }
                if c.below(12) == 11 && ns_of(&x.target) != "smithy.api" {
                    // the same shape, spelled differently
                    x.target = if c.below(2) == 1 { x.target.to_uppercase() } else { x.target.to_lowercase() };
                }
                if !ms.keys().any(|k| k.eq_ignore_ascii_case(&x.id)) {
                    ms.insert(x.id.clone(), x);
                }
            }
        }
    }
    m
}

pub fn describe(want: &[Issue], got: &[Issue]) -> String {
    let mut rest = got.to_vec();
    let mut missing = Vec::new();
    for w in want {
        match rest.iter().position(|g| g == w) {
            Some(i) => {
                rest.remove(i);
            }
            None => missing.push(w),
        }
    }
    format!("missing {:?}; unexpected {:?}", missing, rest)
}

/// What kind of issue is missing or unexpected.
pub fn kind_of_difference(want: &[Issue], got: &[Issue]) -> String {
    let mut rest = got.to_vec();
    for w in want {
        match rest.iter().position(|g| g == w) {
            Some(i) => {
                rest.remove(i);
            }
            None => return format!("missing {} of {}", w.level, w.reporter),
        }
    }
    match rest.first() {
        Some(r) => format!("unexpected {} of {}", r.level, r.reporter),
        None => "order".into(),
    }
}
