//! P25: texts that are no document of their language.

use super::*;
use crate::canon::*;
use crate::choice::Choices;
use crate::formats::{self, Lang};
use crate::gen::{self, Mix};
use crate::idl;
use crate::run::violation;
use crate::streams::*;
use serde_json::{Map, Value as J};
use simrt::Fs;

pub static P25: Prop = Prop {
    id: "P25",
    title: "A text that is no document, or that contradicts itself, is refused whole",
    run: run25,
    quick_runs: 120_000,
    recheck: 60,
    rule: "One breach of the format is put at a drawn place of a generated legal document (a section, shape, member, trait, target or name of the wrong type, missing, illegal or given twice with different meanings; brackets, separators, keywords, sections and statements of the IDL), and the text is read from memory, as a stream in drawn pieces, or as a file with short reads, each in a process with drawn hash keys; non-trivial: always.",
    real: &["atelier_json and atelier_smithy readers, grammar, builder", "atelier_core::io, identities", "serde_json, pest, std::io, std::fs"],
    stubs: STUB_STREAM,
    assumptions: &[
        "properties a format does not know, and the same JSON key twice, are left open",
        "what follows a breach is never legal for a reason of its own: each kind of breach was chosen so that no placement of it yields a legal document",
    ],
};

const BAD_IDS: [&str; 20] = [
    "", "x", "String", "a.b", "#x", "a.b#", "a.b#C#D", "a.b#C$", "a b#C", "a.b#1C", "a..b#C", ".a#C", "a.#C", "\u{e9}#C", "a.b#\u{e9}", "a.b#C$d$e",
    "a.b#C d", " a.b#C", "a.b#C\n", "a.b#_",
];
const MEMBER_IDS: [&str; 3] = ["a.b#C$d", "smithy.api#String$member", "example.alpha#Alpha$alpha"];
const BAD_NAMES: [&str; 12] = ["", "a b", "1", "1a", "\u{e9}", "a.b", "a#b", "a$b", "_", "-a", "a-b", "a\n"];

#[derive(Clone, Copy, PartialEq)]
enum Is {
    Object,
    Array,
    Text,
}

/// A value that is not of this type.
fn not(c: &mut Choices, is: Is) -> J {
    loop {
        let v = match c.below(12) {
            0 => J::Null,
            1 => J::Bool(true),
            2 => J::from(0),
            3 => J::from(1.0),
            4 => J::from(""),
            5 => J::from("a.b#C"),
            6 => J::Array(vec![]),
            7 => J::Array(vec![J::from("a.b#C")]),
            8 => serde_json::json!([{"target": "a.b#C"}]),
            9 => J::Object(Map::new()),
            10 => serde_json::json!({"a": 1}),
            _ => J::Bool(false),
        };
        let same = match is {
            Is::Object => v.is_object(),
            Is::Array => v.is_array(),
            Is::Text => v.is_string(),
        };
        if !same {
            return v;
        }
        // from a tape that has run out, the first alternative is of another type than any of these
    }
}

fn bad_id(c: &mut Choices) -> String {
    if c.below(4) == 3 {
        c.pick(&MEMBER_IDS).to_string()
    } else {
        c.pick(&BAD_IDS).to_string()
    }
}

/// What no `{"target": id}` is.
fn bad_target(c: &mut Choices) -> J {
    match c.below(4) {
        0 => not(c, Is::Object),
        1 => serde_json::json!({}),
        2 => {
            let v = not(c, Is::Text);
            serde_json::json!({ "target": v })
        }
        _ => serde_json::json!({ "target": bad_id(c) }),
    }
}

/// The same name in another case.
fn twin(c: &mut Choices, name: &str) -> String {
    let letters: Vec<usize> = name.char_indices().filter(|(_, ch)| ch.is_ascii_alphabetic()).map(|(i, _)| i).collect();
    let at = *c.pick(&letters);
    name.char_indices()
        .map(|(i, ch)| match i == at {
            true if ch.is_ascii_lowercase() => ch.to_ascii_uppercase(),
            true => ch.to_ascii_lowercase(),
            false => ch,
        })
        .collect()
}

fn other_value(v: &J) -> J {
    if *v == J::from("one") {
        J::from("another")
    } else {
        J::from("one")
    }
}

fn type_of(s: &J) -> &str {
    s.get("type").and_then(|t| t.as_str()).unwrap_or("")
}

/// The objects that describe members, of every shape: where they are, and under which names.
fn member_objects(doc: &J) -> Vec<Vec<String>> {
    let mut v = Vec::new();
    for (id, s) in doc["shapes"].as_object().into_iter().flatten() {
        let at = |path: &[&str]| {
            let mut p = vec!["shapes".to_string(), id.clone()];
            p.extend(path.iter().map(|s| s.to_string()));
            p
        };
        match type_of(s) {
            "list" | "set" => v.push(at(&["member"])),
            "map" => {
                v.push(at(&["key"]));
                v.push(at(&["value"]));
            }
            "structure" | "union" => {
                for name in s.get("members").and_then(|m| m.as_object()).into_iter().flatten().map(|(k, _)| k) {
                    v.push(at(&["members", name]));
                }
            }
            _ => {}
        }
    }
    v
}

fn get<'a>(doc: &'a mut J, path: &[String]) -> &'a mut J {
    let mut j = doc;
    for k in path {
        j = j.as_object_mut().expect("path").get_mut(k).expect("path");
    }
    j
}

fn object<'a>(doc: &'a mut J, path: &[String]) -> &'a mut Map<String, J> {
    get(doc, path).as_object_mut().expect("an object")
}

const SINGLE: [(&str, &str); 8] = [
    ("operation", "input"),
    ("operation", "output"),
    ("resource", "create"),
    ("resource", "put"),
    ("resource", "read"),
    ("resource", "update"),
    ("resource", "delete"),
    ("resource", "list"),
];
const LISTS: [(&str, &str); 6] = [
    ("service", "operations"),
    ("service", "resources"),
    ("operation", "errors"),
    ("resource", "operations"),
    ("resource", "collectionOperations"),
    ("resource", "resources"),
];

const JSON_KINDS: u64 = 22;

/// One breach of this kind, if the document has a place for it.
fn breach_json(c: &mut Choices, doc: &mut J, kind: u64) -> Option<&'static str> {
    let shapes: Vec<(String, String)> = doc["shapes"]
        .as_object()
        .into_iter()
        .flatten()
        .map(|(k, s)| (k.clone(), type_of(s).to_string()))
        .collect();
    let p = |id: &str| vec!["shapes".to_string(), id.to_string()];
    let of = |types: &[&str]| -> Vec<String> { shapes.iter().filter(|(_, t)| types.contains(&t.as_str())).map(|(k, _)| k.clone()).collect() };
    let any = |c: &mut Choices, v: &[String]| -> Option<String> {
        match v.is_empty() {
            true => None,
            false => Some(c.pick(v).clone()),
        }
    };
    let all: Vec<String> = shapes.iter().map(|(k, _)| k.clone()).collect();
    // what may have traits
    let holders = |doc: &J| -> Vec<Vec<String>> {
        let mut v: Vec<Vec<String>> = all.iter().map(|k| p(k)).collect();
        v.extend(member_objects(doc));
        v
    };
    Some(match kind {
        0 => {
            *doc = match c.below(2) {
                0 => not(c, Is::Object),
                _ => J::Array(vec![doc.clone()]),
            };
            "no object"
        }
        1 => {
            let top = doc.as_object_mut()?;
            match c.below(3) {
                0 => drop(top.remove("smithy")),
                1 => drop(top.insert("smithy".into(), not(c, Is::Text))),
                _ => {
                    let v = *c.pick(&["2.0", "", "1.1", "0.9", "1.0.0", "01", "1.", "v1", "1 ", " 1.0", "1.0\n", "one"]);
                    top.insert("smithy".into(), J::from(v));
                }
            }
            "version"
        }
        2 => {
            let v = not(c, Is::Object);
            doc.as_object_mut()?.insert("metadata".into(), v);
            "metadata"
        }
        3 => {
            let v = not(c, Is::Object);
            doc.as_object_mut()?.insert("shapes".into(), v);
            "shapes"
        }
        4 => {
            let id = any(c, &all)?;
            *get(doc, &p(&id)) = not(c, Is::Object);
            "shape"
        }
        5 => {
            let id = any(c, &all)?;
            let o = object(doc, &p(&id));
            match c.below(3) {
                0 => drop(o.remove("type")),
                1 => drop(o.insert("type".into(), not(c, Is::Text))),
                _ => {
                    let v = *c.pick(&[
                        "", "String", "strings", "member", "Structure", "STRUCTURE", "any", "unresolved", "number", "int", " string", "string ",
                        "smithy.api#String", "big_integer", "biginteger", "Apply", "trait", "object",
                    ]);
                    o.insert("type".into(), J::from(v));
                }
            }
            "type"
        }
        6 => {
            let at = holders(doc);
            if at.is_empty() {
                return None;
            }
            let at = c.pick(&at).clone();
            let v = not(c, Is::Object);
            object(doc, &at).insert("traits".into(), v);
            "traits"
        }
        7 => {
            let at = holders(doc);
            if at.is_empty() {
                return None;
            }
            let at = c.pick(&at).clone();
            let id = bad_id(c);
            let o = object(doc, &at);
            let t = o.entry("traits").or_insert_with(|| serde_json::json!({}));
            t.as_object_mut()?.insert(id, J::from(1));
            "trait name"
        }
        8 => {
            let id = any(c, &of(&["structure", "union"]))?;
            let v = not(c, Is::Object);
            object(doc, &p(&id)).insert("members".into(), v);
            "members"
        }
        9 => {
            let at = member_objects(doc);
            if at.is_empty() {
                return None;
            }
            let at = c.pick(&at).clone();
            let whole = not(c, Is::Object);
            let o = get(doc, &at);
            match c.below(4) {
                0 => *o = whole,
                1 => drop(o.as_object_mut()?.remove("target")),
                2 => drop(o.as_object_mut()?.insert("target".into(), not(c, Is::Text))),
                _ => drop(o.as_object_mut()?.insert("target".into(), J::from(bad_id(c)))),
            }
            "member"
        }
        10 => {
            let id = any(c, &of(&["list", "set", "map"]))?;
            let o = object(doc, &p(&id));
            let name = if o.contains_key("member") { "member" } else { *c.pick(&["key", "value"]) };
            o.remove(name)?;
            "element type missing"
        }
        11 => {
            let id = any(c, &of(&["service"]))?;
            let o = object(doc, &p(&id));
            match c.below(3) {
                0 => drop(o.remove("version")),
                1 => drop(o.insert("version".into(), not(c, Is::Text))),
                _ => drop(o.insert("version".into(), J::from(""))),
            }
            "service version"
        }
        12 => {
            let (t, name) = *c.pick(&LISTS);
            let id = any(c, &of(&[t]))?;
            let v = not(c, Is::Array);
            object(doc, &p(&id)).insert(name.into(), v);
            "list of shapes"
        }
        13 => {
            let (t, name) = *c.pick(&LISTS);
            let id = any(c, &of(&[t]))?;
            let bad = bad_target(c);
            let o = object(doc, &p(&id));
            let l = o.entry(name).or_insert_with(|| serde_json::json!([]));
            let l = l.as_array_mut()?;
            let at = c.size(l.len() + 1);
            l.insert(at, bad);
            "element of a list of shapes"
        }
        14 => {
            let (t, name) = *c.pick(&SINGLE);
            let id = any(c, &of(&[t]))?;
            let v = bad_target(c);
            object(doc, &p(&id)).insert(name.into(), v);
            "shape of a property"
        }
        15 => {
            let (t, name) = *c.pick(&[("service", "rename"), ("resource", "identifiers")]);
            let id = any(c, &of(&[t]))?;
            let v = match (c.below(3), t) {
                (0, _) => not(c, Is::Object),
                (1, "service") => serde_json::json!({ (bad_id(c)): "Name" }),
                (1, _) => serde_json::json!({ (*c.pick(&BAD_NAMES)): {"target": "a.b#C"} }),
                (_, "service") if c.below(2) == 0 => serde_json::json!({ "a.b#C": not(c, Is::Text) }),
                (_, "service") => serde_json::json!({ "a.b#C": *c.pick(&BAD_NAMES) }),
                _ => serde_json::json!({ "name": bad_target(c) }),
            };
            let o = object(doc, &p(&id));
            match (o.get_mut(name), &v) {
                (Some(J::Object(have)), J::Object(more)) => have.extend(more.clone()),
                _ => drop(o.insert(name.into(), v)),
            }
            "renames or identifiers"
        }
        16 => {
            let id = any(c, &all)?;
            let s = object(doc, &["shapes".to_string()]).remove(&id)?;
            let new = match type_of(&s) != "apply" && c.below(3) == 2 {
                true => format!("{}$member", id),
                false => c.pick(&BAD_IDS).to_string(),
            };
            object(doc, &["shapes".to_string()]).insert(new, s);
            "name of a shape"
        }
        17 => {
            let id = any(c, &of(&["structure", "union"]))?;
            let bad = *c.pick(&BAD_NAMES);
            let o = object(doc, &p(&id));
            let m = o.entry("members").or_insert_with(|| serde_json::json!({}));
            m.as_object_mut()?.insert(bad.into(), serde_json::json!({"target": "smithy.api#String"}));
            "name of a member"
        }
        18 => {
            let id = any(c, &shapes.iter().filter(|(_, t)| t != "apply").map(|(k, _)| k.clone()).collect::<Vec<_>>())?;
            let t = if type_of(&doc["shapes"][&id]) == "string" { "blob" } else { "string" };
            let new = twin(c, &id);
            object(doc, &["shapes".to_string()]).insert(new, serde_json::json!({ "type": t }));
            "two shapes under one name"
        }
        19 => {
            let at: Vec<_> = member_objects(doc).into_iter().filter(|p| p[2] == "members").collect();
            if at.is_empty() {
                return None;
            }
            let mut at = c.pick(&at).clone();
            let name = at.pop()?;
            let new = twin(c, &name);
            let o = object(doc, &at);
            let t = if o[&name]["target"] == J::from("smithy.api#Blob") { "smithy.api#String" } else { "smithy.api#Blob" };
            if o.contains_key(&new) {
                return None;
            }
            o.insert(new, serde_json::json!({ "target": t }));
            "two members under one name"
        }
        20 => {
            let at: Vec<_> = holders(doc)
                .into_iter()
                .filter(|p| p.iter().fold(&*doc, |j, k| &j[k]).get("traits").and_then(|t| t.as_object()).map_or(false, |t| !t.is_empty()))
                .collect();
            if at.is_empty() {
                return None;
            }
            let mut at = c.pick(&at).clone();
            at.push("traits".into());
            let o = object(doc, &at);
            let names: Vec<String> = o.keys().cloned().collect();
            let name = c.pick(&names).clone();
            let new = twin(c, &name);
            let v = other_value(&o[&name]);
            if o.contains_key(&new) {
                return None;
            }
            o.insert(new, v);
            "two values of one trait"
        }
        _ => {
            let (t, name) = *c.pick(&[("service", "rename"), ("resource", "identifiers")]);
            let id = any(c, &of(&[t]))?;
            let o = object(doc, &p(&id));
            let (mine, one, two) = match t {
                "service" => ("a.b#Fresh", J::from("One"), J::from("Two")),
                _ => ("fresh", serde_json::json!({"target": "a.b#One"}), serde_json::json!({"target": "a.b#Two"})),
            };
            let have = o.entry(name).or_insert_with(|| serde_json::json!({})).as_object_mut()?;
            let names: Vec<String> = have.keys().cloned().collect();
            let key = match names.is_empty() {
                true => mine.to_string(),
                false => c.pick(&names).clone(),
            };
            let new = twin(c, &key);
            if have.contains_key(&new) {
                return None;
            }
            if names.is_empty() {
                have.insert(key.clone(), one.clone());
            }
            let v = if have[&key] == two { one } else { two };
            have.insert(new, v);
            "two entries under one name"
        }
    })
}

/// The text of a JSON document with one error of its syntax.
fn breach_json_text(c: &mut Choices, text: &str) -> (&'static str, String) {
    // structural characters, outside strings
    let mut places: Vec<usize> = Vec::new();
    let b = text.as_bytes();
    let (mut i, mut inside) = (0, false);
    while i < b.len() {
        match (inside, b[i]) {
            (_, b'"') => {
                inside = !inside;
                places.push(i);
            }
            (true, b'\\') => i += 1,
            (false, b'{') | (false, b'}') | (false, b'[') | (false, b']') | (false, b':') => places.push(i),
            _ => {}
        }
        i += 1;
    }
    let at = *c.pick(&places);
    let mut t = text.to_string();
    match c.below(4) {
        0 => {
            t.remove(at);
            ("character of the JSON syntax lost", t)
        }
        1 => {
            let before = matches!(b[at], b'}' | b']');
            let after = matches!(b[at], b'{' | b'[' | b':');
            if !before && !after {
                t.remove(at);
                return ("character of the JSON syntax lost", t);
            }
            t.insert_str(if before { at } else { at + 1 }, c.pick(&[",", ":", "'", ";", "/* */", "//\n", "#", "undefined", "NaN,"]));
            ("stray character in JSON", t)
        }
        2 => {
            let ch = b[at] as char;
            if ch == ':' || ch == '"' {
                t.remove(at);
                return ("character of the JSON syntax lost", t);
            }
            t.insert(at, ch);
            ("bracket of JSON repeated", t)
        }
        _ => {
            t.push_str(c.pick(&["x", "{}", ",", "null", "}", "\u{0}", "\"smithy\"", "\n{\"smithy\":\"1.0\"}", "1"]));
            ("text after the JSON document", t)
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Comment,
    Quoted,
    Block,
    Word,
    Punct(char),
}

/// The tokens of an IDL text and where they are.
fn tokens(text: &str) -> Vec<(Tok, usize, usize)> {
    let b = text.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let start = i;
        let rest = &text[i..];
        if rest.starts_with("//") {
            i += rest.find(|c| c == '\n' || c == '\r').unwrap_or(rest.len());
            v.push((Tok::Comment, start, i));
        } else if rest.starts_with("\"\"\"") {
            i += 3;
            while i < b.len() && !text[i..].starts_with("\"\"\"") {
                i += if b[i] == b'\\' { 2 } else { 1 };
                while i < b.len() && !text.is_char_boundary(i) {
                    i += 1;
                }
            }
            i = (i + 3).min(b.len());
            v.push((Tok::Block, start, i));
        } else if b[i] == b'"' {
            i += 1;
            while i < b.len() && b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
                while i < b.len() && !text.is_char_boundary(i) {
                    i += 1;
                }
            }
            i = (i + 1).min(b.len());
            v.push((Tok::Quoted, start, i));
        } else if b[i].is_ascii_alphanumeric() || b"_.-+".contains(&b[i]) {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b"_.-+#$".contains(&b[i])) {
                i += 1;
            }
            v.push((Tok::Word, start, i));
        } else {
            let ch = rest.chars().next().unwrap();
            i += ch.len_utf8();
            if !ch.is_whitespace() && ch != ',' {
                v.push((Tok::Punct(ch), start, i));
            }
        }
    }
    v
}

const NEVER: [&str; 14] = [";", "%", "!", "'", "?", "~", "\\", "^", "&", "*", "|", "<", "\u{e9}", "\u{0}"];

/// A statement that no document may have, or a pair that contradict each other.
fn bad_statement(c: &mut Choices, mix: &Mix) -> String {
    let (a, b) = (gen_value(c, mix), gen_value(c, mix));
    let bad_name = *c.pick(&["1", "1a", "_", "a-b", "a.b", "a.b#C", "a$b", "\"a\"", "\u{e9}", "__1", "{}", "@a"]);
    let bad_target = *c.pick(&["1", "1a", "_", "a-b", "a.b", "a#", "#a", "\"a\"", "\u{e9}", "ZzQ$m", "a.b#C$d", "[String]", "{}", "null.x", "a..b#C", "String$", "@a"]);
    let bad_ref = *c.pick(&["1", "1.5", "true", "null", "\"a b\"", "\"\"", "\"1\"", "[ZzQ]", "{}", "{target: ZzQ}", "a.b#C$d", "ZzQ$m", "\"a.b#C$d\"", "\"a.b#\"", "[]"]);
    let bad_number = *c.pick(&["01", "1.", "1e", ".5", "+1", "0x10", "--1", "1.2.3", "1e1.5", "-", "1_000", "1e999", "-1e999", "1f", "1e+", "- 1", "0b1", "1e5e", "00"]);
    let two = |k: &str| -> Vec<String> { vec![format!("{k}: ZzA"), format!("{k}: ZzB")] };
    let shuffled = |c: &mut Choices, mut v: Vec<String>| -> String {
        for i in (1..v.len()).rev() {
            let k = c.size(i + 1);
            v.swap(i, k);
        }
        v.join(*c.pick(&[", ", "\n", " "]))
    };
    let sv = || "version: \"1\"".to_string();
    match c.below(40) {
        0 => format!("{} ZzQ", c.pick(&["strin", "strings", "String", "STRING", "text", "enum", "intEnum", "number", "int", "biginteger", "any", "member"])),
        1 => format!("{} ZzQ {{ m: String }}", c.pick(&["structur", "Structure", "structures", "object", "enum", "unions", "lists", "Map", "trait", "resources"])),
        2 => format!("{} {bad_name}", c.pick(&["string", "blob", "timestamp"])),
        3 => format!("{} {bad_name} {{}}", c.pick(&["structure", "union"])),
        4 => format!("structure ZzQ {{ {bad_name}: String }}"),
        5 => format!("{} ZzQ {{ m: {bad_target} }}", c.pick(&["structure", "union"])),
        6 => format!("{} ZzQ {{ member: {bad_target} }}", c.pick(&["list", "set"])),
        7 => {
            let mut v = vec!["key: ZzQ".to_string(), format!("value: {bad_target}")];
            if c.below(2) == 1 {
                v = vec![format!("key: {bad_target}"), "value: ZzQ".into()];
            }
            format!("map ZzQ {{ {} }}", shuffled(c, v))
        }
        8 => format!("{} ZzQ {{ {} }}", c.pick(&["list", "set"]), c.pick(&["", "members: String", "key: String", "value: String", "member"])),
        9 => format!("map ZzQ {{ {} }}", c.pick(&["", "key: String", "value: String", "member: String", "key: String, values: String"])),
        10 => {
            let mut v = two("key");
            v.push("value: ZzC".into());
            if c.below(2) == 1 {
                v = two("value");
                v.push("key: ZzC".into());
            }
            format!("map ZzQ {{ {} }}", shuffled(c, v))
        }
        11 => {
            let v = match c.below(3) {
                0 => two("member"),
                1 => vec!["member: String".into(), "other: String".into()],
                _ => vec!["member: String".into(), "key: String".into()],
            };
            format!("{} ZzQ {{ {} }}", c.pick(&["list", "set"]), shuffled(c, v))
        }
        12 => format!("map ZzQ {{ {} }}", shuffled(c, vec!["key: ZzA".into(), "value: ZzB".into(), "other: ZzC".into()])),
        13 => {
            let v = match c.below(2) {
                0 => two("m"),
                _ => vec!["m: ZzA".into(), "M: ZzB".into()],
            };
            format!("{} ZzQ {{ {} }}", c.pick(&["structure", "union"]), shuffled(c, v))
        }
        14 => format!("structure ZzQ {{ {} }}", c.pick(&["m", "m:", ": String", "m = String", "m String", "m: String String", "m: {}", "m: @a String", "\"m\": String"])),
        15 => format!("service ZzQ {{ {} }}", c.pick(&["", "operations: []", "version: 1", "version: null", "version: \"\"", "version: []", "version", "Version: \"1\"", "version = \"1\""])),
        16 => {
            let k = *c.pick(&["operations", "resources"]);
            let bad = match c.below(2) {
                0 => format!("{k}: {}", c.pick(&["ZzQ", "\"ZzQ\"", "{}", "1", "null", "{a: ZzQ}"])),
                _ => format!("{k}: [ZzA, {bad_ref}, ZzB]"),
            };
            format!("service ZzQ {{ {} }}", shuffled(c, vec![sv(), bad]))
        }
        17 => {
            let k = *c.pick(&["errors", "operation", "Operations", "other", "collectionOperations"]);
            format!("service ZzQ {{ {} }}", shuffled(c, vec![sv(), format!("{k}: [ZzA]")]))
        }
        18 => {
            let v = match c.below(3) {
                0 => vec!["version: \"1\"".into(), "version: \"2\"".into()],
                1 => vec![sv(), "operations: [ZzA]".into(), "operations: [ZzB]".into()],
                _ => vec![sv(), "resources: [ZzA]".into(), "\"resources\": []".into()],
            };
            format!("service ZzQ {{ {} }}", shuffled(c, v))
        }
        19 => {
            let r = *c.pick(&[
                "[]", "\"a\"", "{ZzA: \"B\"}", "{\"ZzA\": \"B\"}", "{\"a.b#C\": 1}", "{\"a.b#C\": \"\"}", "{\"a.b#C\": \"a b\"}", "{\"a.b#C\": \"a.b#D\"}",
                "{\"a.b#C$d\": \"B\"}", "{\"a.b#C\": \"B\", \"a.b#C\": \"D\"}", "{\"a.b#C\": \"B\", \"a.b#c\": \"D\"}", "{\"a.B#C\": \"B\", \"a.b#C\": \"D\"}",
                "{\"a.b#\": \"B\"}", "{\"a.b#C\": [\"B\"]}", "{\"\": \"B\"}",
            ]);
            format!("service ZzQ {{ {} }}", shuffled(c, vec![sv(), format!("rename: {r}")]))
        }
        20 => format!("operation ZzQ {{ {}: {bad_ref} }}", c.pick(&["input", "output"])),
        21 => {
            let k = *c.pick(&["input", "output"]);
            let v = match c.below(3) {
                0 => two(k),
                1 => vec![format!("{k}: ZzA"), format!("\"{k}\": ZzB")],
                _ => vec!["errors: [ZzA]".into(), "errors: [ZzB]".into()],
            };
            format!("operation ZzQ {{ {} }}", shuffled(c, v))
        }
        22 => match c.below(2) {
            0 => format!("operation ZzQ {{ errors: {} }}", c.pick(&["ZzQ", "\"ZzQ\"", "{}", "1", "null"])),
            _ => format!("operation ZzQ {{ errors: [ZzA, {bad_ref}] }}"),
        },
        23 => format!("operation ZzQ {{ {}: ZzA }}", c.pick(&["Input", "inputs", "other", "error", "version", "read", "\"input \""])),
        24 => {
            let k = *c.pick(&["create", "put", "read", "update", "delete", "list"]);
            match c.below(2) {
                0 => format!("resource ZzQ {{ {k}: {bad_ref} }}"),
                _ => format!("resource ZzQ {{ {} }}", shuffled(c, two(k))),
            }
        }
        25 => {
            let k = *c.pick(&["operations", "collectionOperations", "resources"]);
            match c.below(3) {
                0 => format!("resource ZzQ {{ {k}: {} }}", c.pick(&["ZzQ", "\"ZzQ\"", "{}", "1", "null"])),
                1 => format!("resource ZzQ {{ {k}: [{bad_ref}] }}"),
                _ => format!("resource ZzQ {{ {} }}", shuffled(c, vec![format!("{k}: [ZzA]"), format!("{k}: [ZzB]")])),
            }
        }
        26 => {
            let r = *c.pick(&[
                "[]", "[a]", "\"a\"", "{a: 1}", "{\"a b\": String}", "{a: String, a: Blob}", "{a: String, A: Blob}", "{a: String, \"a\": Blob}", "{a: a.b#C$d}",
                "{\"\": String}", "{\"1\": String}", "{a: [String]}", "{a: null}",
            ]);
            format!("resource ZzQ {{ identifiers: {r} }}")
        }
        27 => format!("resource ZzQ {{ {}: ZzA }}", c.pick(&["Create", "creates", "other", "input", "version", "collection_operations", "get"])),
        28 => format!("apply {}", c.pick(&["", "ZzQ", "@zz", "1 @zz", "ZzQ @zz()x", "ZzQ zz", "\"ZzQ\" @zz", "ZzQ string", "ZzQ$ @zz", "ZzQ$m$n @zz", "a.b @zz", "ZzQ @", "ZzQ @1"])),
        29 => format!("apply ZzQ @zz({a} {b})"),
        30 => {
            let k = *c.pick(&["k", "\"k\"", "keyed"]);
            let l = if k == "k" { "\"k\"" } else { k };
            format!("@zz({k}: {a}, {l}: {b})\nstring ZzQ")
        }
        31 => {
            let v = match c.below(3) {
                0 => format!("{a} {b}"),
                1 => format!("k: {a}, {b}"),
                _ => format!("{a}, k: {b}"),
            };
            format!("@zz({v})\nstring ZzQ")
        }
        32 => format!("@zz({{k: {a}, k: {b}}})\nstring ZzQ"),
        33 => format!("@zz({})\nstring ZzQ", c.pick(&["k:", ": 1", "k = 1", "{k: 1 k}", "{k}", "[k: 1]", "{1: 2}", "{k: }", "[", "]", "{[]: 1}", "@a", "(1)", "k: 1: 2", "\"k", "\"\"\"k\"", "'k'", "1 + 1", "k.l", "#", "{true}"])),
        34 => match c.below(3) {
            0 => format!("@zz({bad_number})\nstring ZzQ"),
            1 => format!("@zz([{a}, {bad_number}])\nstring ZzQ"),
            _ => format!("@zz({{k: {bad_number}}})\nstring ZzQ"),
        },
        35 => format!("@{}\nstring ZzQ", c.pick(&["", "1", "_", "\"a\"", "(1)", "a.b", "a..b#C", "a#", "#a", "a.b#C$d", "zz (1)", "zz$m", "-a", "@a", "\u{e9}"])),
        36 => format!("@zz{}", c.pick(&["", "(1)", "(k: 1)", "\n@yy"])),
        37 => match c.below(4) {
            0 => "string ZzQ\nuse zz.y#W".to_string(),
            1 => "string ZzQ\nnamespace zz.y".to_string(),
            2 => "string ZzQ\nmetadata zz = 1".to_string(),
            _ => "string ZzQ\n$version: \"1.0\"".to_string(),
        },
        38 => format!("string ZzQ\n{}", c.pick(&["foo", "\"text\"", "1", ":", "=", "#", "$", ".", "{}", "[]", "()", "@", "null", "string", "list ZzR", "structure", "apply", "use", "\"\"\"x\"\"\""])),
        _ => {
            // a shape defined twice, as two things
            let t = *c.pick(&["string ZzQ", "list ZzQ { member: String }", "structure ZzQ { m: String }", "operation ZzQ {}", "service ZzQ { version: \"1\" }"]);
            let u = *c.pick(&["blob ZzQ", "set ZzQ { member: String }", "structure ZzQ { m: Blob }", "union ZzQ { m: String }", "resource ZzQ {}", "service ZzQ { version: \"2\" }"]);
            match c.below(2) {
                0 => format!("{t}\n{u}"),
                _ => format!("{u}\nstring ZzOther\n{t}"),
            }
        }
    }
}

fn gen_value(c: &mut Choices, mix: &Mix) -> String {
    match c.below(8) {
        0 => "1".into(),
        1 => "\"text\"".into(),
        2 => "[1, 2]".into(),
        3 => "{k: 1}".into(),
        4 => "true".into(),
        5 => "a.b#C".into(),
        6 => "-1.5".into(),
        _ => {
            // the text of some legal document's value, where it is one that can be written without escapes
            let mut m = mix.clone();
            m.mild = true;
            m.wild_keys = false;
            let v = gen::val(c, &m, 2);
            idl::value_text(c, &v)
        }
    }
}

fn breach_idl(c: &mut Choices, mix: &Mix, text: &str) -> (&'static str, String) {
    let toks = tokens(text);
    let mut t = text.to_string();
    let brackets: Vec<usize> = toks.iter().filter(|x| matches!(x.0, Tok::Punct('{') | Tok::Punct('}') | Tok::Punct('[') | Tok::Punct(']') | Tok::Punct('(') | Tok::Punct(')'))).map(|x| x.1).collect();
    let puncts = |ch: char| -> Vec<usize> { toks.iter().filter(|x| x.0 == Tok::Punct(ch)).map(|x| x.1).collect() };
    let before: Vec<usize> = toks.iter().filter(|x| x.0 != Tok::Comment).map(|x| x.1).collect();
    match c.below(18) {
        0 if !brackets.is_empty() => {
            let at = *c.pick(&brackets);
            t.replace_range(at..at + 1, " ");
            ("bracket lost", t)
        }
        1 => {
            let at = *c.pick(&before);
            t.insert_str(at, c.pick(&["{", "}", "[", "]", "(", ")"]));
            ("stray bracket", t)
        }
        2 if !brackets.is_empty() => {
            let at = *c.pick(&brackets);
            let is = &text[at..at + 1];
            let others: Vec<&&str> = ["{", "}", "[", "]", "(", ")"].iter().filter(|b| **b != is).collect();
            t.replace_range(at..at + 1, c.pick(&others));
            ("bracket of another kind", t)
        }
        3 if !puncts(':').is_empty() => {
            let at = *c.pick(&puncts(':'));
            t.replace_range(at..at + 1, c.pick(&[" ", "=", "::", ": :"]));
            ("colon", t)
        }
        4 if !puncts('=').is_empty() => {
            let at = *c.pick(&puncts('='));
            t.replace_range(at..at + 1, c.pick(&[" ", ":", "==", "= ="]));
            ("equals sign", t)
        }
        5 if !puncts('@').is_empty() => {
            let at = *c.pick(&puncts('@'));
            t.replace_range(at..at + 1, c.pick(&["@ ", "@@", "#", "$"]));
            ("at sign", t)
        }
        6 => {
            let at = *c.pick(&before);
            t.insert_str(at, c.pick(&NEVER));
            ("character no document has", t)
        }
        7 => {
            // cut where something is still open
            let mut places = Vec::new();
            let mut depth = 0;
            for (k, s, e) in &toks {
                match k {
                    Tok::Punct('{') | Tok::Punct('[') | Tok::Punct('(') => depth += 1,
                    Tok::Punct('}') | Tok::Punct(']') | Tok::Punct(')') => depth -= 1,
                    Tok::Quoted => places.extend((s + 1..*e).filter(|i| text.is_char_boundary(*i))),
                    Tok::Block => places.extend((s + 3..*e).filter(|i| text.is_char_boundary(*i))),
                    _ => {}
                }
                if depth > 0 {
                    places.push(*e);
                }
            }
            if places.is_empty() {
                return ("statement", format!("{text}\n{}\n", bad_statement(c, mix)));
            }
            t.truncate(*c.pick(&places));
            ("cut short", t)
        }
        8 => {
            let first = *c.pick(&[
                "$version: \"2.0\"", "$version: 2.0", "$version: 2", "$version: true", "$version: null", "$version: [\"1.0\"]", "$version: {a: 1}", "$version: \"\"",
                "$version \"1.0\"", "$version = \"1.0\"", "version: \"1.0\"", "$: \"1.0\"", "$1: 1", "$version: 1.1", "$\"version\": \"2.0\"", "$version: \"1.0.0\"",
                "$version:", "metadata zz = ", "metadata zz", "metadata = 1", "metadata zz: 1", "metadata zz 1", "metadata 1 = 1", "metadata zz = 1 2", "metadata a.b = 1",
                "string ZzQ", "use zz.y#W", "@zz", "namespace", "namespace 1", "namespace zz..y", "namespace zz.", "namespace .zz", "namespace zz#y", "namespace \"zz\"",
                "namespace zz.1", "namespace zz-y", "namespace zz.y",
            ]);
            ("first line", format!("{first}\n{text}"))
        }
        9 => {
            // two versions
            let (one, two) = *c.pick(&[("\"1.0\"", "\"2.0\""), ("\"2.0\"", "\"1.0\""), ("1.0", "\"2.0\""), ("2.0", "\"1.0\""), ("\"1.0\"", "2")]);
            ("two versions", format!("$version: {one}\n$version: {two}\n{}", text.trim_start()))
        }
        _ => {
            let s = bad_statement(c, mix);
            let dangling = s.starts_with("@zz") && !s.contains("string");
            let ends: &[&str] = &["\n", "", " ", "\n// end\n", "\nstring ZzLast\n"];
            ("statement", format!("{text}\n{s}{}", c.pick(&ends[..if dangling { 4 } else { 5 }])))
        }
    }
}

fn show(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(1200).collect()
}

fn run25(run: &mut Run) -> Outcome {
    let mut mix = gen::mix(&mut run.c);
    mix.max_shapes = mix.max_shapes.min(8);
    let (lang, text, _) = formats::document(&mut run.c, &mut mix);
    let (what, breached) = match lang {
        Lang::Idl => breach_idl(&mut run.c, &mix, &text),
        Lang::Json if run.c.below(5) == 4 => breach_json_text(&mut run.c, text.trim_end()),
        Lang::Json => {
            let mut j: J = serde_json::from_str(&text).expect("a legal document");
            let mut what = None;
            for k in 0..8 {
                let mut d = j.clone();
                let kind = if k < 7 { run.c.below(JSON_KINDS) } else { 0 };
                what = breach_json(&mut run.c, &mut d, kind);
                if what.is_some() {
                    j = d;
                    break;
                }
            }
            let t = if run.c.below(2) == 0 { j.to_string() } else { serde_json::to_string_pretty(&j).expect("text") };
            (what.expect("a document that is no object is always possible"), t)
        }
    };
    run.mark(breached.as_bytes());
    run.probe(&format!("{lang:?}: {what}"));
    run.nontrivial = true;
    run.log(|| format!("{lang:?} document with a breach ({what}): {:?}", show(breached.as_bytes())));
    let doc = breached.into_bytes();
    let way = run.c.below(4);
    let d = doc.clone();
    let got: Result<CModel, String> = match way {
        0 | 1 => {
            let seed = run.c.seed();
            run.pure_life("read", seed, move || lang.read_bytes(&d).map(|m| canon(&m))).ok("reading")?
        }
        2 => {
            let del = run.delivery();
            let sh = run.sh.clone();
            let seed = run.c.seed();
            run.pure_life("read-stream", seed, move || lang.read(&mut SimReader::new(&d, del, StreamFault::None, &sh)).map(|m| canon(&m)))
                .ok("reading a stream")?
        }
        _ => {
            let mut fs = Fs::default();
            fs.add_dir("/sim/in");
            fs.add_file("/sim/in/doc", &doc);
            let plan = run.benign_plan();
            run.life("read-file", plan, fs, move || lang.read_file("/sim/in/doc").map(|m| canon(&m))).ok("reading a file")?
        }
    };
    if let Ok(m) = got {
        return violation(
            format!("taken for a document: {lang:?}: {what}"),
            format!("{} shapes: {:?}", m.shapes.len(), show(&doc)),
        );
    }
    // and without the breach it is a document
    if run.c.below(8) == 7 {
        let seed = run.c.seed();
        let t = text.clone();
        let legal = run.pure_life("read-legal", seed, move || lang.read_bytes(t.as_bytes()).map(|_| ())).ok("reading a legal document")?;
        if let Err(e) = legal {
            return violation(format!("legal document refused: {lang:?}"), format!("{e}: {:?}", show(text.as_bytes())));
        }
        run.probe("accepted without the breach");
    }
    Ok(())
}
