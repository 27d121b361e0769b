//! Generated models, as reference data.  Swarm style: every run draws its own mix of shape kinds,
//! value kinds and sizes, most of them small, now and then one dimension large.

use crate::canon::*;
use crate::choice::Choices;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Mix {
    pub max_shapes: u64,
    pub max_members: u64,
    pub max_depth: u64,
    pub long_strings: bool,
    pub wild_strings: bool,
    pub namespaces: usize,
    pub traits_pm: u64,
    pub unresolved: bool,
    pub floats: bool,
    pub nulls: bool,
    pub metadata: bool,
    /// Only kinds whose bit is set are generated (0: all).
    pub kinds: u64,
    /// References may name shapes that exist nowhere.
    pub dangling: bool,
    /// Any text may be a metadata or object key.
    pub wild_keys: bool,
    pub service_version_only_plain: bool,
    /// Wild texts stay printable, without quotes and backslashes.
    pub mild: bool,
    /// Lists of references may repeat one.
    pub repeats: bool,
    /// Some names are put together from words.
    pub composed: bool,
}

pub const NAMESPACES: [&str; 7] = [
    "example.alpha",
    "example.beta",
    "example.alpha.inner",
    "org.acme",
    "a",
    "_x.y9.under_score",
    "namespace.apply.list",
];

/// Distinct when compared without case.
pub const NAMES: [&str; 44] = [
    "Alpha", "Beta", "Gamma", "Delta", "Name_9", "_under", "String", "Integer", "trueish",
    "falsey", "nullable", "listOf", "setting", "mapper", "structureA", "unionB", "serviceC",
    "operationD", "resourceE", "applyTo", "useThis", "metadataX", "namespaceY", "stringy",
    "blobby", "byteMe", "x", "Alphabet", "A1", "documentary", "timestamped", "longest",
    "shortest", "doubleUp", "floaty", "bigIntegerish", "booleanish", "Input", "Output", "City",
    "Forecast", "member", "list", "structure",
];

pub const MEMBERS: [&str; 28] = [
    "foo", "bar", "key", "value", "member", "type", "version", "truth", "trueNorth", "nullish",
    "x", "Foo9", "_m", "target", "traits", "input", "output", "errors", "operations", "resources",
    "identifiers", "create", "put", "list", "members", "camelCaseName", "snake_case", "apply",
];

pub const PRELUDE_TARGETS: [&str; 20] = [
    "String",
    "Integer",
    "Blob",
    "Boolean",
    "Byte",
    "Short",
    "Long",
    "Float",
    "Double",
    "BigInteger",
    "BigDecimal",
    "Timestamp",
    "Document",
    "PrimitiveBoolean",
    "PrimitiveByte",
    "PrimitiveShort",
    "PrimitiveInteger",
    "PrimitiveLong",
    "PrimitiveFloat",
    "PrimitiveDouble",
];

pub const PRELUDE_TRAITS: [&str; 14] = [
    "documentation",
    "required",
    "tags",
    "length",
    "range",
    "pattern",
    "deprecated",
    "enum",
    "error",
    "readonly",
    "paginated",
    "trait",
    "box",
    "since",
];

pub fn mix(c: &mut Choices) -> Mix {
    let large = c.below(24);
    let few = *c.pick(&[2u64, 4, 6, 9]);
    Mix {
        max_shapes: if large == 23 { 60 } else { few },
        max_members: if large == 22 { 27 } else { *c.pick(&[2u64, 3, 5]) },
        max_depth: if large == 21 { 9 } else { *c.pick(&[2u64, 1, 3]) },
        long_strings: large == 20,
        wild_strings: c.below(3) > 0,
        namespaces: *c.pick(&[1usize, 2, 3, 7]),
        traits_pm: *c.pick(&[300u64, 0, 600, 900]),
        unresolved: c.below(3) > 0,
        floats: c.below(3) > 0,
        nulls: c.below(3) > 0,
        metadata: c.below(4) > 0,
        kinds: if c.below(3) == 2 {
            // a random subset of the eleven kinds
            c.below(1 << 11)
        } else {
            0
        },
        dangling: c.below(2) > 0,
        wild_keys: c.below(3) > 1,
        service_version_only_plain: false,
        mild: false,
        repeats: false,
        composed: c.below(3) == 2,
    }
}

/// No word is the beginning of another, so different words never run into the same name.
const WORDS: [&str; 30] = [
    "kill", "master", "slave", "blacklist", "whitelist", "list", "string", "structure", "true", "false", "null",
    "apply", "use", "url", "http", "json", "id", "get", "city", "map", "service", "resource", "operation", "for", "9",
    "x", "namespace", "metadata", "trait", "union",
];

/// A name put together from words.  How it is spelt is a function of its words: there are no two
/// that differ only in case, neither among these nor with the other names.
pub fn composed(c: &mut Choices) -> String {
    let mut words: Vec<&str> = (0..c.range(1, 6)).map(|_| *c.pick(&WORDS)).collect();
    if words[0] == "9" {
        words[0] = "x";
    }
    let score = "_".repeat([0, 0, 1, 2][c.size(4)]);
    let capital = |w: &str| w[..1].to_uppercase() + &w[1..];
    let all = words.concat();
    let name = match all.bytes().fold(7u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) % 7 {
        0 | 1 => words.iter().map(|w| capital(w)).collect::<String>(),
        2 | 3 => words[0].to_string() + &words[1..].iter().map(|w| capital(w)).collect::<String>(),
        4 => words.join("_"),
        5 => words.join("_").to_uppercase(),
        _ => all,
    };
    let name = score + &name;
    let taken = NAMES.iter().chain(&MEMBERS).chain(&PRELUDE_TARGETS).chain(&PRELUDE_TRAITS).any(|n| n.eq_ignore_ascii_case(&name));
    if taken {
        name + "Q"
    } else {
        name
    }
}

fn shape_name(c: &mut Choices, m: &Mix) -> String {
    if m.composed && c.below(2) == 1 {
        composed(c)
    } else {
        c.pick(&NAMES).to_string()
    }
}

fn member_name(c: &mut Choices, m: &Mix) -> String {
    if m.composed && c.below(2) == 1 {
        composed(c)
    } else {
        c.pick(&MEMBERS).to_string()
    }
}

const WILD: [&str; 36] = [
    "\"", "\\", "\n", "\r", "\t", "/", "//", "'", "{", "}", "[", "]", ",", ":", "#", "$", "@", "é",
    "日本", "😀", "\u{0}", "\u{7f}", "\u{1}", "\\n", "\\u0041", "\"\"\"", "\u{2028}", " ", "  ",
    "\u{fffd}", "\u{10ffff}", "null", "true", "\u{8}", "\u{c}", "&<>",
];

pub fn text(c: &mut Choices, m: &Mix) -> String {
    let words = [
        "hello", "", "a", "2006-03-01", "some longer text here", "Z", "x y", "true", "null", "1.5",
        "smithy.api#String", "^[A-Za-z0-9 ]+$",
    ];
    let mut s = String::new();
    if m.long_strings && c.below(4) == 3 {
        let n = *c.pick(&[1000usize, 4095, 4096, 4097, 8192, 9000, 20000, if m.mild { 20000 } else { 70000 }]);
        let unit = if m.wild_strings && m.mild { "é日 x" } else if m.wild_strings { "é\"x" } else { "lorem ipsum " };
        while s.len() < n {
            s.push_str(unit);
        }
        return s;
    }
    if m.wild_strings && c.below(2) == 1 {
        for _ in 0..c.range(1, 4) {
            if c.below(3) == 2 {
                s.push_str(c.pick(&words));
            } else {
                let w = *c.pick(&WILD);
                if !m.mild || w.chars().all(|c| c >= ' ' && c != '"' && c != '\\') {
                    s.push_str(w);
                }
            }
        }
        s
    } else {
        c.pick(&words).to_string()
    }
}

pub fn int(c: &mut Choices) -> i64 {
    match c.below(8) {
        0..=3 => c.below(12) as i64,
        4 => -(c.below(1000) as i64),
        5 => *c.pick(&[
            i64::MAX,
            i64::MIN,
            i32::MAX as i64,
            i32::MIN as i64,
            u32::MAX as i64,
            (1i64 << 53) + 1,
            -(1i64 << 53) - 1,
        ]),
        6 => c.seed() as i64,
        _ => 100_000 + c.below(1_000_000) as i64,
    }
}

/// Only floats every decimal reader and writer agrees on exactly.
pub fn float(c: &mut Choices) -> f64 {
    match c.below(6) {
        0..=2 => c.below(40) as f64 / 4.0,
        3 => -(c.below(4000) as f64) / 8.0,
        4 => *c.pick(&[1.0, 0.5, 100.0, 1e15, 1e20, 0.125, 1e-5, 1e-20, -3e-22, 12345.5, -1.0, 0.0, 1e22, 9223372036854775808.0, 18446744073709549568.0]),
        _ => c.below(1 << 20) as f64 + 0.5,
    }
}

pub fn obj_key(c: &mut Choices, m: &Mix) -> String {
    if m.wild_keys && c.below(3) == 2 {
        text(c, m)
    } else {
        c.pick(&MEMBERS).to_string()
    }
}

pub fn val(c: &mut Choices, m: &Mix, depth: u64) -> CVal {
    let n = if depth == 0 { 6 } else { 9 };
    match c.below(n) {
        0 | 1 => CVal::Str(text(c, m)),
        2 => CVal::Int(int(c)),
        3 => CVal::Bool(c.below(2) == 1),
        4 => {
            if m.floats {
                CVal::Float(float(c))
            } else {
                CVal::Int(int(c))
            }
        }
        5 => {
            if m.nulls {
                CVal::Null
            } else {
                CVal::Str(text(c, m))
            }
        }
        6 => {
            let n = c.below(4);
            let n = if n == 3 { c.below(20) } else { n };
            CVal::Arr((0..n).map(|_| val(c, m, depth - 1)).collect())
        }
        _ => {
            let n = c.below(4);
            let n = if n == 3 { c.below(14) } else { n };
            let mut o = BTreeMap::new();
            for _ in 0..n {
                let k = obj_key(c, m);
                let v = val(c, m, depth - 1);
                o.insert(k, v);
            }
            CVal::Obj(o)
        }
    }
}

pub struct Names {
    /// Every shape the model will define.
    pub ids: Vec<String>,
}

pub fn target(c: &mut Choices, m: &Mix, names: &Names) -> String {
    match c.below(8) {
        0..=2 => format!("smithy.api#{}", c.pick(&PRELUDE_TARGETS)),
        3 if m.dangling => {
            let ns = c.pick(&["com.elsewhere", "example.alpha", "smithy.api", "smithy.waiters"]);
            let n = c.pick(&["Missing", "String2", "Alpha", "Other"]);
            format!("{ns}#{n}")
        }
        _ => c.pick(&names.ids).clone(),
    }
}

pub fn trait_id(c: &mut Choices, m: &Mix, names: &Names) -> String {
    match c.below(8) {
        0..=4 => format!("smithy.api#{}", c.pick(&PRELUDE_TRAITS)),
        5 => format!("aws.protocols#{}", c.pick(&["restJson1", "awsQuery"])),
        6 if m.dangling => format!("example.alpha#{}", c.pick(&["customTrait", "other"])),
        _ => c.pick(&names.ids).clone(),
    }
}

pub fn traits(c: &mut Choices, m: &Mix, names: &Names) -> CTraits {
    let mut t = CTraits::new();
    while t.len() < 8 && c.chance(m.traits_pm) {
        let id = trait_id(c, m, names);
        let v = match c.below(3) {
            0 => CVal::Obj(BTreeMap::new()),
            _ => val(c, m, m.max_depth),
        };
        t.insert(id, v);
    }
    t
}

fn cmember(c: &mut Choices, m: &Mix, names: &Names, id: &str) -> CMember {
    CMember {
        id: id.to_string(),
        target: target(c, m, names),
        traits: traits(c, m, names),
    }
}

fn cmembers(c: &mut Choices, m: &Mix, names: &Names) -> BTreeMap<String, CMember> {
    let n = c.below(m.max_members + 1);
    let mut o: BTreeMap<String, CMember> = BTreeMap::new();
    for i in 0..n {
        let id = if m.max_members > 20 {
            MEMBERS[i as usize % MEMBERS.len()].to_string()
        } else {
            member_name(c, m)
        };
        let mem = cmember(c, m, names, &id);
        o.insert(id, mem);
    }
    o
}

fn refs(c: &mut Choices, m: &Mix, names: &Names) -> Vec<String> {
    let n = c.below(4);
    let n = if n == 3 { c.below(12) } else { n };
    let mut v: Vec<String> = Vec::new();
    for _ in 0..n {
        let t = target(c, m, names);
        if !v.contains(&t) {
            v.push(t);
        }
    }
    if m.repeats && !v.is_empty() && c.below(4) == 3 {
        let t = v[c.size(v.len())].clone();
        let at = c.size(v.len() + 1);
        v.insert(at, t);
    }
    v
}

fn opt_ref(c: &mut Choices, m: &Mix, names: &Names) -> Option<String> {
    if c.below(2) == 1 {
        Some(target(c, m, names))
    } else {
        None
    }
}

pub fn body(c: &mut Choices, m: &Mix, names: &Names) -> CBody {
    let all: Vec<u64> = (0..11)
        .filter(|k| m.kinds == 0 || m.kinds & (1 << k) != 0)
        .collect();
    let k = if all.is_empty() { 0 } else { *c.pick(&all) };
    match k {
        0 => CBody::Simple(c.pick(&SIMPLE).to_string()),
        1 => CBody::List(cmember(c, m, names, "member")),
        2 => CBody::Set(cmember(c, m, names, "member")),
        3 => CBody::Map(
            cmember(c, m, names, "key"),
            cmember(c, m, names, "value"),
        ),
        4 | 5 => CBody::Structure(cmembers(c, m, names)),
        6 => CBody::Union(cmembers(c, m, names)),
        7 => {
            let version = if m.wild_strings && !m.service_version_only_plain && c.below(4) == 3 {
                format!("v{}", text(c, m))
            } else {
                c.pick(&["2006-03-01", "1.0", "v2 beta"]).to_string()
            };
            let operations = refs(c, m, names);
            let resources = refs(c, m, names);
            let mut renames = BTreeMap::new();
            let n = c.below(4);
            let n = if n == 3 { c.below(12) } else { n };
            for i in 0..n {
                let t = target(c, m, names);
                let n = format!("{}{}", c.pick(&NAMES), i);
                renames.insert(t, n);
            }
            CBody::Service {
                version,
                operations,
                resources,
                renames,
            }
        }
        8 => CBody::Operation {
            input: opt_ref(c, m, names),
            output: opt_ref(c, m, names),
            errors: refs(c, m, names),
        },
        9 => {
            let mut r = CResource::default();
            let n = c.below(4);
            let n = if n == 3 { c.below(12) } else { n };
            for _ in 0..n {
                let k = member_name(c, m);
                let v = target(c, m, names);
                r.identifiers.insert(k, v);
            }
            for l in ["create", "put", "read", "update", "delete", "list"] {
                if let Some(t) = opt_ref(c, m, names) {
                    r.lifecycle.insert(l.to_string(), t);
                }
            }
            r.operations = refs(c, m, names);
            r.collection_operations = refs(c, m, names);
            r.resources = refs(c, m, names);
            CBody::Resource(r)
        }
        _ => {
            if m.unresolved {
                CBody::Unresolved
            } else {
                CBody::Structure(cmembers(c, m, names))
            }
        }
    }
}

pub fn names(c: &mut Choices, m: &Mix) -> Names {
    let n = c.range(1, m.max_shapes);
    let mut ids: Vec<String> = Vec::new();
    for i in 0..n {
        let ns = NAMESPACES[c.size(m.namespaces)];
        let id = if m.max_shapes > 20 {
            format!("{ns}#{}{}", c.pick(&NAMES), i)
        } else {
            format!("{ns}#{}", shape_name(c, m))
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    Names { ids }
}

pub fn metadata(c: &mut Choices, m: &Mix) -> BTreeMap<String, CVal> {
    let mut o = BTreeMap::new();
    if m.metadata {
        let n = c.below(4);
        let n = if n == 3 { c.below(14) } else { n };
        for _ in 0..n {
            let k = obj_key(c, m);
            let v = val(c, m, m.max_depth);
            o.insert(k, v);
        }
    }
    o
}

pub fn model(c: &mut Choices, m: &Mix) -> CModel {
    let names = names(c, m);
    model_with(c, m, &names)
}

pub fn model_with(c: &mut Choices, m: &Mix, names: &Names) -> CModel {
    let mut out = CModel {
        metadata: metadata(c, m),
        shapes: BTreeMap::new(),
    };
    for id in &names.ids {
        let traits = traits(c, m, names);
        let body = body(c, m, names);
        out.shapes.insert(id.clone(), CShape { traits, body });
    }
    // traits applied to a member of a shape defined elsewhere
    if m.unresolved && c.below(6) == 5 {
        let shape = c.pick(&names.ids).clone();
        let id = format!("{shape}$foo");
        let mut traits = traits(c, m, names);
        if let CBody::Structure(ms) | CBody::Union(ms) = &out.shapes[&shape].body {
            if let Some(x) = ms.get("foo") {
                // a second value for a trait would be a conflict
                traits.retain(|t, _| !x.traits.keys().any(|y| y.eq_ignore_ascii_case(t)));
            }
        }
        out.shapes.insert(
            id,
            CShape {
                traits,
                body: CBody::Unresolved,
            },
        );
    }
    out
}

// ------------------------------------------------------------------------------------------------
// JSON documents as another tool might write them
// ------------------------------------------------------------------------------------------------

use serde_json::Value as J;

fn jstring(c: &mut Choices, style: u64, s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if style != 2 => o.push_str("\\n"),
            '\t' if style != 2 => o.push_str("\\t"),
            ch if (ch as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", ch as u32)),
            '/' if style == 1 => o.push_str("\\/"),
            ch if style == 2 && (!ch.is_ascii() || c.below(5) == 4) => {
                let mut b = [0u16; 2];
                for u in ch.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04X}", u));
                }
            }
            ch => o.push(ch),
        }
    }
    o.push('"');
    o
}

fn ws(c: &mut Choices, style: u64) -> &'static str {
    match style {
        0 => "",
        1 => [" ", "", "\n  "][c.size(3)],
        _ => ["", "\t", "\r\n", "   ", "\n"][c.size(5)],
    }
}

fn jwrite(c: &mut Choices, style: u64, j: &J, out: &mut String) {
    match j {
        J::Object(o) => {
            let mut keys: Vec<&String> = o.keys().collect();
            if style > 0 {
                for i in (1..keys.len()).rev() {
                    let k = c.size(i + 1);
                    keys.swap(i, k);
                }
            }
            out.push('{');
            for (i, k) in keys.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws(c, style));
                out.push_str(&jstring(c, style, k));
                out.push_str(ws(c, style));
                out.push(':');
                out.push_str(ws(c, style));
                jwrite(c, style, &o[*k], out);
                out.push_str(ws(c, style));
            }
            out.push('}');
        }
        J::Array(a) => {
            out.push('[');
            for (i, v) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(ws(c, style));
                jwrite(c, style, v, out);
                out.push_str(ws(c, style));
            }
            out.push(']');
        }
        J::String(s) => out.push_str(&jstring(c, style, s)),
        // integers that only a float can hold
        J::Number(n) if style > 0 && n.is_f64() && BIG.contains(&n.as_f64().unwrap_or(0.0)) => {
            out.push_str(&format!("{}", n.as_f64().unwrap() as u128));
        }
        v => out.push_str(&v.to_string()),
    }
}

const BIG: [f64; 4] = [9223372036854775808.0, 18446744073709549568.0, 1e20, 1e22];

/// The same document in some other legal spelling: key order, white space, escapes.
pub fn foreign_json(c: &mut Choices, m: &CModel) -> String {
    let style = c.below(3);
    let mut out = String::new();
    jwrite(c, style, &to_json(m), &mut out);
    out.push_str(ws(c, style));
    out
}
