//! What storage, transports and people do to documents.

use crate::choice::Choices;
use serde_json::Value as J;

const TOKENS: [&str; 64] = [
    "{", "}", "[", "]", "(", ")", ":", ",", "\"", "\"\"\"", "//", "///", "\n", "@", "#", "$", "=", "\\",
    "\"\"", "{}", "[]", "null", "true", "0", "-1", "1e999", "-", ".5", "00", "1.", "18446744073709551615",
    "99999999999999999999999", "namespace x.y\n", "use x.y#Z\n", "apply", "apply X @required\n", "service", "service S { version: \"\" }\n",
    "service S {}\n", "resource R {}\n", "operation O {}\n", "structure S { a: b, a: c }\n", "list L {}\n", "map M { key: String }\n",
    "\"smithy\": \"1.0\",", "\"shapes\": null,", "\"traits\": [],", "\"type\": \"service\",", "\"target\": 1,", "\"version\": \"\"",
    "metadata a = b\n", "metadata \"\" = 1\n", "$version: \"2.0\"\n", "$version: 1\n", "@a(b: c)", "@(", "é", "😀", "\u{0}",
    "\u{feff}", "\"\\u12\"", "\"\\ud800\"", "a.b#c$d$e", "smithy.api#",
];

/// Byte-level damage.
pub fn bytes(c: &mut Choices, doc: &[u8], other: &[u8]) -> Vec<u8> {
    let mut v = doc.to_vec();
    let n = c.range(1, 4);
    for _ in 0..n {
        let at = if v.is_empty() { 0 } else { c.size(v.len() + 1) };
        match c.below(9) {
            0 => v.truncate(at),
            1 => {
                if at < v.len() {
                    v[at] ^= 1 << c.below(8);
                }
            }
            2 => {
                if at < v.len() {
                    v[at] = c.below(256) as u8;
                }
            }
            3 => {
                let end = (at + c.size(40)).min(v.len());
                v.drain(at..end);
            }
            4 => {
                // a block delivered twice
                let end = (at + c.size(80)).min(v.len());
                let b = v[at..end].to_vec();
                let to = c.size(v.len() + 1);
                v.splice(to..to, b);
            }
            5 => {
                // a block of another file
                if !other.is_empty() {
                    let s = c.size(other.len());
                    let e = (s + c.size(200)).min(other.len());
                    v.splice(at..at, other[s..e].to_vec());
                }
            }
            6 => {
                // a page of zeros
                let end = (at + c.size(64)).min(v.len());
                for b in &mut v[at..end] {
                    *b = 0;
                }
            }
            _ => {
                let t = c.pick(&TOKENS).as_bytes().to_vec();
                v.splice(at..at, t);
            }
        }
    }
    v
}

/// A document of tokens, with no plan behind it.
pub fn soup(c: &mut Choices) -> Vec<u8> {
    let n = c.below(40);
    let mut s = String::new();
    for _ in 0..n {
        match c.below(5) {
            0 => s.push_str(c.pick(&["a", "b", "x.y", "S", "String", "member", "key", "value", "version"])),
            1 => s.push(' '),
            2 => s.push_str(c.pick(&["string S\n", "structure T {\n", "list L { member: S }\n", "@t\n", "@t(", "\"shapes\":{", "{\"smithy\":\"1.0\""])),
            _ => s.push_str(c.pick(&TOKENS)),
        }
    }
    s.into_bytes()
}

fn some_json(c: &mut Choices, depth: u64) -> J {
    match c.below(if depth == 0 { 7 } else { 9 }) {
        0 => J::Null,
        1 => J::Bool(c.below(2) == 1),
        2 => J::from(c.below(3) as i64 - 1),
        3 => J::from(u64::MAX),
        4 => J::from(1.5f64),
        5 => J::from(""),
        6 => J::from(*c.pick(&["x", "a.b#C", "a.b#C$d", "#", "smithy.api#String", "structure", "service", "1.0", "2.0", "0x", "é"])),
        7 => J::Array((0..c.below(3)).map(|_| some_json(c, depth - 1)).collect()),
        _ => {
            let mut o = serde_json::Map::new();
            for _ in 0..c.below(3) {
                let k = key(c);
                let v = some_json(c, depth - 1);
                o.insert(k, v);
            }
            J::Object(o)
        }
    }
}

fn key(c: &mut Choices) -> String {
    c.pick(&[
        "type", "target", "traits", "members", "member", "key", "value", "version", "operations", "resources", "rename",
        "identifiers", "create", "put", "read", "update", "delete", "list", "collectionOperations", "input", "output",
        "errors", "smithy", "metadata", "shapes", "apply", "", "a.b#C", "a.b#C$d", "no good", "é", "0",
    ])
    .to_string()
}

fn count(j: &J) -> usize {
    1 + match j {
        J::Array(a) => a.iter().map(count).sum(),
        J::Object(o) => o.values().map(count).sum(),
        _ => 0,
    }
}

fn at(j: &mut J, n: &mut usize, f: &mut dyn FnMut(&mut J)) -> bool {
    if *n == 0 {
        f(j);
        return true;
    }
    *n -= 1;
    match j {
        J::Array(a) => a.iter_mut().any(|v| at(v, n, f)),
        J::Object(o) => o.values_mut().any(|v| at(v, n, f)),
        _ => false,
    }
}

/// A well-formed JSON document whose structure is not what it should be.
pub fn json(c: &mut Choices, doc: &J) -> J {
    let mut j = doc.clone();
    for _ in 0..c.range(1, 3) {
        let n = count(&j);
        let mut k = c.size(n);
        let with = some_json(c, 2);
        let name = key(c);
        let how = c.below(5);
        let pick = c.size(64);
        at(&mut j, &mut k, &mut |v| match (how, &mut *v) {
            (0, J::Object(o)) => {
                o.insert(name.clone(), with.clone());
            }
            (1, J::Object(o)) if !o.is_empty() => {
                let victim = o.keys().nth(pick % o.len()).unwrap().clone();
                o.remove(&victim);
            }
            (2, J::Object(o)) if !o.is_empty() => {
                let victim = o.keys().nth(pick % o.len()).unwrap().clone();
                let x = o.remove(&victim).unwrap();
                o.insert(name.clone(), x);
            }
            (3, J::Object(o)) if !o.is_empty() => {
                let victim = o.keys().nth(pick % o.len()).unwrap().clone();
                o.insert(victim, with.clone());
            }
            _ => *v = with.clone(),
        });
    }
    j
}

/// An IDL text whose tokens were edited by a person: lines swapped, words replaced, names changed.
pub fn idl(c: &mut Choices, text: &str) -> String {
    let mut words: Vec<String> = Vec::new();
    let mut cur = String::new();
    let mut class = 9;
    for ch in text.chars() {
        let k = if ch.is_alphanumeric() || ch == '_' || ch == '.' { 0 } else if ch.is_whitespace() { 1 } else { 2 };
        if k != class || k == 2 {
            if !cur.is_empty() {
                words.push(std::mem::take(&mut cur));
            }
            class = k;
        }
        cur.push(ch);
    }
    words.push(cur);
    for _ in 0..c.range(1, 3) {
        if words.len() < 2 {
            break;
        }
        let i = c.size(words.len());
        match c.below(9) {
            8 => {
                // a number made extreme
                let numbers: Vec<usize> =
                    (0..words.len()).filter(|i| words[*i].chars().all(|c| c.is_ascii_digit() || c == '.') && !words[*i].is_empty()).collect();
                let n = c.pick(&NUMBERS).to_string();
                match numbers.is_empty() {
                    true => words[i] = n,
                    false => words[numbers[c.size(numbers.len())]] = n,
                }
            }
            6 | 7 => {
                // another word of the same class
                let class = |w: &str| w.chars().next().map(|c| if c.is_alphanumeric() { 0 } else if c.is_whitespace() { 1 } else { 2 });
                let k = class(&words[i]);
                let same: Vec<usize> = (0..words.len()).filter(|j| class(&words[*j]) == k && words[*j] != words[i]).collect();
                if !same.is_empty() {
                    words[i] = words[same[c.size(same.len())]].clone();
                }
            }
            0 => {
                let j = c.size(words.len());
                words.swap(i, j);
            }
            1 => {
                words.remove(i);
            }
            2 => {
                let w = words[i].clone();
                words.insert(i, w);
            }
            3 => words[i] = c.pick(&TOKENS).to_string(),
            4 => {
                let j = c.size(words.len());
                words[i] = words[j].clone();
            }
            _ => words.insert(i, c.pick(&TOKENS).to_string()),
        }
    }
    words.concat()
}

const NUMBERS: [&str; 16] = [
    "99999999999999999999", "-9223372036854775809", "9223372036854775808", "1e400", "-1e400", "0", "-0", "00", "1.", "1e", "-", "0x10", "1e-400",
    "340282366920938463463374607431768211456", "18446744073709551615", "1.5E+3",
];

fn idl_value(c: &mut Choices, depth: u64) -> String {
    match c.below(if depth == 0 { 9 } else { 12 }) {
        0 => c.pick(&NUMBERS).to_string(),
        1 => c.pick(&["true", "false", "null"]).to_string(),
        2 | 3 => c.pick(&["S", "String", "a.b#S", "a.b#S$m", "S$m", "c.d#X", "smithy.api#String"]).to_string(),
        4 => format!("{:?}", c.pick(&["", "x", "S", "a.b#S", "a.b#S$m", "not a name", "1.0", "é", "\u{7f}"])),
        5 => "\"\"\"\n  text \"quoted\"\n  \"\"\"".to_string(),
        6 => c.below(100).to_string(),
        7 => "[]".to_string(),
        8 => "{}".to_string(),
        9 | 10 => {
            let n = c.below(4);
            format!("[{}]", (0..n).map(|_| idl_value(c, depth - 1)).collect::<Vec<_>>().join(", "))
        }
        _ => {
            let n = c.below(4);
            format!("{{{}}}", (0..n).map(|_| format!("{}: {}", idl_key(c), idl_value(c, depth - 1))).collect::<Vec<_>>().join(", "))
        }
    }
}

fn idl_key(c: &mut Choices) -> String {
    c.pick(&["a", "version", "\"\"", "\"a b\"", "\"a.b#S\"", "\"a.b#S$m\"", "input", "_x", "\"é\"", "\"1\"", "true", "string"]).to_string()
}

fn idl_trait(c: &mut Choices) -> String {
    let id = *c.pick(&["t", "deprecated", "a.b#t", "a.b#S$m", "trait", "enum", "documentation", "length", "references", "S"]);
    match c.below(5) {
        0 => format!("@{id}\n"),
        1 => format!("@{id}()\n"),
        2 => format!("@{id}({})\n", idl_value(c, 3)),
        3 => format!("@{id}({}: {}, {}: {})\n", idl_key(c), idl_value(c, 2), idl_key(c), idl_value(c, 2)),
        _ => format!("/// a comment\n//// another\n@{id}\n"),
    }
}

/// A document that follows the grammar and nothing else: any value of any property, any name.
pub fn grammatical(c: &mut Choices) -> String {
    let mut out = String::new();
    for _ in 0..c.below(3) {
        let k = *c.pick(&["version", "\"version\"", "other", "\"a b\"", "\"\""]);
        let v = if c.below(2) == 1 { "\"1.0\"".to_string() } else { idl_value(c, 2) };
        out += &format!("${k}: {v}\n");
    }
    for _ in 0..c.below(3) {
        out += &format!("metadata {} = {}\n", idl_key(c), idl_value(c, 4));
    }
    if c.below(12) == 11 {
        return out;
    }
    out += &format!("namespace {}\n", c.pick(&["a.b", "a", "smithy.api", "a.b.c_d"]));
    for _ in 0..c.below(3) {
        out += &format!("use {}\n", c.pick(&["c.d#X", "a.b#S", "smithy.api#String", "c.d#X", "e.f#X", "c.d#x"]));
    }
    for _ in 0..c.range(1, 5) {
        for _ in 0..c.below(3) {
            out += &idl_trait(c);
        }
        let name = *c.pick(&["S", "T", "s", "String", "X", "_", "U1", "list", "apply"]);
        let props: &[&str] = match c.below(10) {
            0 => {
                out += &format!("{} {name}\n", c.pick(&["string", "blob", "document", "bigDecimal", "String", "strings"]));
                continue;
            }
            1 => {
                let t = idl_trait(c);
                out += &format!("apply {} {t}\n", c.pick(&["S", "S$m", "a.b#T", "c.d#X$m", "c.d#X", "smithy.api#String", "S$member"]));
                continue;
            }
            2 | 3 => {
                let kind = *c.pick(&["list", "set", "map", "structure", "union"]);
                out += &format!("{kind} {name} {{\n");
                for _ in 0..c.below(4) {
                    for _ in 0..c.below(3) {
                        out += &idl_trait(c);
                    }
                    let m = *c.pick(&["member", "key", "value", "m", "M", "\"q\"", "version", "member"]);
                    out += &format!("{m}: {}\n", c.pick(&["S", "String", "a.b#S", "a.b#S$m", "S$m", "c.d#X", "smithy.api#String", "\"S\"", "X"]));
                }
                out += "}\n";
                continue;
            }
            4 | 5 => {
                out += &format!("service {name} {{\n");
                if c.below(3) > 0 {
                    out += "version: \"1\"\n";
                }
                &["version", "operations", "resources", "rename", "\"rename\"", "errors", "other"]
            }
            6 | 7 => {
                out += &format!("operation {name} {{\n");
                &["input", "output", "errors", "\"input\"", "other"]
            }
            _ => {
                out += &format!("resource {name} {{\n");
                &[
                    "identifiers", "create", "put", "read", "update", "delete", "list", "operations", "collectionOperations", "resources",
                    "\"list\"", "collection_operations", "other",
                ]
            }
        };
        for _ in 0..c.below(5) {
            out += &format!("{}: {}\n", c.pick(props), idl_value(c, 2));
        }
        out += "}\n";
    }
    out
}
