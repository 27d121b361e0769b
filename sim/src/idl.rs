//! Reference Smithy IDL texts: one namespace of a reference model, written in any of the legal
//! layouts, independently of the writer under test.

use crate::canon::*;
use crate::choice::Choices;
use std::collections::{BTreeMap, BTreeSet};

/// What a text may contain beyond the plainest Smithy.
#[derive(Clone, Copy, Debug, Default)]
pub struct Style {
    /// Escapes in quoted strings.
    pub escapes: bool,
    /// Keys of nested objects in quotes.
    pub quoted_keys: bool,
    /// Traits of list and set members written at the member.
    pub list_member_traits: bool,
    /// 0: one fixed layout; 1: varied; 2: wild
    pub layout: u64,
}

pub fn is_ident(s: &str) -> bool {
    let t = s.trim_start_matches('_');
    let mut c = t.chars();
    matches!(c.next(), Some(x) if x.is_ascii_alphabetic())
        && c.all(|x| x.is_ascii_alphanumeric() || x == '_')
}

fn is_shape_id(s: &str) -> bool {
    if ["true", "false", "null"].contains(&s) {
        return false;
    }
    match s.split_once('#') {
        None => is_ident(s),
        Some((n, i)) => n.split('.').all(is_ident) && is_ident(i),
    }
}

pub const PRELUDE_SHAPE_NAMES: &[&str] = &[
    "String", "Blob", "BigInteger", "BigDecimal", "Timestamp", "Document", "Boolean", "PrimitiveBoolean",
    "Byte", "PrimitiveByte", "Short", "PrimitiveShort", "Integer", "PrimitiveInteger", "Long",
    "PrimitiveLong", "Float", "PrimitiveFloat", "Double", "PrimitiveDouble",
];

/// Prelude traits that texts name by their short name.
pub const SHORT_TRAITS: &[&str] = &[
    "documentation", "required", "tags", "length", "range", "pattern", "deprecated", "enum", "error",
    "readonly", "paginated", "trait", "box", "since",
];

pub fn ns_of(id: &str) -> &str {
    id.split('#').next().unwrap_or("")
}
pub fn name_of(id: &str) -> &str {
    id.split('#').nth(1).unwrap_or("").split('$').next().unwrap_or("")
}

pub struct Writer<'a> {
    c: &'a mut Choices,
    style: Style,
    ns: &'a str,
    /// Names of the shapes this file defines.
    local: BTreeSet<String>,
    /// Shape names brought in by `use`.
    used: BTreeMap<String, String>,
    out: String,
}

enum Again {
    No,
    Same,
    More(CVal),
}

const COMMENTS: [&str; 8] = [
    "",
    " a comment",
    " \"quoted\" { [ ( @trait",
    " structure Fake { foo: Bar }",
    " é 日本 😀",
    "\tx // y \\",
    " apply Foo @bar",
    "-",
];

impl Writer<'_> {
    /// White space; `must` asks for at least one character.
    fn ws(&mut self, must: bool) {
        let n = match self.style.layout {
            0 => 0,
            1 => self.c.below(6),
            _ => self.c.below(12),
        };
        let s = match n {
            0 | 1 => " ",
            2 => "\n",
            3 => "  ",
            4 => "\t",
            5 => "\n    ",
            6 | 7 => {
                let t = *self.c.pick(&COMMENTS);
                let nl = *self.c.pick(&["\n", "\r\n", "\n\n"]);
                self.out.push_str(if self.c.below(2) == 0 { " " } else { "\n" });
                self.out.push_str("//");
                self.out.push_str(t);
                self.out.push_str(nl);
                return;
            }
            8 => "\n\n\n",
            9 => "\r\n",
            10 => "\r\n\t \r\n",
            _ => {
                if must {
                    " "
                } else {
                    ""
                }
            }
        };
        self.out.push_str(s);
    }
    /// White space that may be left out.
    fn opt(&mut self) {
        if self.style.layout > 0 && self.c.below(2) == 1 {
            self.ws(false);
        }
    }
    fn line(&mut self) {
        match self.style.layout {
            0 => self.out.push('\n'),
            _ => {
                let s = *self.c.pick(&["\n", "\n\n", "\r\n", "\n  \n\t"]);
                self.out.push_str(s);
                if self.c.below(4) == 3 {
                    self.ws(true);
                }
            }
        }
    }
    fn p(&mut self, s: &str) {
        self.out.push_str(s);
    }

    fn plain(s: &str) -> bool {
        s.chars().all(|c| c >= ' ' && c != '"' && c != '\\')
    }

    fn quoted(&mut self, s: &str) {
        self.quoted_with(s, false)
    }

    fn quoted_with(&mut self, s: &str, fancy: bool) {
        self.out.push('"');
        for ch in s.chars() {
            let over = fancy && self.style.escapes && self.style.layout > 1 && self.c.below(12) == 11;
            match ch {
                '"' => self.out.push_str("\\\""),
                '\\' => self.out.push_str("\\\\"),
                '\n' => self.out.push_str("\\n"),
                '\r' => self.out.push_str("\\r"),
                '\t' => self.out.push_str("\\t"),
                '\u{8}' => self.out.push_str("\\b"),
                '\u{c}' => self.out.push_str("\\f"),
                '/' if over => self.out.push_str("\\/"),
                ch if ch < ' ' => self.out.push_str(&format!("\\u{:04x}", ch as u32)),
                ch if over && (ch as u32) < 0xd800 => {
                    self.out.push_str(&format!("\\u{:04X}", ch as u32))
                }
                ch => self.out.push(ch),
            }
        }
        self.out.push('"');
    }

    fn block_ok(s: &str) -> bool {
        !s.is_empty()
            && !s.contains('\\')
            && !s.contains("\"\"\"")
            && !s.ends_with('"')
            && s.chars().all(|c| c >= ' ' || c == '\n')
            && s.split('\n').all(|l| !l.is_empty() && l.trim() == l)
    }

    fn string(&mut self, s: &str) {
        if is_shape_id(s) && self.style.layout > 0 && self.c.below(3) == 2 {
            self.p(s);
        } else if Self::block_ok(s) && self.style.layout > 0 && self.c.below(4) == 3 {
            let pad = *self.c.pick(&["\n", "\r\n", "\n\n"]);
            self.p("\"\"\"");
            self.p(if pad == "\n\n" { "\n" } else { pad });
            self.p(s);
            self.p("\"\"\"");
        } else if Self::plain(s) || self.style.escapes {
            self.quoted_with(s, true);
        } else if Self::block_ok(s) {
            self.p("\"\"\"\n");
            self.p(s);
            self.p("\"\"\"");
        } else {
            panic!("text {s:?} needs an escape");
        }
    }

    fn key(&mut self, k: &str, nested: bool) {
        let may_quote = !nested || self.style.quoted_keys;
        if is_ident(k) && !(may_quote && self.style.layout > 0 && self.c.below(3) == 2) {
            self.p(k);
        } else {
            self.quoted(k);
        }
    }

    fn number(&mut self, f: f64) {
        let s = match if self.style.layout > 0 { self.c.below(4) } else { 0 } {
            2 => {
                let e = format!("{f:e}");
                match self.c.below(3) {
                    0 => e,
                    1 => e.replace('e', "E"),
                    _ if !e.contains("e-") => e.replace('e', "e+"),
                    _ => e,
                }
            }
            3 if !format!("{f:?}").contains('e') => format!("{f:?}00"),
            _ => format!("{f:?}"),
        };
        self.p(&s);
    }

    pub fn value(&mut self, v: &CVal) {
        match v {
            CVal::Null => self.p("null"),
            CVal::Bool(b) => self.p(if *b { "true" } else { "false" }),
            CVal::Int(i) => {
                let s = i.to_string();
                self.p(&s)
            }
            CVal::Float(f) => self.number(*f),
            CVal::Str(s) => self.string(s),
            CVal::Arr(a) => {
                self.p("[");
                self.opt();
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        self.sep();
                    }
                    self.value(v);
                }
                self.opt();
                self.trailing(!a.is_empty());
                self.p("]");
            }
            CVal::Obj(o) => {
                self.p("{");
                self.opt();
                self.kvps(o, true);
                self.opt();
                self.trailing(!o.is_empty());
                self.p("}");
            }
        }
    }

    fn trailing(&mut self, any: bool) {
        if any && self.style.layout > 0 && self.c.below(3) == 2 {
            self.p(",");
        }
    }

    fn sep(&mut self) {
        self.opt();
        self.p(",");
        self.ws(true);
    }

    fn order<'m, V>(&mut self, o: &'m BTreeMap<String, V>) -> Vec<(&'m String, &'m V)> {
        let mut v: Vec<_> = o.iter().collect();
        if self.style.layout > 0 {
            for i in (1..v.len()).rev() {
                let k = self.c.size(i + 1);
                v.swap(i, k);
            }
        }
        v
    }

    fn kvps(&mut self, o: &BTreeMap<String, CVal>, nested: bool) {
        for (i, (k, v)) in self.order(o).into_iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            self.key(k, nested);
            self.opt();
            self.p(":");
            self.opt();
            self.value(v);
        }
    }

    /// A name that resolves to this id.
    fn name(&mut self, id: &str, is_trait: bool) -> String {
        let (ns, n) = (ns_of(id), name_of(id));
        let shadow = self.used.get(n).map(|u| u.as_str());
        let prelude = if is_trait {
            SHORT_TRAITS.contains(&n)
        } else {
            PRELUDE_SHAPE_NAMES.contains(&n)
        };
        let short_ok = if shadow == Some(id) {
            true
        } else if shadow.is_some() {
            false
        } else if ns == self.ns {
            self.local.contains(n) || (!PRELUDE_SHAPE_NAMES.contains(&n) && !SHORT_TRAITS.contains(&n) && !OTHER_TRAITS.contains(&n))
        } else {
            ns == "smithy.api" && prelude && !self.local.contains(n)
        };
        // as a value, these stand for themselves
        let short_ok = short_ok && !["true", "false", "null"].contains(&n);
        if short_ok && (self.style.layout == 0 || self.c.below(4) > 0) {
            n.to_string()
        } else {
            id.to_string()
        }
    }

    fn a_trait(&mut self, id: &str, v: &CVal) {
        self.p("@");
        let n = self.name(id, true);
        self.p(&n);
        match v {
            CVal::Obj(o) if o.is_empty() => match self.c.below(3) {
                0 => {}
                1 => {
                    self.p("(");
                    self.opt();
                    self.p(")");
                }
                _ => {
                    self.p("(");
                    self.value(v);
                    self.p(")");
                }
            },
            CVal::Obj(o) => {
                self.p("(");
                self.opt();
                // the members of a trait may be written without braces
                let nested = self.style.layout > 0 && self.c.below(4) == 3 && o.keys().all(|k| is_ident(k));
                if nested {
                    self.value(v);
                } else {
                    self.kvps(o, false);
                    self.trailing(true);
                }
                self.opt();
                self.p(")");
            }
            v => {
                self.p("(");
                self.opt();
                self.value(v);
                self.opt();
                self.p(")");
            }
        }
    }

    fn doc_ok(s: &str) -> bool {
        s.split('\n')
            .all(|l| l.trim_start() == l && l.chars().all(|c| c >= ' ' || c == '\t'))
    }

    /// Doc comments and traits in front of a definition.
    fn traits(&mut self, t: &CTraits, indent: &str) {
        let mut rest = t.clone();
        let doc = "smithy.api#documentation";
        let doc_here = match rest.get(doc) {
            Some(CVal::Str(s)) if Self::doc_ok(s) && s.len() < 3000 => {
                self.style.layout > 0 && self.c.below(2) == 1
            }
            _ => false,
        };
        if doc_here {
            let s = match rest.remove(doc) {
                Some(CVal::Str(s)) => s,
                _ => unreachable!(),
            };
            for l in s.split('\n') {
                self.p(indent);
                self.p("///");
                if !l.is_empty() {
                    self.p(" ");
                }
                self.p(l);
                let nl = if self.style.layout > 1 && self.c.below(4) == 3 { "\r\n" } else { "\n" };
                self.p(nl);
            }
        }
        for (id, v) in self.order(&rest) {
            let (first, again) = self.in_two(v);
            self.p(indent);
            let at = self.out.len();
            self.a_trait(id, &first);
            let text = self.out[at..].to_string();
            self.ws(true);
            match again {
                Again::No => {}
                Again::Same => {
                    self.p(&text);
                    self.ws(true);
                }
                Again::More(v) => {
                    self.a_trait(id, &v);
                    self.ws(true);
                }
            }
        }
    }

    /// What is said in one statement may be said in two: the same again, or an array in two parts.
    fn in_two(&mut self, v: &CVal) -> (CVal, Again) {
        if self.style.layout == 0 || self.c.below(10) < 9 {
            return (v.clone(), Again::No);
        }
        match v {
            CVal::Arr(a) => {
                let at = self.c.size(a.len() + 1);
                (CVal::Arr(a[..at].to_vec()), Again::More(CVal::Arr(a[at..].to_vec())))
            }
            v => (v.clone(), Again::Same),
        }
    }

    fn members(&mut self, ms: &[&CMember]) {
        self.p("{");
        self.line();
        for (i, m) in ms.iter().enumerate() {
            self.traits(&m.traits, "    ");
            self.key_member(m);
            if self.style.layout == 0 || i + 1 < ms.len() || self.c.below(2) == 1 {
                self.p(",");
            }
            self.line();
        }
        self.p("}");
    }
    fn key_member(&mut self, m: &CMember) {
        self.p(&m.id);
        self.opt();
        self.p(":");
        self.opt();
        let t = self.name(&m.target, false);
        self.p(&t);
    }

    fn reference(&mut self, id: &str) {
        let n = self.name(id, false);
        if self.style.layout > 0 && self.c.below(5) == 4 {
            self.p("\"");
            self.p(&n);
            self.p("\"");
        } else {
            self.p(&n);
        }
    }
    fn refs(&mut self, v: &[String]) {
        self.p("[");
        self.opt();
        for (i, r) in v.iter().enumerate() {
            if i > 0 {
                self.sep();
            }
            self.reference(r);
        }
        self.opt();
        self.trailing(!v.is_empty());
        self.p("]");
    }
    fn fields(&mut self, fs: Vec<(String, Field)>) {
        let mut fs = fs;
        if self.style.layout > 0 {
            for i in (1..fs.len()).rev() {
                let k = self.c.size(i + 1);
                fs.swap(i, k);
            }
        }
        self.p("{");
        self.line();
        let n = fs.len();
        for (i, (k, f)) in fs.into_iter().enumerate() {
            self.key(&k, false);
            self.opt();
            self.p(":");
            self.opt();
            match f {
                Field::Text(s) => self.string(&s),
                Field::Ref(r) => self.reference(&r),
                Field::Refs(r) => self.refs(&r),
                Field::Ids(m) => {
                    self.p("{");
                    self.opt();
                    for (i, (k, v)) in self.order(&m).into_iter().enumerate() {
                        if i > 0 {
                            self.sep();
                        }
                        self.key(k, false);
                        self.opt();
                        self.p(":");
                        self.opt();
                        self.reference(v);
                    }
                    self.opt();
                    self.trailing(!m.is_empty());
                    self.p("}");
                }
                Field::Renames(m) => {
                    self.p("{");
                    self.opt();
                    for (i, (k, v)) in self.order(&m).into_iter().enumerate() {
                        if i > 0 {
                            self.sep();
                        }
                        self.quoted(k);
                        self.opt();
                        self.p(":");
                        self.opt();
                        self.quoted(v);
                    }
                    self.opt();
                    self.p("}");
                }
            }
            if self.style.layout == 0 || i + 1 < n || self.c.below(2) == 1 {
                self.p(",");
            }
            self.line();
        }
        self.p("}");
    }

    fn shape(&mut self, id: &str, s: &CShape) {
        self.traits(&s.traits, "");
        let kind = kind_of(&s.body);
        self.p(&kind);
        self.ws(true);
        self.p(name_of(id));
        if !matches!(s.body, CBody::Simple(_)) {
            self.ws(true);
        }
        match &s.body {
            CBody::Simple(_) | CBody::Unresolved => {}
            CBody::List(m) | CBody::Set(m) => self.members(&[m]),
            CBody::Map(k, v) => {
                let flip = self.style.layout > 0 && self.c.below(3) == 2;
                if flip {
                    self.members(&[v, k])
                } else {
                    self.members(&[k, v])
                }
            }
            CBody::Structure(ms) | CBody::Union(ms) => {
                let o: Vec<&CMember> = self.order(ms).into_iter().map(|(_, m)| m).collect();
                self.members(&o)
            }
            CBody::Service { version, operations, resources, renames } => {
                let mut f = vec![("version".to_string(), Field::Text(version.clone()))];
                if !operations.is_empty() || self.c.below(4) == 3 {
                    f.push(("operations".into(), Field::Refs(operations.clone())));
                }
                if !resources.is_empty() || self.c.below(4) == 3 {
                    f.push(("resources".into(), Field::Refs(resources.clone())));
                }
                if !renames.is_empty() {
                    f.push(("rename".into(), Field::Renames(renames.clone())));
                }
                self.fields(f)
            }
            CBody::Operation { input, output, errors } => {
                let mut f = vec![];
                if let Some(i) = input {
                    f.push(("input".to_string(), Field::Ref(i.clone())));
                }
                if let Some(i) = output {
                    f.push(("output".to_string(), Field::Ref(i.clone())));
                }
                if !errors.is_empty() || self.c.below(4) == 3 {
                    f.push(("errors".into(), Field::Refs(errors.clone())));
                }
                self.fields(f)
            }
            CBody::Resource(r) => {
                let mut f = vec![];
                if !r.identifiers.is_empty() {
                    f.push(("identifiers".to_string(), Field::Ids(r.identifiers.clone())));
                }
                for (k, v) in &r.lifecycle {
                    f.push((k.clone(), Field::Ref(v.clone())));
                }
                for (k, v) in [
                    ("operations", &r.operations),
                    ("collectionOperations", &r.collection_operations),
                    ("resources", &r.resources),
                ] {
                    if !v.is_empty() {
                        f.push((k.to_string(), Field::Refs(v.clone())));
                    }
                }
                self.fields(f)
            }
        }
        self.line();
    }
}

enum Field {
    Text(String),
    Ref(String),
    Refs(Vec<String>),
    Ids(BTreeMap<String, String>),
    Renames(BTreeMap<String, String>),
}

/// Names the prelude also gives to traits; never used as a short name of anything else.
const OTHER_TRAITS: &[&str] = &[
    "title", "sensitive", "private", "unstable", "internal", "streaming", "http", "httpError",
    "idempotent", "references", "endpoint", "cors", "auth", "protocolDefinition", "uniqueItems",
    "timestampFormat", "mediaType", "jsonName", "xmlName", "recommended", "suppress", "noReplace",
    "resourceIdentifier", "externalDocumentation", "retryable", "waitable", "sparse", "optionalAuth",
    "hostLabel", "eventHeader", "eventPayload", "requiresLength", "idRef", "examples",
];

pub fn kind_of(b: &CBody) -> String {
    match b {
        CBody::Simple(s) => s.clone(),
        CBody::List(_) => "list".into(),
        CBody::Set(_) => "set".into(),
        CBody::Map(..) => "map".into(),
        CBody::Structure(_) => "structure".into(),
        CBody::Union(_) => "union".into(),
        CBody::Service { .. } => "service".into(),
        CBody::Operation { .. } => "operation".into(),
        CBody::Resource(_) => "resource".into(),
        CBody::Unresolved => "unresolved".into(),
    }
}

pub fn members_mut(b: &mut CBody) -> Vec<&mut CMember> {
    match b {
        CBody::List(m) | CBody::Set(m) => vec![m],
        CBody::Map(k, v) => vec![k, v],
        CBody::Structure(ms) | CBody::Union(ms) => ms.values_mut().collect(),
        _ => vec![],
    }
}

pub fn members_of(b: &CBody) -> Vec<&CMember> {
    match b {
        CBody::List(m) | CBody::Set(m) => vec![m],
        CBody::Map(k, v) => vec![k, v],
        CBody::Structure(ms) | CBody::Union(ms) => ms.values().collect(),
        _ => vec![],
    }
}

fn targets(b: &CBody) -> Vec<String> {
    let mut v: Vec<String> = members_of(b).iter().map(|m| m.target.clone()).collect();
    match b {
        CBody::Service { operations, resources, .. } => {
            v.extend(operations.iter().chain(resources).cloned())
        }
        CBody::Operation { input, output, errors } => {
            v.extend(input.iter().chain(output).chain(errors).cloned())
        }
        CBody::Resource(r) => {
            v.extend(r.identifiers.values().chain(r.lifecycle.values()).cloned());
            v.extend(
                r.operations
                    .iter()
                    .chain(&r.collection_operations)
                    .chain(&r.resources)
                    .cloned(),
            );
        }
        _ => {}
    }
    v
}

/// The part of a model that a file for this namespace holds: its metadata, the shapes the
/// namespace defines, and the traits applied to shapes defined nowhere.
pub fn part(m: &CModel, ns: &str) -> CModel {
    CModel {
        metadata: m.metadata.clone(),
        shapes: m
            .shapes
            .iter()
            .filter(|(id, s)| {
                if s.body == CBody::Unresolved {
                    !s.traits.is_empty()
                } else {
                    ns_of(id) == ns
                }
            })
            .map(|(a, b)| (a.clone(), b.clone()))
            .collect(),
    }
}

/// Drop what is only a reference, and move traits applied to a member onto the member.
pub fn settle(m: &CModel) -> CModel {
    let mut out = m.clone();
    let ids: Vec<String> = out.shapes.keys().cloned().collect();
    for id in ids {
        if out.shapes[&id].body != CBody::Unresolved {
            continue;
        }
        if out.shapes[&id].traits.is_empty() {
            out.shapes.remove(&id);
            continue;
        }
        if let Some((shape, member)) = id.split_once('$') {
            let t = out.shapes[&id].traits.clone();
            if let Some(s) = out.shapes.get_mut(shape) {
                if let Some(m) = members_mut(&mut s.body).into_iter().find(|m| m.id == member) {
                    m.traits.extend(t);
                    out.shapes.remove(&id);
                }
            }
        }
    }
    out
}

/// Write the shapes of one namespace; `m` must be what `part` returns.
pub fn text(c: &mut Choices, m: &CModel, ns: &str, style: Style) -> String {
    text_with(c, m, ns, style, &Extra::default())
}

/// What a document says besides.
#[derive(Default)]
pub struct Extra {
    pub metadata: Vec<(String, CVal)>,
    pub uses: Vec<String>,
    /// Statements; a line each.
    pub statements: Vec<String>,
}

/// The text of one value, in the plainest layout.
pub fn value_text(c: &mut Choices, v: &CVal) -> String {
    let mut w = Writer { c, style: Style::default(), ns: "", local: BTreeSet::new(), used: BTreeMap::new(), out: String::new() };
    w.value(v);
    w.out
}

pub fn text_with(c: &mut Choices, m: &CModel, ns: &str, style: Style, extra: &Extra) -> String {
    let local: BTreeSet<String> = m
        .shapes
        .iter()
        .filter(|(id, s)| ns_of(id) == ns && s.body != CBody::Unresolved && !id.contains('$'))
        .map(|(id, _)| name_of(id).to_string())
        .collect();
    let mut foreign: BTreeSet<String> = BTreeSet::new();
    for s in m.shapes.values() {
        for t in targets(&s.body) {
            if ns_of(&t) != ns && ns_of(&t) != "smithy.api" {
                foreign.insert(t);
            }
        }
        for t in s.traits.keys().chain(members_of(&s.body).iter().flat_map(|m| m.traits.keys())) {
            if ns_of(t) != ns && ns_of(t) != "smithy.api" {
                foreign.insert(t.clone());
            }
        }
    }
    let mut w = Writer {
        c,
        style,
        ns,
        local,
        used: BTreeMap::new(),
        out: String::new(),
    };
    // names that must not be captured by a `use`: every name of this namespace that is written
    let mut own: BTreeSet<String> = w.local.iter().map(|n| n.to_lowercase()).collect();
    for s in m.shapes.values() {
        for t in targets(&s.body)
            .iter()
            .chain(s.traits.keys())
            .chain(members_of(&s.body).iter().flat_map(|m| m.traits.keys()))
        {
            if ns_of(t) == ns {
                own.insert(name_of(t).to_lowercase());
            }
        }
    }
    for id in m.shapes.keys() {
        if ns_of(id) == ns {
            own.insert(name_of(id).to_lowercase());
        }
    }
    for f in &foreign {
        let n = name_of(f).to_string();
        if own.contains(&n.to_lowercase())
            || w.used.keys().any(|u| u.eq_ignore_ascii_case(&n))
            || f.contains('$')
        {
            continue;
        }
        if w.c.below(2) == 1 {
            w.used.insert(n, f.clone());
        }
    }

    if w.style.layout > 0 {
        w.opt();
    }
    match w.c.below(3) {
        0 => {
            w.p("$version: \"1.0\"");
            w.line();
        }
        1 => {
            w.p("$version:");
            w.opt();
            w.p("\"1.0\"");
            w.line();
        }
        _ => {}
    }
    let mut later: Vec<(String, CVal)> = Vec::new();
    let statement = |w: &mut Writer<'_>, k: &str, v: &CVal| {
        w.p("metadata ");
        w.key(k, false);
        w.ws(true);
        w.p("=");
        w.ws(true);
        w.value(v);
        w.line();
    };
    for (k, v) in w.order(&m.metadata) {
        let (first, again) = w.in_two(v);
        let at = w.out.len();
        statement(&mut w, k, &first);
        match again {
            Again::No => {}
            Again::Same => {
                let text = w.out[at..].to_string();
                w.p(&text);
            }
            Again::More(v) if w.c.below(2) == 1 => later.push((k.clone(), v)),
            Again::More(v) => statement(&mut w, k, &v),
        }
    }
    for (k, v) in later.iter().chain(&extra.metadata) {
        statement(&mut w, k, v);
    }
    w.p("namespace");
    w.ws(true);
    w.p(ns);
    w.line();
    let used: Vec<String> = w.used.values().cloned().collect();
    for u in used.iter().chain(&extra.uses) {
        w.p("use");
        w.ws(true);
        w.p(u);
        w.line();
    }

    // statements, in any order
    enum St {
        Shape(String, CShape),
        Apply(String, String, CVal),
        Text(String),
    }
    let mut sts: Vec<St> = Vec::new();
    for (id, s) in &m.shapes {
        let mut s = s.clone();
        if s.body == CBody::Unresolved {
            for (t, v) in &s.traits {
                sts.push(St::Apply(id.clone(), t.clone(), v.clone()));
            }
            continue;
        }
        let listy = matches!(s.body, CBody::List(_) | CBody::Set(_));
        let spread = w.style.layout > 0 && w.c.below(4) == 3;
        let mut moved: Vec<(String, String, CVal)> = Vec::new();
        if spread {
            let keys: Vec<String> = s.traits.keys().cloned().collect();
            for k in keys {
                if w.c.below(2) == 1 {
                    let v = s.traits.remove(&k).unwrap();
                    moved.push((id.clone(), k, v));
                }
            }
        }
        for mem in members_mut(&mut s.body) {
            let at = format!("{id}${}", mem.id);
            let keys: Vec<String> = mem.traits.keys().cloned().collect();
            for k in keys {
                let forced = listy && !w.style.list_member_traits;
                if forced || (spread && w.c.below(2) == 1) {
                    let v = mem.traits.remove(&k).unwrap();
                    moved.push((at.clone(), k, v));
                }
            }
        }
        sts.push(St::Shape(id.clone(), s));
        for (a, t, v) in moved {
            sts.push(St::Apply(a, t, v));
        }
    }
    sts.extend(extra.statements.iter().cloned().map(St::Text));
    if w.style.layout > 0 {
        for i in (1..sts.len()).rev() {
            let k = w.c.size(i + 1);
            sts.swap(i, k);
        }
    }
    for st in sts {
        match st {
            St::Shape(id, s) => w.shape(&id, &s),
            St::Text(t) => {
                w.p(&t);
                w.line();
            }
            St::Apply(at, t, v) => {
                w.p("apply");
                w.ws(true);
                // always absolute: what a relative name here means is not settled
                let rel = ns_of(&at) == ns && w.local.contains(name_of(&at)) && w.c.below(3) == 2;
                if rel {
                    w.p(at.split('#').nth(1).unwrap());
                } else {
                    w.p(&at);
                }
                w.ws(true);
                w.a_trait(&t, &v);
                w.line();
            }
        }
        if w.style.layout > 0 && w.c.below(4) == 3 {
            w.ws(false);
        }
    }
    if w.style.layout > 1 && w.c.below(3) == 2 {
        w.p("// the end");
    }
    w.out
}

/// Undo the escapes of a quoted string.
pub fn unescape(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next()? {
            '"' => out.push('"'),
            '\\' => out.push('\\'),
            '\'' => out.push('\''),
            '/' => out.push('/'),
            'b' => out.push('\u{8}'),
            'f' => out.push('\u{c}'),
            'n' => out.push('\n'),
            'r' => out.push('\r'),
            't' => out.push('\t'),
            'u' => {
                let h: String = it.by_ref().take(4).collect();
                out.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
            }
            _ => return None,
        }
    }
    Some(out)
}

fn map_val(v: &CVal, text: &dyn Fn(&str) -> String, key: &dyn Fn(&str) -> String) -> CVal {
    match v {
        CVal::Str(s) => CVal::Str(text(s)),
        CVal::Arr(a) => CVal::Arr(a.iter().map(|v| map_val(v, text, key)).collect()),
        CVal::Obj(o) => CVal::Obj(o.iter().map(|(k, v)| (key(k), map_val(v, text, key))).collect()),
        v => v.clone(),
    }
}

/// The same model with every text and every object key rewritten.
pub fn rewrite(m: &CModel, text: &dyn Fn(&str) -> String, key: &dyn Fn(&str) -> String) -> CModel {
    let tr = |t: &CTraits| -> CTraits {
        t.iter().map(|(k, v)| (k.clone(), map_val(v, text, key))).collect()
    };
    let mut out = CModel::default();
    for (k, v) in &m.metadata {
        out.metadata.insert(key(k), map_val(v, text, key));
    }
    for (id, s) in &m.shapes {
        let mut s = CShape { traits: tr(&s.traits), body: s.body.clone() };
        for mem in members_mut(&mut s.body) {
            mem.traits = tr(&mem.traits);
        }
        if let CBody::Service { version, .. } = &mut s.body {
            *version = text(version);
        }
        out.shapes.insert(id.clone(), s);
    }
    out
}

/// The same model without the traits of list and set members.
pub fn without_list_member_traits(m: &CModel) -> CModel {
    let mut out = m.clone();
    for s in out.shapes.values_mut() {
        if let CBody::List(m) | CBody::Set(m) = &mut s.body {
            m.traits.clear();
        }
    }
    out
}
