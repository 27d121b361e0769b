//! P24: selectors and their texts.

use super::*;
use crate::canon::{ident, sid};
use crate::choice::Choices;
use crate::run::violation;
use atelier_core::builder::selector::{AttributeBuilder, ScopedAttributeBuilder, SelectorBuilder};
use atelier_core::model::selector::{
    AttributeComparison, AttributeSelector, Comparator, Function, Key, KeyPathSegment, NeighborSelector,
    ScopedAttributeAssertion, ScopedAttributeSelector, ScopedValue, Selector, SelectorExpression, ShapeType,
    Value, VariableDefinition, VariableReference,
};
use atelier_core::model::values::Number;
use atelier_smithy::parse_selector;
use std::str::FromStr;

pub static P24: Prop = Prop {
    id: "P24",
    title: "Selector texts and selectors say the same",
    run: run24,
    quick_runs: 300_000,
    recheck: 60,
    rule: "In one process with drawn hash keys a handful of texts is parsed one after the other: drawn selectors spelled in drawn layouts, and texts edited at drawn places, of which a reference parser says what they are. Every selector is also put together with the model API and with the builders, printed, and read back; non-trivial: at least one text is a selector of two or more expressions, or no selector.",
    real: &["atelier_smithy::parse_selector", "atelier_core::model::selector", "atelier_core::builder::selector"],
    stubs: &["standard output", "getrandom (hash keys), behind the libc symbol"],
    assumptions: &[
        "numbers that fit neither i64 nor a finite f64 are no selector values",
        "a text with both kinds of quotes, a backslash or a control character has no spelling",
        "selectors nested more than a hundred deep may be refused",
    ],
};

// ------------------------------------------------------------------------------------------------
// Reference selectors
// ------------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
enum Lit {
    Text(String),
    Int(i64),
    /// by its bits
    Float(u64),
    Id(String),
    Abs(String),
}

#[derive(Clone, Debug, PartialEq)]
enum Seg {
    Lit(Lit),
    Of(String),
}

type KeyOf = (String, Vec<Seg>);

#[derive(Clone, Debug, PartialEq)]
enum SVal {
    Lit(Lit),
    Ctx(Vec<Seg>),
}

#[derive(Clone, Debug, PartialEq)]
struct Cmp<T> {
    op: usize,
    rhs: Vec<T>,
    any_case: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Ex {
    Type(usize),
    Attr(KeyOf, Option<Cmp<Lit>>),
    Scoped(Option<KeyOf>, Vec<(SVal, Cmp<SVal>)>),
    Forward,
    Reverse,
    ForwardTo(Vec<String>),
    ReverseTo(Vec<String>),
    Recursive,
    Call(String, Vec<Sel>),
    Set(String, Sel),
    Get(String),
}

type Sel = Vec<Ex>;

const TYPES: &[&str] = &[
    "*", "number", "simpleType", "collection", "blob", "boolean", "document", "string", "integer", "byte", "short",
    "long", "float", "double", "bigDecimal", "bigInteger", "timestamp", "list", "set", "map", "structure", "union",
    "service", "operation", "resource", "member",
];

fn shape_type(i: usize) -> ShapeType {
    use ShapeType::*;
    [
        Any, Number, SimpleType, Collection, Blob, Boolean, Document, String, Integer, Byte, Short, Long, Float,
        Double, BigDecimal, BigInteger, Timestamp, List, Set, Map, Structure, Union, Service, Operation, Resource,
        Member,
    ][i]
        .clone()
}

const OPS: &[&str] = &["=", "!=", "^=", "$=", "*=", "?=", ">", ">=", "<", "<=", "{=}", "{!=}", "{<}", "{<<}"];

fn comparator(i: usize) -> Comparator {
    use Comparator::*;
    [
        StringEqual, StringNotEqual, StringStartsWith, StringEndsWith, StringContains, StringExists,
        NumberGreaterThan, NumberGreaterOrEqual, NumberLessThan, NumberLessOrEqual, ProjectionEqual,
        ProjectionNotEqual, ProjectionSubset, ProjectionProperSubset,
    ][i]
        .clone()
}

// ------------------------------------------------------------------------------------------------
// Drawing selectors
// ------------------------------------------------------------------------------------------------

fn word(c: &mut Choices) -> String {
    const W: &[&str] = &[
        "foo", "i", "trait", "id", "var", "service", "keys", "values", "length", "e1", "_x", "__y2", "A", "string",
        "true", "not", "input", "x_1", "I", "null", "n0",
    ];
    if c.below(6) == 5 {
        let mut s = "_".repeat(c.size(3));
        s.push((b'a' + c.below(26) as u8) as char);
        for _ in 0..c.below(5) {
            s.push(*c.pick(&['a', 'Z', '0', '9', '_', 'i', 'e']));
        }
        s
    } else {
        c.pick(W).to_string()
    }
}

fn text(c: &mut Choices) -> String {
    let other = *c.pick(&['\'', '"']);
    let most = if c.below(4) == 3 { 12 } else { 4 };
    let n = 1 + c.size(most);
    (0..n)
        .map(|_| match c.below(4) {
            0 => *c.pick(&['a', 'i', '5', '.']),
            1 => *c.pick(&[' ', '#', '$', '[', ']', '(', ')', '{', '}', ',', '|', '@', ':', '&', '=', '<', '>', '-']),
            2 => other,
            _ => *c.pick(&['é', '世', '\u{10FFFF}', '\u{7f}', '/', '~', '%', '\u{fffd}', '\u{a0}', '😀']),
        })
        .collect()
}

fn float_text(c: &mut Choices) -> String {
    let int = c.pick(&["0", "1", "12", "-3", "-0", "900", "123456789012345678901", "9007199254740993"]).to_string();
    match c.below(4) {
        0 => format!("{int}.{}", c.pick(&["0", "5", "25", "000", "1e5", "5E-3", "0e0", "125E+2"])),
        1 => format!("{int}{}", c.pick(&["e1", "E2", "e-7", "e+3", "E0", "e20", "e-20"])),
        2 => format!("{}", *c.pick(&["1e300", "-1e300", "1.7976931348623157e308", "5e-324", "0.1", "1e16", "1e15"])),
        _ => format!("{int}.5"),
    }
}

/// A literal and how it is spelled.
fn lit(c: &mut Choices, marks: &mut Vec<(u64, String)>) -> Lit {
    match c.below(6) {
        0 | 1 => Lit::Id(word(c)),
        2 => Lit::Text(text(c)),
        3 => Lit::Int(match c.below(4) {
            0 => c.below(3000) as i64,
            1 => -(c.below(10) as i64),
            2 => *c.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 0, 1 << 53, (1 << 53) + 1]),
            _ => c.below(10) as i64,
        }),
        4 => {
            let mut n = word(c);
            for _ in 0..c.below(3) {
                n.push('.');
                n.push_str(&word(c));
            }
            Lit::Abs(format!("{n}#{}", word(c)))
        }
        _ => {
            let t = float_text(c);
            let f: f64 = t.parse().unwrap_or(0.0);
            marks.push((f.to_bits(), t));
            Lit::Float(f.to_bits())
        }
    }
}

fn path(c: &mut Choices, least: usize, marks: &mut Vec<(u64, String)>) -> Vec<Seg> {
    let n = least + c.size(3);
    (0..n).map(|_| if c.below(3) == 2 { Seg::Of(word(c)) } else { Seg::Lit(lit(c, marks)) }).collect()
}

fn key(c: &mut Choices, marks: &mut Vec<(u64, String)>) -> KeyOf {
    (word(c), path(c, 0, marks))
}

fn sval(c: &mut Choices, marks: &mut Vec<(u64, String)>) -> SVal {
    if c.below(2) == 0 {
        SVal::Ctx(path(c, 1, marks))
    } else {
        SVal::Lit(lit(c, marks))
    }
}

fn expression(c: &mut Choices, depth: u64, marks: &mut Vec<(u64, String)>) -> Ex {
    match c.below(if depth == 0 { 11 } else { 14 }) {
        0 | 1 => Ex::Type(c.size(TYPES.len())),
        2 | 3 => {
            let k = key(c, marks);
            let cmp = if c.below(4) == 0 {
                None
            } else {
                let n = 1 + c.size(3);
                Some(Cmp {
                    op: c.size(OPS.len()),
                    rhs: (0..n).map(|_| lit(c, marks)).collect(),
                    any_case: c.below(3) == 2,
                })
            };
            Ex::Attr(k, cmp)
        }
        4 | 5 => {
            let k = if c.below(2) == 0 { None } else { Some(key(c, marks)) };
            let n = 1 + c.size(3);
            let a = (0..n)
                .map(|_| {
                    let lhs = sval(c, marks);
                    let op = c.size(OPS.len());
                    let n = 1 + c.size(3);
                    (lhs, Cmp { op, rhs: (0..n).map(|_| sval(c, marks)).collect(), any_case: c.below(3) == 2 })
                })
                .collect();
            Ex::Scoped(k, a)
        }
        6 => Ex::Forward,
        7 => Ex::Reverse,
        8 => Ex::ForwardTo((0..1 + c.below(3)).map(|_| word(c)).collect()),
        9 => Ex::ReverseTo((0..1 + c.below(3)).map(|_| word(c)).collect()),
        10 => {
            if c.below(2) == 0 {
                Ex::Recursive
            } else {
                Ex::Get(word(c))
            }
        }
        11 | 12 => {
            let name = if c.below(2) == 0 { c.pick(&["test", "is", "not", "topdown"]).to_string() } else { word(c) };
            let n = 1 + c.size(3);
            Ex::Call(name, (0..n).map(|_| selector(c, depth - 1, marks)).collect())
        }
        _ => Ex::Set(word(c), selector(c, depth - 1, marks)),
    }
}

fn selector(c: &mut Choices, depth: u64, marks: &mut Vec<(u64, String)>) -> Sel {
    let n = 1 + c.size(3);
    (0..n).map(|_| expression(c, depth, marks)).collect()
}

// ------------------------------------------------------------------------------------------------
// Spelling selectors
// ------------------------------------------------------------------------------------------------

struct Speller<'a> {
    c: &'a mut Choices,
    marks: &'a [(u64, String)],
    out: String,
    layout: u64,
}

impl Speller<'_> {
    fn gap(&mut self, needed: bool) {
        let n = match self.layout {
            0 => u64::from(needed),
            1 => self.c.below(2).max(u64::from(needed)),
            _ => self.c.below(4).max(u64::from(needed)),
        };
        for _ in 0..n {
            let w = if self.layout < 2 { " " } else { *self.c.pick(&[" ", "\n", "\t", "\r\n", "\r"]) };
            self.out.push_str(w);
        }
    }
    fn t(&mut self, token: &str) {
        let last = self.out.chars().last().unwrap_or(' ');
        let first = token.chars().next().unwrap_or(' ');
        let wordy = |x: char| x.is_ascii_alphanumeric() || x == '_';
        let needed = wordy(last) && wordy(first)
            || last == '<' && token.starts_with("-[")
            || last == '-' && first == '>';
        self.gap(needed);
        self.out.push_str(token);
    }
    fn lit(&mut self, l: &Lit) {
        let s = match l {
            Lit::Text(t) => {
                let q = if t.contains('"') {
                    '\''
                } else if t.contains('\'') || self.c.below(2) == 0 {
                    '"'
                } else {
                    '\''
                };
                format!("{q}{t}{q}")
            }
            Lit::Int(i) => i.to_string(),
            Lit::Float(b) => {
                self.marks.iter().find(|(x, _)| x == b).map(|(_, t)| t.clone()).unwrap_or_else(|| format!("{:?}", f64::from_bits(*b)))
            }
            Lit::Id(s) | Lit::Abs(s) => s.clone(),
        };
        self.t(&s);
    }
    fn path(&mut self, p: &[Seg]) {
        for (i, s) in p.iter().enumerate() {
            if i > 0 {
                self.t("|");
            }
            match s {
                Seg::Lit(l) => self.lit(l),
                Seg::Of(w) => {
                    self.t("(");
                    self.t(w);
                    self.t(")");
                }
            }
        }
    }
    fn key(&mut self, k: &KeyOf) {
        self.t(&k.0);
        if !k.1.is_empty() {
            self.t("|");
            self.path(&k.1);
        }
    }
    fn sval(&mut self, v: &SVal) {
        match v {
            SVal::Lit(l) => self.lit(l),
            SVal::Ctx(p) => {
                self.t("@{");
                self.path(p);
                self.t("}");
            }
        }
    }
    fn words(&mut self, w: &[String]) {
        for (i, w) in w.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.t(w);
        }
    }
    fn ex(&mut self, e: &Ex) {
        match e {
            Ex::Type(i) => self.t(TYPES[*i]),
            Ex::Attr(k, cmp) => {
                self.t("[");
                self.key(k);
                if let Some(m) = cmp {
                    self.t(OPS[m.op]);
                    for (i, l) in m.rhs.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.lit(l);
                    }
                    if m.any_case {
                        self.t("i");
                    }
                }
                self.t("]");
            }
            Ex::Scoped(k, assertions) => {
                self.t("[@");
                if let Some(k) = k {
                    self.key(k);
                }
                self.t(":");
                for (i, (lhs, m)) in assertions.iter().enumerate() {
                    if i > 0 {
                        self.t("&&");
                    }
                    self.sval(lhs);
                    self.t(OPS[m.op]);
                    for (i, l) in m.rhs.iter().enumerate() {
                        if i > 0 {
                            self.t(",");
                        }
                        self.sval(l);
                    }
                    if m.any_case {
                        self.t("i");
                    }
                }
                self.t("]");
            }
            Ex::Forward => self.t(">"),
            Ex::Reverse => self.t("<"),
            Ex::ForwardTo(w) => {
                self.t("-[");
                self.words(w);
                self.t("]->");
            }
            Ex::ReverseTo(w) => {
                self.t("<-[");
                self.words(w);
                self.t("]-");
            }
            Ex::Recursive => self.t("~>"),
            Ex::Call(n, args) => {
                self.t(":");
                self.t(n);
                self.t("(");
                for (i, a) in args.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.sel(a);
                }
                self.t(")");
            }
            Ex::Set(n, s) => {
                self.t("$");
                self.t(n);
                self.t("(");
                self.sel(s);
                self.t(")");
            }
            Ex::Get(n) => {
                self.t("${");
                self.t(n);
                self.t("}");
            }
        }
    }
    fn sel(&mut self, s: &Sel) {
        for e in s {
            self.ex(e);
        }
    }
}

fn spell(c: &mut Choices, s: &Sel, marks: &[(u64, String)]) -> String {
    let layout = c.below(3);
    let mut w = Speller { c, marks, out: String::new(), layout };
    w.sel(s);
    w.gap(false);
    w.out
}

// ------------------------------------------------------------------------------------------------
// Reference parser
// ------------------------------------------------------------------------------------------------

struct Reader<'a> {
    s: &'a [char],
    at: usize,
}

impl Reader<'_> {
    fn ws(&mut self) {
        while matches!(self.s.get(self.at), Some(' ' | '\t' | '\n' | '\r')) {
            self.at += 1;
        }
    }
    fn peek(&self) -> char {
        self.s.get(self.at).copied().unwrap_or('\0')
    }
    fn here(&mut self, t: &str) -> bool {
        let n = t.chars().count();
        let yes = self.s.len() >= self.at + n && self.s[self.at..self.at + n].iter().copied().eq(t.chars());
        if yes {
            self.at += n;
        }
        yes
    }
    fn take(&mut self, t: &str) -> Option<()> {
        self.ws();
        self.here(t).then_some(())
    }
    fn word(&mut self) -> Option<String> {
        self.ws();
        self.word_here()
    }
    fn word_here(&mut self) -> Option<String> {
        let from = self.at;
        while self.peek() == '_' {
            self.at += 1;
        }
        if !self.peek().is_ascii_alphabetic() {
            self.at = from;
            return None;
        }
        while self.peek().is_ascii_alphanumeric() || self.peek() == '_' {
            self.at += 1;
        }
        Some(self.s[from..self.at].iter().collect())
    }
    fn digits(&mut self) -> bool {
        let from = self.at;
        while self.peek().is_ascii_digit() {
            self.at += 1;
        }
        self.at > from
    }
    fn lit(&mut self) -> Option<Lit> {
        self.ws();
        let q = self.peek();
        if q == '"' || q == '\'' {
            let from = self.at + 1;
            let mut to = from;
            while to < self.s.len() && self.s[to] != q {
                if self.s[to] < ' ' || self.s[to] == '\\' {
                    return None;
                }
                to += 1;
            }
            if to == self.s.len() || to == from {
                return None;
            }
            self.at = to + 1;
            return Some(Lit::Text(self.s[from..to].iter().collect()));
        }
        let from = self.at;
        if q == '-' || q.is_ascii_digit() {
            if q == '-' {
                self.at += 1;
            }
            if self.peek() == '0' {
                self.at += 1;
            } else if !self.digits() {
                return None;
            }
            let mut float = false;
            let mark = self.at;
            if self.peek() == '.' {
                self.at += 1;
                if self.digits() {
                    float = true;
                } else {
                    self.at = mark;
                }
            }
            let mark = self.at;
            if matches!(self.peek(), 'e' | 'E') {
                self.at += 1;
                if matches!(self.peek(), '+' | '-') {
                    self.at += 1;
                }
                if self.digits() {
                    float = true;
                } else {
                    self.at = mark;
                }
            }
            let t: String = self.s[from..self.at].iter().collect();
            return if float {
                t.parse::<f64>().ok().filter(|f| f.is_finite()).map(|f| Lit::Float(f.to_bits()))
            } else {
                t.parse().ok().map(Lit::Int)
            };
        }
        let w = self.word_here()?;
        let mark = self.at;
        let mut name = w.clone();
        while self.peek() == '.' {
            self.at += 1;
            match self.word_here() {
                Some(w) => {
                    name.push('.');
                    name.push_str(&w);
                }
                None => {
                    self.at = mark;
                    return Some(Lit::Id(w));
                }
            }
        }
        if self.peek() == '#' {
            self.at += 1;
            if let Some(w) = self.word_here() {
                return Some(Lit::Abs(format!("{name}#{w}")));
            }
        }
        self.at = mark;
        Some(Lit::Id(w))
    }
    fn path(&mut self) -> Option<Vec<Seg>> {
        let mut p = Vec::new();
        loop {
            if self.take("(").is_some() {
                p.push(Seg::Of(self.word()?));
                self.take(")")?;
            } else {
                p.push(Seg::Lit(self.lit()?));
            }
            if self.take("|").is_none() {
                return Some(p);
            }
        }
    }
    fn key(&mut self) -> Option<KeyOf> {
        let w = self.word()?;
        let p = if self.take("|").is_some() { self.path()? } else { Vec::new() };
        Some((w, p))
    }
    fn op(&mut self) -> Option<usize> {
        self.ws();
        let mut by_length: Vec<usize> = (0..OPS.len()).collect();
        by_length.sort_by_key(|i| std::cmp::Reverse(OPS[*i].len()));
        by_length.into_iter().find(|i| self.here(OPS[*i]))
    }
    fn sval(&mut self) -> Option<SVal> {
        if self.take("@{").is_some() {
            let p = self.path()?;
            self.take("}")?;
            Some(SVal::Ctx(p))
        } else {
            self.lit().map(SVal::Lit)
        }
    }
    fn cmp<T>(&mut self, one: fn(&mut Self) -> Option<T>) -> Option<Cmp<T>> {
        let op = self.op()?;
        let mut rhs = vec![one(self)?];
        while self.take(",").is_some() {
            rhs.push(one(self)?);
        }
        let any_case = self.take("i").is_some();
        Some(Cmp { op, rhs, any_case })
    }
    fn words(&mut self) -> Option<Vec<String>> {
        let mut v = vec![self.word()?];
        while self.take(",").is_some() {
            v.push(self.word()?);
        }
        Some(v)
    }
    fn ex(&mut self) -> Option<Ex> {
        if self.here("[@") {
            self.ws();
            let k = if self.peek() == ':' { None } else { Some(self.key()?) };
            self.take(":")?;
            let mut a = Vec::new();
            loop {
                let lhs = self.sval()?;
                a.push((lhs, self.cmp(Self::sval)?));
                if self.take("&&").is_none() {
                    break;
                }
            }
            self.take("]")?;
            return Some(Ex::Scoped(k, a));
        }
        if self.here("[") {
            let k = self.key()?;
            let cmp = if self.take("]").is_some() {
                return Some(Ex::Attr(k, None));
            } else {
                self.cmp(Self::lit)?
            };
            self.take("]")?;
            return Some(Ex::Attr(k, Some(cmp)));
        }
        if self.here(":") {
            let n = self.word()?;
            self.take("(")?;
            let mut args = vec![self.sel()?];
            while self.take(",").is_some() {
                args.push(self.sel()?);
            }
            self.take(")")?;
            return Some(Ex::Call(n, args));
        }
        if self.here("-[") {
            let w = self.words()?;
            self.take("]->")?;
            return Some(Ex::ForwardTo(w));
        }
        if self.here("<-[") {
            let w = self.words()?;
            self.take("]-")?;
            return Some(Ex::ReverseTo(w));
        }
        for (t, e) in [("<", Ex::Reverse), (">", Ex::Forward), ("~>", Ex::Recursive), ("*", Ex::Type(0))] {
            if self.here(t) {
                return Some(e);
            }
        }
        if self.here("${") {
            let n = self.word()?;
            self.take("}")?;
            return Some(Ex::Get(n));
        }
        if self.here("$") {
            let n = self.word()?;
            self.take("(")?;
            let s = self.sel()?;
            self.take(")")?;
            return Some(Ex::Set(n, s));
        }
        let w = self.word_here()?;
        TYPES.iter().position(|t| *t == w).map(Ex::Type)
    }
    fn sel(&mut self) -> Option<Sel> {
        let mut v = Vec::new();
        loop {
            self.ws();
            if self.at == self.s.len() || matches!(self.peek(), ')' | ',') {
                return (!v.is_empty()).then_some(v);
            }
            v.push(self.ex()?);
        }
    }
}

fn reference(t: &str) -> Option<Sel> {
    let s: Vec<char> = t.chars().collect();
    let mut r = Reader { s: &s, at: 0 };
    let v = r.sel()?;
    (r.at == s.len()).then_some(v)
}

fn depth(s: &Sel) -> usize {
    s.iter()
        .map(|e| match e {
            Ex::Call(_, a) => 1 + a.iter().map(depth).max().unwrap_or(0),
            Ex::Set(_, s) => 1 + depth(s),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

/// One to three edits.
fn edited(c: &mut Choices, t: &str) -> String {
    const BITS: &[&str] = &[
        " ", ",", "i", "[", "]", "(", ")", "{", "}", "@", ":", "&", "=", ">", "<", "!", "^", "$", "*", "?", "|", "#",
        ".", "-", "~", "'", "\"", "\\", "5", "0", "e", "_", "a", "\n", "\r", "é", "\u{0}", "map", "+", "<-[", "]->",
        "99999999999999999999", "1e999", "\u{b}", "\u{a0}", "//x\n", "@{", "${",
    ];
    let mut s: Vec<char> = t.chars().collect();
    for _ in 0..1 + c.below(3) {
        let n = s.len();
        let at = c.size(n + 1);
        match c.below(6) {
            0 if at < n => {
                s.remove(at);
            }
            1 if at < n => {
                let x = s[at];
                s.insert(at, x);
            }
            2 if at + 1 < n => s.swap(at, at + 1),
            3 => s.truncate(at),
            4 if at < n => {
                s.remove(at);
                let bit = c.pick(BITS);
                s.splice(at..at, bit.chars());
            }
            _ => {
                let bit = c.pick(BITS);
                s.splice(at..at, bit.chars());
            }
        }
    }
    s.into_iter().collect()
}

// ------------------------------------------------------------------------------------------------
// The library's selectors
// ------------------------------------------------------------------------------------------------

fn one_of(what: &str, flags: &[bool], at: usize) -> Result<(), String> {
    if flags.iter().filter(|f| **f).count() == 1 && flags[at] {
        Ok(())
    } else {
        Err(format!("{what}: is_ functions say {flags:?}, not number {at}"))
    }
}

fn lit_of(v: &Value) -> Result<Lit, String> {
    let (at, l) = match v {
        Value::Text(t) => (0, Lit::Text(t.clone())),
        Value::Number(Number::Integer(i)) => (1, Lit::Int(*i)),
        Value::Number(Number::Float(f)) => (1, Lit::Float(f.to_bits())),
        Value::RootShapeIdentifier(i) => (2, Lit::Id(i.to_string())),
        Value::AbsoluteRootShapeIdentifier(i) => (3, Lit::Abs(i.to_string())),
    };
    one_of("value", &[v.is_text(), v.is_number(), v.is_root_shape_id(), v.is_absolute_root_shape_id()], at)?;
    Ok(l)
}

fn seg_of(s: &KeyPathSegment) -> Result<Seg, String> {
    match (s.as_value(), s.as_function_property()) {
        (Some(v), None) if s.is_value() => Ok(Seg::Lit(lit_of(v)?)),
        (None, Some(i)) if s.is_function_property() => Ok(Seg::Of(i.to_string())),
        _ => Err("key path segment of no or two kinds".to_string()),
    }
}

fn key_of(k: &Key) -> Result<KeyOf, String> {
    let p: Vec<Seg> = k.path().map(seg_of).collect::<Result<_, _>>()?;
    if k.has_path() == p.is_empty() {
        return Err("has_path".to_string());
    }
    Ok((k.identifier().to_string(), p))
}

fn sval_of(v: &ScopedValue) -> Result<SVal, String> {
    match v {
        ScopedValue::Value(x) if v.is_value() && !v.is_context_value() => Ok(SVal::Lit(lit_of(x)?)),
        ScopedValue::ContextValue(_) if v.is_context_value() && !v.is_value() => {
            let p = v.as_context_value().ok_or("as_context_value")?.map(seg_of).collect::<Result<_, _>>()?;
            Ok(SVal::Ctx(p))
        }
        _ => Err("scoped value of no or two kinds".to_string()),
    }
}

fn op_of(o: &Comparator) -> Result<usize, String> {
    (0..OPS.len()).find(|i| comparator(*i) == *o).ok_or_else(|| format!("{o:?}"))
}

fn ex_of(e: &SelectorExpression) -> Result<Ex, String> {
    let flags = [
        e.is_shape_type(),
        e.is_attribute_selector(),
        e.is_scoped_attribute_selector(),
        e.is_neighbor_selector(),
        e.is_function(),
        e.is_variable_definition(),
        e.is_variable_reference(),
    ];
    let (at, x) = match e {
        SelectorExpression::ShapeType(t) => {
            (0, Ex::Type((0..TYPES.len()).find(|i| shape_type(*i) == *t).ok_or("shape type")?))
        }
        SelectorExpression::AttributeSelector(a) => {
            let cmp = match a.comparison() {
                None => None,
                Some(m) => Some(Cmp {
                    op: op_of(m.comparator())?,
                    rhs: m.rhs_values().map(lit_of).collect::<Result<_, _>>()?,
                    any_case: m.is_case_insensitive(),
                }),
            };
            if a.has_comparison() != cmp.is_some() {
                return Err("has_comparison".to_string());
            }
            (1, Ex::Attr(key_of(a.key())?, cmp))
        }
        SelectorExpression::ScopedAttributeSelector(s) => {
            let k = match s.key() {
                None => None,
                Some(k) => Some(key_of(k)?),
            };
            let mut a = Vec::new();
            for x in s.assertions() {
                a.push((
                    sval_of(x.lhs_value())?,
                    Cmp {
                        op: op_of(x.comparator())?,
                        rhs: x.rhs_values().map(sval_of).collect::<Result<_, _>>()?,
                        any_case: x.is_case_insensitive(),
                    },
                ));
            }
            (2, Ex::Scoped(k, a))
        }
        SelectorExpression::NeighborSelector(n) => {
            let (at, x) = match n {
                NeighborSelector::ForwardUndirected => (0, Ex::Forward),
                NeighborSelector::ReverseUndirected => (1, Ex::Reverse),
                NeighborSelector::ForwardRecursiveDirected => (2, Ex::Recursive),
                NeighborSelector::ForwardDirected(_) => {
                    (3, Ex::ForwardTo(n.as_forward_directed().ok_or("as_")?.map(|i| i.to_string()).collect()))
                }
                NeighborSelector::ReverseDirected(_) => {
                    (4, Ex::ReverseTo(n.as_reverse_directed().ok_or("as_")?.map(|i| i.to_string()).collect()))
                }
            };
            let flags = [
                n.is_forward_undirected(),
                n.is_reverse_undirected(),
                n.is_forward_recursive_directed(),
                n.is_forward_directed(),
                n.is_reverse_directed(),
            ];
            one_of("neighbor", &flags, at)?;
            (3, x)
        }
        SelectorExpression::Function(f) => {
            (4, Ex::Call(f.name().to_string(), f.arguments().map(sel_of).collect::<Result<_, _>>()?))
        }
        SelectorExpression::VariableDefinition(d) => (5, Ex::Set(d.name().to_string(), sel_of(d.selector())?)),
        SelectorExpression::VariableReference(r) => (6, Ex::Get(r.name().to_string())),
    };
    one_of("expression", &flags, at)?;
    Ok(x)
}

fn sel_of(s: &Selector) -> Result<Sel, String> {
    s.expressions().map(ex_of).collect()
}

// ------------------------------------------------------------------------------------------------
// Putting them together
// ------------------------------------------------------------------------------------------------

/// Draws taken ahead, so that the process under test draws nothing.
struct Ways {
    draws: Vec<u64>,
    at: usize,
}

impl Ways {
    fn below(&mut self, n: u64) -> u64 {
        self.at += 1;
        self.draws[self.at % self.draws.len()] % n
    }
}

fn value(l: &Lit) -> Value {
    match l {
        Lit::Text(t) => Value::from(t.as_str()),
        Lit::Int(i) => Value::from(*i),
        Lit::Float(b) => Value::from(f64::from_bits(*b)),
        Lit::Id(s) => Value::from(ident(s)),
        Lit::Abs(s) => Value::from(sid(s)),
    }
}

fn segment(s: &Seg) -> KeyPathSegment {
    match s {
        Seg::Lit(l) => KeyPathSegment::from(value(l)),
        Seg::Of(w) => KeyPathSegment::from(ident(w)),
    }
}

fn segments(p: &[Seg]) -> Vec<KeyPathSegment> {
    p.iter().map(segment).collect()
}

fn scoped(v: &SVal) -> ScopedValue {
    match v {
        SVal::Lit(Lit::Text(t)) => ScopedValue::from(t.as_str()),
        SVal::Lit(Lit::Int(i)) => ScopedValue::from(*i),
        SVal::Lit(Lit::Float(b)) => ScopedValue::from(f64::from_bits(*b)),
        SVal::Lit(Lit::Id(s)) => ScopedValue::from(ident(s)),
        SVal::Lit(Lit::Abs(s)) => ScopedValue::from(sid(s)),
        SVal::Ctx(p) => ScopedValue::from(segments(p)),
    }
}

fn number(l: &Lit) -> Option<Number> {
    match l {
        Lit::Int(i) => Some(Number::Integer(*i)),
        Lit::Float(b) => Some(Number::Float(f64::from_bits(*b))),
        _ => None,
    }
}

fn key_with(w: &mut Ways, k: &KeyOf) -> Key {
    if w.below(2) == 0 {
        Key::with_path(ident(&k.0), &segments(&k.1))
    } else {
        let mut x = Key::new(ident(&k.0));
        for s in &k.1 {
            x.add_path_segment(segment(s));
        }
        x
    }
}

fn comparison(w: &mut Ways, m: &Cmp<Lit>) -> AttributeComparison {
    let rhs: Vec<Value> = m.rhs.iter().map(value).collect();
    if m.any_case {
        return AttributeComparison::new_case_insensitive(comparator(m.op), &rhs);
    }
    let numbers: Option<Vec<Number>> = m.rhs.iter().map(number).collect();
    if w.below(2) == 0 {
        match (m.op, &rhs[..], numbers) {
            (0, [v], _) => return AttributeComparison::string_equal(v.clone()),
            (1, [v], _) => return AttributeComparison::string_not_equal(v.clone()),
            (2, [v], _) => return AttributeComparison::string_starts_with(v.clone()),
            (3, [v], _) => return AttributeComparison::string_ends_with(v.clone()),
            (4, [v], _) => return AttributeComparison::string_contains(v.clone()),
            (5, [Value::Text(t)], _) if t == "true" || t == "false" => {
                return AttributeComparison::string_exists(t == "true")
            }
            (6, [_], Some(n)) => return AttributeComparison::number_greater(n[0].clone()),
            (7, [_], Some(n)) => return AttributeComparison::number_greater_or_equal(n[0].clone()),
            (8, [_], Some(n)) => return AttributeComparison::number_less(n[0].clone()),
            (9, [_], Some(n)) => return AttributeComparison::number_less_or_equal(n[0].clone()),
            (10, [v], _) => return AttributeComparison::projection_equal(v.clone()),
            (11, [v], _) => return AttributeComparison::projection_not_equal(v.clone()),
            (12, v, _) => return AttributeComparison::projection_subset(v),
            (13, v, _) => return AttributeComparison::projection_proper_subset(v),
            _ => {}
        }
    }
    AttributeComparison::new(comparator(m.op), &rhs)
}

fn one_number(m: &Cmp<SVal>) -> Option<Number> {
    match &m.rhs[..] {
        [SVal::Lit(l)] => number(l),
        _ => None,
    }
}

fn one_bool(m: &Cmp<SVal>) -> Option<bool> {
    match &m.rhs[..] {
        [SVal::Lit(Lit::Text(t))] if t == "true" || t == "false" => Some(t == "true"),
        _ => None,
    }
}

fn assertion(w: &mut Ways, lhs: &SVal, m: &Cmp<SVal>) -> ScopedAttributeAssertion {
    let l = scoped(lhs);
    let rhs: Vec<ScopedValue> = m.rhs.iter().map(scoped).collect();
    if m.any_case {
        return ScopedAttributeAssertion::new_case_insensitive(l, comparator(m.op), &rhs);
    }
    let one = one_number(m);
    if w.below(2) == 0 {
        match (m.op, &rhs[..]) {
            (5, [_]) if one_bool(m).is_some() => {
                return ScopedAttributeAssertion::string_exists(l, one_bool(m).unwrap_or_default())
            }
            (6, [_]) if one.is_some() => return ScopedAttributeAssertion::number_greater(l, one.unwrap()),
            (7, [_]) if one.is_some() => return ScopedAttributeAssertion::number_greater_or_equal(l, one.unwrap()),
            (8, [_]) if one.is_some() => return ScopedAttributeAssertion::number_less(l, one.unwrap()),
            (9, [_]) if one.is_some() => return ScopedAttributeAssertion::number_less_or_equal(l, one.unwrap()),
            (0, [v]) => return ScopedAttributeAssertion::string_equal(l, v.clone()),
            (1, [v]) => return ScopedAttributeAssertion::string_not_equal(l, v.clone()),
            (2, [v]) => return ScopedAttributeAssertion::string_starts_with(l, v.clone()),
            (3, [v]) => return ScopedAttributeAssertion::string_ends_with(l, v.clone()),
            (4, [v]) => return ScopedAttributeAssertion::string_contains(l, v.clone()),
            (10, [v]) => return ScopedAttributeAssertion::projection_equal(l, v.clone()),
            (11, [v]) => return ScopedAttributeAssertion::projection_not_equal(l, v.clone()),
            (12, v) => return ScopedAttributeAssertion::projection_subset(l, v),
            (13, v) => return ScopedAttributeAssertion::projection_proper_subset(l, v),
            _ => {}
        }
    }
    ScopedAttributeAssertion::new(l, comparator(m.op), &rhs)
}

/// With the constructors of the model.
fn by_hand(w: &mut Ways, s: &Sel) -> Selector {
    let exs: Vec<SelectorExpression> = s
        .iter()
        .map(|e| match e {
            Ex::Type(i) => shape_type(*i).into(),
            Ex::Attr(k, None) => AttributeSelector::new(key_with(w, k)).into(),
            Ex::Attr(k, Some(m)) => {
                let k = key_with(w, k);
                if w.below(2) == 0 {
                    AttributeSelector::with_comparison(k, comparison(w, m)).into()
                } else {
                    let mut a = AttributeSelector::from(k);
                    a.set_comparison(comparison(w, m));
                    a.into()
                }
            }
            Ex::Scoped(k, a) => {
                let a: Vec<ScopedAttributeAssertion> = a.iter().map(|(l, m)| assertion(w, l, m)).collect();
                match k {
                    None => ScopedAttributeSelector::new(&a).into(),
                    Some(k) => ScopedAttributeSelector::with_key(key_with(w, k), &a).into(),
                }
            }
            Ex::Forward => NeighborSelector::ForwardUndirected.into(),
            Ex::Reverse => NeighborSelector::ReverseUndirected.into(),
            Ex::Recursive => NeighborSelector::ForwardRecursiveDirected.into(),
            Ex::ForwardTo(v) => NeighborSelector::ForwardDirected(v.iter().map(|s| ident(s)).collect()).into(),
            Ex::ReverseTo(v) => NeighborSelector::ReverseDirected(v.iter().map(|s| ident(s)).collect()).into(),
            Ex::Call(n, a) => {
                let a: Vec<Selector> = a.iter().map(|s| by_hand(w, s)).collect();
                Function::new(ident(n), &a).into()
            }
            Ex::Set(n, s) => VariableDefinition::new(ident(n), by_hand(w, s)).into(),
            Ex::Get(n) => VariableReference::new(ident(n)).into(),
        })
        .collect();
    if w.below(2) == 0 {
        Selector::from(exs)
    } else {
        let mut s = Selector::default();
        for e in exs {
            s.add_expression(e);
        }
        s
    }
}

fn attribute(w: &mut Ways, k: &KeyOf, cmp: &Option<Cmp<Lit>>) -> AttributeBuilder {
    let mut b = match k.0.as_str() {
        "id" => AttributeBuilder::named_id(),
        "service" => AttributeBuilder::named_service(),
        "trait" => AttributeBuilder::named_trait(),
        "var" => AttributeBuilder::named_var(),
        other => AttributeBuilder::named(ident(other)),
    };
    if w.below(3) == 0 {
        b.path(&segments(&k.1));
    } else {
        for s in &k.1 {
            match s {
                Seg::Of(x) => b.path_segment_for_function(ident(x)),
                Seg::Lit(Lit::Text(t)) => b.path_segment_for_text(t),
                Seg::Lit(Lit::Id(x)) => b.path_segment_for_id(ident(x)),
                Seg::Lit(Lit::Abs(x)) => b.path_segment_for_shape(sid(x)),
                Seg::Lit(l) => match number(l) {
                    Some(n) => b.path_segment_for_number(n),
                    None => b.path_segment(segment(s)),
                },
            };
        }
    }
    if let Some(m) = cmp {
        let rhs: Vec<Value> = m.rhs.iter().map(value).collect();
        let numbers: Option<Vec<Number>> = m.rhs.iter().map(number).collect();
        let plain = !m.any_case;
        if w.below(4) == 0 {
            b.compare(comparison(w, m));
            return b;
        }
        match (m.op, numbers) {
            (0, _) => b.string_equal(&rhs, m.any_case),
            (1, _) => b.string_not_equal(&rhs, m.any_case),
            (2, _) => b.string_starts_with(&rhs, m.any_case),
            (3, _) => b.string_ends_with(&rhs, m.any_case),
            (4, _) => b.string_contains(&rhs, m.any_case),
            (5, _) if matches!(&m.rhs[..], [Lit::Text(t)] if t == "true" || t == "false") => {
                b.string_exists(matches!(&m.rhs[..], [Lit::Text(t)] if t == "true"), m.any_case)
            }
            (6, Some(n)) if plain => b.number_greater(&n),
            (7, Some(n)) if plain => b.number_greater_or_equal(&n),
            (8, Some(n)) if plain => b.number_less(&n),
            (9, Some(n)) if plain => b.number_less_or_equal(&n),
            (10, _) if plain => b.projection_equal(&rhs),
            (11, _) if plain => b.projection_not_equal(&rhs),
            (12, _) if plain => b.projection_subset(&rhs),
            (13, _) if plain => b.projection_proper_subset(&rhs),
            _ => b.string_compare(comparator(m.op), &rhs, m.any_case),
        };
    }
    b
}

fn scoped_attribute(w: &mut Ways, k: &Option<KeyOf>, a: &[(SVal, Cmp<SVal>)]) -> ScopedAttributeBuilder {
    let mut b = match k {
        None => ScopedAttributeBuilder::default(),
        Some(k) => {
            let mut b = match k.0.as_str() {
                "id" => ScopedAttributeBuilder::new_id(),
                "service" => ScopedAttributeBuilder::new_service(),
                "trait" => ScopedAttributeBuilder::new_trait(),
                "var" => ScopedAttributeBuilder::new_var(),
                other => ScopedAttributeBuilder::named(ident(other)),
            };
            if w.below(3) == 0 {
                b.path(&segments(&k.1));
            } else {
                for s in &k.1 {
                    match s {
                        Seg::Of(x) => b.path_segment_for_function(ident(x)),
                        Seg::Lit(Lit::Text(t)) => b.path_segment_for_text(t),
                        Seg::Lit(Lit::Id(x)) => b.path_segment_for_id(ident(x)),
                        Seg::Lit(Lit::Abs(x)) => b.path_segment_for_shape(sid(x)),
                        Seg::Lit(l) => match number(l) {
                            Some(n) => b.path_segment_for_number(n),
                            None => b.path_segment(segment(s)),
                        },
                    };
                }
            }
            b
        }
    };
    for (l, m) in a {
        let rhs: Vec<ScopedValue> = m.rhs.iter().map(scoped).collect();
        let x = scoped(l);
        let one = one_number(m);
        match (m.op, &rhs[..]) {
            _ if w.below(4) == 0 => b.assertion(assertion(w, l, m)),
            (5, [_]) if !m.any_case && one_bool(m).is_some() => b.string_exists(x, one_bool(m).unwrap_or_default()),
            (6, [_]) if !m.any_case && one.is_some() => b.number_greater(x, one.unwrap()),
            (7, [_]) if !m.any_case && one.is_some() => b.number_greater_or_equal(x, one.unwrap()),
            (8, [_]) if !m.any_case && one.is_some() => b.number_less(x, one.unwrap()),
            (9, [_]) if !m.any_case && one.is_some() => b.number_less_or_equal(x, one.unwrap()),
            (0, [v]) => b.string_equal(x, v.clone(), m.any_case),
            (1, [v]) => b.string_not_equal(x, v.clone(), m.any_case),
            (2, [v]) => b.string_starts_with(x, v.clone(), m.any_case),
            (3, [v]) => b.string_ends_with(x, v.clone(), m.any_case),
            (4, [v]) => b.string_contains(x, v.clone(), m.any_case),
            (10, [v]) if !m.any_case => b.projection_equal(x, v.clone()),
            (11, [v]) if !m.any_case => b.projection_not_equal(x, v.clone()),
            (12, v) if !m.any_case => b.projection_subset(x, v),
            (13, v) if !m.any_case => b.projection_proper_subset(x, v),
            _ => b.string_assertion(x, comparator(m.op), &rhs, m.any_case),
        };
    }
    b
}

macro_rules! shapes {
    ($i:expr, $($n:literal => $new:ident $add:ident),*) => {
        ($(if $i == $n { Some(SelectorBuilder::$new as fn() -> SelectorBuilder) } else)* { None },
         $(if $i == $n { Some(SelectorBuilder::$add as fn(&mut SelectorBuilder) -> &mut SelectorBuilder) } else)* { None })
    };
}

type ShapeFns = (Option<fn() -> SelectorBuilder>, Option<fn(&mut SelectorBuilder) -> &mut SelectorBuilder>);

fn shape_fns(i: usize) -> ShapeFns {
    shapes!(i, 0 => any_shape add_any_shape, 1 => any_number add_any_number, 2 => any_simple_type add_any_simple_type,
        3 => any_collection add_any_collection, 4 => blob add_blob, 5 => boolean add_boolean,
        6 => document add_document, 7 => string add_string, 8 => integer add_integer, 9 => byte add_byte,
        10 => short add_short, 11 => long add_long, 12 => float add_float, 13 => double add_double,
        14 => big_decimal add_big_decimal, 15 => big_integer add_big_integer, 16 => timestamp add_timestamp,
        17 => list add_list, 18 => set add_set, 19 => map add_map, 20 => structure add_structure,
        21 => union add_union, 22 => service add_service, 23 => operation add_operation,
        24 => resource add_resource, 25 => member add_member)
}

/// With the builders.
fn by_builder(w: &mut Ways, s: &Sel) -> SelectorBuilder {
    let mut b: Option<SelectorBuilder> = None;
    for e in s {
        let ids = |v: &[String]| v.iter().map(|s| ident(s)).collect::<Vec<_>>();
        let plain = w.below(3) == 0;
        let new = match (e, &mut b) {
            (Ex::Type(i), None) if plain => SelectorBuilder::shape(shape_type(*i)),
            (Ex::Type(i), None) => (shape_fns(*i).0.expect("function"))(),
            (Ex::Type(i), Some(b)) => {
                if plain {
                    b.add_shape(shape_type(*i));
                } else {
                    (shape_fns(*i).1.expect("function"))(b);
                }
                continue;
            }
            (Ex::Forward, None) => SelectorBuilder::forward_undirected(),
            (Ex::Reverse, None) => SelectorBuilder::reverse_undirected(),
            (Ex::Recursive, None) => SelectorBuilder::forward_recursive_directed(),
            (Ex::ForwardTo(v), None) => SelectorBuilder::forward_directed(&ids(v)),
            (Ex::ReverseTo(v), None) => SelectorBuilder::reverse_directed(&ids(v)),
            (Ex::Forward, Some(b)) => {
                b.add_forward_undirected();
                continue;
            }
            (Ex::Reverse, Some(b)) => {
                b.add_reverse_undirected();
                continue;
            }
            (Ex::Recursive, Some(b)) => {
                b.add_forward_recursive_directed();
                continue;
            }
            (Ex::ForwardTo(v), Some(b)) => {
                b.add_forward_directed(&ids(v));
                continue;
            }
            (Ex::ReverseTo(v), Some(b)) => {
                b.add_reverse_directed(&ids(v));
                continue;
            }
            (Ex::Get(n), None) if plain => SelectorBuilder::variable_reference(VariableReference::from(ident(n))),
            (Ex::Get(n), None) => SelectorBuilder::variable_reference_from(ident(n)),
            (Ex::Get(n), Some(b)) => {
                if plain {
                    b.add_variable_reference(VariableReference::new(ident(n)));
                } else {
                    b.add_variable_reference_from(ident(n));
                }
                continue;
            }
            (Ex::Set(n, s), x) => {
                let s = by_builder(w, s);
                match x {
                    None if plain => SelectorBuilder::variable_definition(VariableDefinition::new(ident(n), s.into())),
                    None => SelectorBuilder::variable_definition_from(ident(n), s),
                    Some(b) => {
                        if plain {
                            b.add_variable_definition(VariableDefinition::new(ident(n), s.into()));
                        } else {
                            b.add_variable_definition_from(ident(n), s);
                        }
                        continue;
                    }
                }
            }
            (Ex::Call(n, a), x) => {
                let a: Vec<SelectorBuilder> = a.iter().map(|s| by_builder(w, s)).collect();
                let n = ident(n);
                match (n.to_string().as_str(), x) {
                    ("test", None) if !plain => SelectorBuilder::fn_test(&a),
                    ("is", None) if !plain => SelectorBuilder::fn_is(&a),
                    ("not", None) if !plain => SelectorBuilder::fn_not(&a),
                    ("topdown", None) if !plain => SelectorBuilder::fn_topdown(&a),
                    (_, None) => SelectorBuilder::function_from(n, &a),
                    (name, Some(b)) => {
                        match name {
                            "test" if !plain => b.add_test_function(&a),
                            "is" if !plain => b.add_is_function(&a),
                            "not" if !plain => b.add_not_function(&a),
                            "topdown" if !plain => b.add_topdown_function(&a),
                            _ => b.add_function_from(n, &a),
                        };
                        continue;
                    }
                }
            }
            (Ex::Attr(k, m), x) => {
                let mut a = attribute(w, k, m);
                match x {
                    None if plain => SelectorBuilder::attribute(AttributeSelector::from(&mut a)),
                    None => SelectorBuilder::from(a.into()),
                    Some(b) => {
                        if plain {
                            let a = AttributeSelector::from(a);
                            b.add_attribute_from(a.key().clone(), a.comparison().clone());
                        } else {
                            b.add_attribute(AttributeSelector::from(&mut a));
                        }
                        continue;
                    }
                }
            }
            (Ex::Scoped(k, m), x) => {
                let mut a = scoped_attribute(w, k, m);
                match x {
                    None if plain => SelectorBuilder::scoped_attribute(ScopedAttributeSelector::from(&mut a)),
                    None => SelectorBuilder::from(a.into()),
                    Some(b) => {
                        b.add_scoped_attribute(ScopedAttributeSelector::from(a));
                        continue;
                    }
                }
            }
        };
        b = Some(new);
    }
    b.expect("a selector of at least one expression")
}

// ------------------------------------------------------------------------------------------------
// The runs
// ------------------------------------------------------------------------------------------------

/// What became of one text.
struct Report {
    parsed: Option<Result<Sel, String>>,
    again_same: bool,
    printed: String,
    reread: Option<Result<Sel, String>>,
    /// what building gave, by hand and with the builders; whether both equal the parsed one
    built: Vec<(&'static str, Result<Sel, String>, String, bool)>,
}

fn examine(t: &str, want: &Option<Sel>, w: &mut Ways) -> Report {
    let parsed = parse_selector(t);
    let again = parse_selector(t);
    let again_same = match (&parsed, &again) {
        (Ok(a), Ok(b)) => a == b,
        (Err(_), Err(_)) => true,
        _ => false,
    };
    let mut r = Report { parsed: None, again_same, printed: String::new(), reread: None, built: Vec::new() };
    if let Ok(s) = &parsed {
        r.parsed = Some(sel_of(s));
        r.printed = s.to_string();
        r.reread = parse_selector(&r.printed).ok().map(|s| sel_of(&s));
    }
    if let Some(want) = want {
        let hand = by_hand(w, want);
        let built: Selector = by_builder(w, want).into();
        let same = |x: &Selector| matches!(&parsed, Ok(p) if p == x && x == p);
        r.built.push(("model API", sel_of(&hand), hand.to_string(), same(&hand)));
        r.built.push(("builders", sel_of(&built), built.to_string(), same(&built)));
        for i in 0..TYPES.len() {
            // names and operators are each other's inverse
            if ShapeType::from_str(TYPES[i]).ok() != Some(shape_type(i)) || shape_type(i).to_string() != TYPES[i] {
                r.built.push(("shape types", Err(TYPES[i].to_string()), String::new(), false));
            }
        }
    }
    r
}

fn run24(run: &mut Run) -> Outcome {
    let n = 1 + run.c.size(3);
    let mut texts: Vec<(String, Option<Sel>)> = Vec::new();
    for _ in 0..n {
        let mut marks = Vec::new();
        let depth_of = run.c.below(3);
        let s = selector(&mut run.c, depth_of, &mut marks);
        let t = spell(&mut run.c, &s, &marks);
        // the check's own parts against each other
        let back = reference(&t);
        if back.as_ref() != Some(&s) {
            return violation("harness: spelling and reference parser disagree", format!("{t:?}: {s:?} read as {back:?}"));
        }
        if run.c.below(3) == 2 {
            let e = edited(&mut run.c, &t);
            let want = reference(&e);
            if want.as_ref().map(depth).unwrap_or(0) > 4 {
                continue;
            }
            run.nontrivial |= want.is_none();
            if want.is_none() {
                run.probe("text that is no selector");
            } else if want.as_ref() != Some(&s) {
                run.probe("edited into another selector");
            }
            texts.push((e, want));
        } else {
            run.nontrivial |= s.len() > 1;
            texts.push((t, Some(s)));
        }
    }
    if texts.is_empty() {
        texts.push(("*".to_string(), Some(vec![Ex::Type(0)])));
    }
    let deep = run.c.below(40) == 39;
    let mut hostile = None;
    if deep {
        if run.c.below(2) == 0 {
            // legal nesting, deeper than any drawn selector
            let mut s = vec![Ex::Type(0)];
            for _ in 0..run.c.range(5, 100) {
                s = vec![if run.c.below(2) == 0 { Ex::Call("not".to_string(), vec![s]) } else { Ex::Set("v".to_string(), s) }];
            }
            texts.push((spell(&mut run.c, &s, &[]), Some(s)));
            run.probe("nested deep");
        } else {
            let n = 1000 * run.c.range(1, 60) as usize;
            let (open, close) = *run.c.pick(&[(":not(", ")"), ("$a(", ")"), (":is(*,", ")"), ("[@:@{(", ")}="), ("[", "]"), (">", "")]);
            let closed = if run.c.below(2) == 0 { n } else { 0 };
            hostile = Some(format!("{}*{}", open.repeat(n), close.repeat(closed)));
            run.probe("nested without end");
        }
    }
    for (t, _) in &texts {
        run.mark(t.as_bytes());
        run.log(|| format!("text {t:?}"));
    }
    let seed = run.c.seed();
    let mut w = Ways { draws: (0..16).map(|_| run.c.below(12)).collect(), at: 0 };
    let jobs = texts.clone();
    let life = run.pure_life("selectors", seed, move || {
        if let Some(t) = hostile {
            // whether it is read is left open
            std::mem::forget(parse_selector(&t));
        }
        let out: Vec<Report> = jobs.iter().map(|(t, want)| examine(t, want, &mut w)).collect();
        use std::io::Write;
        let _ = std::io::stdout().flush();
        out
    });
    let stdout = life.stdout.clone();
    let reports = life.ok("selectors")?;
    if !stdout.is_empty() {
        return violation(
            "reading a selector writes to standard output",
            format!("{} bytes: {}", stdout.len(), String::from_utf8_lossy(&stdout[..stdout.len().min(120)])),
        );
    }
    for ((t, want), r) in texts.iter().zip(reports) {
        if !r.again_same {
            return violation("a text read twice gives two results", format!("{t:?}"));
        }
        match (&r.parsed, want) {
            (None, None) => continue,
            (None, Some(s)) => return violation("a selector is refused", format!("{t:?}, which is {s:?}")),
            (Some(s), None) => {
                return violation("a text that is no selector is read as one", format!("{t:?} as {s:?}"))
            }
            (Some(s), Some(want)) => {
                if s.as_ref() != Ok(want) {
                    return violation("a text is read as another selector", format!("{t:?}: {want:?} read as {s:?}"));
                }
            }
        }
        if let Some(want) = want {
            match &r.reread {
                Some(Ok(s)) if s == want => {}
                Some(s) => {
                    return violation("a printed selector reads as another", format!("{want:?} printed as {} reads as {s:?}", r.printed))
                }
                None => {
                    return violation("a printed selector cannot be read", format!("{want:?} printed as {}", r.printed))
                }
            }
            for (how, s, printed, same) in &r.built {
                if s.as_ref() != Ok(want) {
                    return violation(format!("another selector is built: {how}"), format!("{want:?} built as {s:?}"));
                }
                if *printed != r.printed {
                    return violation(format!("printed differently: {how}"), format!("{printed} and {}", r.printed));
                }
                if !same {
                    return violation(format!("not equal: {how}"), format!("{t:?} and {printed}"));
                }
            }
        }
    }
    Ok(())
}
