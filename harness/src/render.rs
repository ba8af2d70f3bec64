//! Renders models as Avro IDL text. All spelling freedom (layout, comments,
//! backticks, radix, quoting, shorthand or explicit forms, annotation or
//! dotted namespaces, grouping of variables) is decided by the tape.

use crate::gen_::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    /// Marks this token for position queries.
    pub mark: Option<String>,
    pub doc: bool,
    /// No trivia may be put between this token and the previous one.
    pub glue: bool,
    pub lex: Lex,
}
/// What spelling freedom a token has.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Lex {
    Plain,
    /// A declared name: backticks are optional.
    Declared,
    /// An integer in JSON, or a size, precision or scale (no suffix).
    Int(bool),
    /// Planted: the program means the same without it.
    Planted,
}
impl Tok {
    pub fn new(s: impl Into<String>) -> Tok {
        Tok { text: s.into(), mark: None, doc: false, glue: false, lex: Lex::Plain }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// One canonical spelling.
    Plain,
    /// Spelling decided by the tape, ASCII layout with single spaces.
    Spelled,
    /// Spelling and layout decided by the tape.
    Wild,
}

/// A place where something can be inserted into a rendered file.
#[derive(Clone, Debug, PartialEq)]
pub struct Slot {
    pub kind: SlotKind,
    /// Token index.
    pub at: usize,
    /// Namespace names are resolved in.
    pub scope: Option<String>,
    /// Full name of the type, or name of the message, holding the slot.
    pub owner: String,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SlotKind {
    Decl,
    Field,
    /// A parameter; whether others precede and follow.
    Param(bool, bool),
    /// The main schema's type, up to this token index.
    Main(usize),
}

/// What a doc comment standing directly before a token documents.
#[derive(Clone, Debug, PartialEq)]
pub enum Anchor {
    Proto,
    Def(String),
    /// All variables of a field or parameter declaration: (owner, names).
    Group(String, Vec<String>),
    Var(String, String),
    Msg(String),
}

pub struct Rend<'t> {
    pub t: &'t mut Tape,
    pub slots: Vec<Slot>,
    pub anchors: Vec<(usize, Anchor)>,
    pub style: Style,
    pub toks: Vec<Tok>,
    next_mark: Option<String>,
    /// Number of places where a union type lost nothing but was spelled `T?`.
    pub stats: BTreeMap<&'static str, usize>,
    /// Extra annotations on explicit unions (dropped by the language, with a warning).
    pub spell_refs: bool,
    /// Plant annotations on unions.
    pub warn: bool,
    /// Constructs that deserve a warning: first and last token, kind, what the warning must mention.
    pub warned: Vec<(usize, usize, &'static str, String)>,
}

const DECLARED: char = '\u{1}';
const JSON_INT: char = '\u{2}';
const SMALL_INT: char = '\u{3}';

pub const RESERVED_WORDS: &[&str] = &[
    "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union",
    "boolean", "int", "long", "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date",
    "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "void", "oneway", "throws",
];

pub fn logical_keyword(p: &str, pr: &Props) -> Option<String> {
    let lt = pr.get("logicalType")?.as_str()?;
    Some(match (p, lt) {
        ("int", "date") => "date".into(),
        ("int", "time-millis") => "time_ms".into(),
        ("long", "timestamp-millis") => "timestamp_ms".into(),
        ("long", "local-timestamp-millis") => "local_timestamp_ms".into(),
        ("string", "uuid") => "uuid".into(),
        ("bytes", "decimal") => {
            let p = pr.get("precision")?.as_u64()?;
            let s = pr.get("scale")?.as_u64()?;
            if p == 0 || s > p || p > i32::MAX as u64 {
                return None;
            }
            "decimal".into()
        }
        _ => return None,
    })
}

pub fn quote_plain(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex4(t: &mut Tape, u: u32) -> String {
    if t.coin() { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") }
}

/// A string literal denoting `s`, spelled by the tape.
pub fn quote(t: &mut Tape, s: &str) -> String {
    let q = '"';
    let mut o = String::new();
    o.push(q);
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let next_is_oct = cs.get(i + 1).is_some_and(|d| d.is_ascii_digit());
        let cp = c as u32;
        let named = match c {
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '\\' => Some("\\\\"),
            '"' => Some("\\\""),
            '\'' => Some("\\'"),
            _ => None,
        };
        let must = c == q || matches!(c, '\\' | '\n' | '\r' | '\t' | '\u{8}' | '\u{c}' | '\u{1a}');
        // in long strings, only the beginning varies
        let mode = match (i < 200, must) {
            (true, true) => 1 + t.weighted(&[60, 25, 15]),
            (true, false) => t.weighted(&[84, 6, 5, 5]),
            (false, m) => m as usize,
        };
        match mode {
            0 => o.push(c),
            3 if cp <= 0xff => {
                // octal escape
                let s3 = format!("\\{cp:03o}");
                if next_is_oct || t.coin() {
                    o.push_str(&s3);
                } else {
                    o.push_str(&format!("\\{cp:o}"));
                }
            }
            1 if named.is_some() => o.push_str(named.unwrap()),
            _ => {
                if cp < 0x10000 {
                    o.push_str(&hex4(t, cp));
                } else {
                    let v = cp - 0x10000;
                    let a = hex4(t, 0xd800 + (v >> 10));
                    let b = hex4(t, 0xdc00 + (v & 0x3ff));
                    o.push_str(&a);
                    o.push_str(&b);
                }
            }
        }
    }
    o.push(q);
    o
}

pub fn int_lit(t: &mut Tape, v: i64) -> String {
    let neg = v < 0;
    let a = (v as i128).unsigned_abs();
    let mut s = match t.weighted(&[60, 20, 10, 10]) {
        0 => format!("{a}"),
        1 => {
            let x = if t.coin() { "0x" } else { "0X" };
            if t.coin() { format!("{x}{a:x}") } else { format!("{x}{a:X}") }
        }
        2 => format!("0{a:o}"),
        _ => format!("0x00{a:x}"),
    };
    if neg {
        s.insert(0, '-');
    }
    if t.chance(1, 6) {
        s.push(if t.coin() { 'L' } else { 'l' });
    }
    s
}

pub fn float_lit(t: &mut Tape, f: f64) -> String {
    // every variant below denotes exactly f
    let mut s = match t.weighted(&[40, 20, 20, 20]) {
        0 => format!("{f:?}"),
        1 => format!("{f:e}"),
        2 => {
            let x = format!("{f:E}");
            if x.contains('.') { x } else { x.replace('E', ".0E") }
        }
        _ => {
            // hexadecimal
            let bits = f.to_bits();
            let sign = if bits >> 63 == 1 { "-" } else { "" };
            let e = ((bits >> 52) & 0x7ff) as i64;
            let m = bits & ((1 << 52) - 1);
            if e == 0 {
                format!("{sign}0x0.{m:013x}p-1022")
            } else if t.coin() {
                format!("{sign}0x1.{m:013x}p{}", e - 1023)
            } else {
                format!("{sign}0X{:X}P{}", m | (1 << 52), e - 1075)
            }
        }
    };
    if s.starts_with("0.") && !s.contains(['x', 'X']) && t.chance(1, 4) {
        s.remove(0);
    }
    if !s.starts_with('-') && t.chance(1, 8) {
        s.insert(0, '+');
    }
    if t.chance(1, 5) {
        s.push(*t.pick(&['d', 'f', 'D', 'F']));
    }
    s
}

impl<'t> Rend<'t> {
    pub fn new(t: &'t mut Tape, style: Style) -> Self {
        Rend { t, slots: vec![], anchors: vec![], style, toks: vec![], next_mark: None, stats: BTreeMap::new(), spell_refs: true, warn: false, warned: vec![] }
    }
    fn free(&self) -> bool {
        self.style != Style::Plain
    }
    pub fn stat(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }
    fn slot(&mut self, kind: SlotKind, scope: Option<&str>, owner: &str) {
        let at = self.toks.len();
        self.slots.push(Slot { kind, at, scope: scope.map(|s| s.to_string()), owner: owner.to_string() });
    }
    pub fn mark(&mut self, m: impl Into<String>) {
        self.next_mark = Some(m.into());
    }
    pub fn push(&mut self, s: impl Into<String>) {
        let mark = self.next_mark.take();
        let mut text: String = s.into();
        // spelling freedom is passed along in a private prefix
        let lex = match text.chars().next() {
            Some(DECLARED) => Lex::Declared,
            Some(JSON_INT) => Lex::Int(true),
            Some(SMALL_INT) => Lex::Int(false),
            _ => Lex::Plain,
        };
        if lex != Lex::Plain {
            text.remove(0);
        }
        self.toks.push(Tok { mark, lex, ..Tok::new(text) });
    }
    fn chance(&mut self, n: u32, d: u32) -> bool {
        self.free() && self.t.chance(n, d)
    }

    /// A single identifier segment that is being declared (keywords allowed bare).
    pub fn decl_ident(&mut self, s: &str) -> String {
        // the words below would be read as types if bare at the start of a declaration
        if self.chance(1, 5) || RESERVED_WORDS.contains(&s) && !self.chance(1, 2) { format!("{DECLARED}`{s}`") } else { format!("{DECLARED}{s}") }
    }
    /// A possibly dotted name that is referenced.
    pub fn ref_ident(&mut self, s: &str) -> String {
        let single = !s.contains('.');
        let mut parts = vec![];
        for p in s.split('.') {
            let must = single && RESERVED_WORDS.contains(&p);
            if must || self.chance(1, 6) {
                parts.push(format!("`{p}`"));
            } else {
                parts.push(p.to_string());
            }
        }
        parts.join(".")
    }
    /// Annotation names may hold dots and dashes between parts.
    fn prop_ident(&mut self, s: &str) -> String {
        if s.contains(['-', '.']) {
            s.to_string()
        } else if !self.chance(1, 6) {
            format!("{DECLARED}{s}")
        } else {
            format!("{DECLARED}`{s}`")
        }
    }

    pub fn str_lit(&mut self, s: &str) -> String {
        if self.free() { quote(self.t, s) } else { quote_plain(s) }
    }

    pub fn json(&mut self, v: &Value) {
        match v {
            Value::Null => self.push("null"),
            Value::Bool(b) => self.push(if *b { "true" } else { "false" }),
            Value::Number(n) => {
                let s = if let Some(i) = n.as_i64() {
                    format!("{JSON_INT}{}", if self.free() { int_lit(self.t, i) } else { i.to_string() })
                } else {
                    let f = n.as_f64().unwrap();
                    if self.free() { float_lit(self.t, f) } else { format!("{f:?}") }
                };
                self.push(s);
            }
            Value::String(s) => {
                let naked = matches!(s.as_str(), "NaN" | "Infinity" | "-Infinity") && self.chance(1, 2);
                if naked {
                    self.push(s.clone());
                } else {
                    let l = self.str_lit(s);
                    self.push(l);
                }
            }
            Value::Array(a) => {
                self.push("[");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.push(",");
                    }
                    self.json(x);
                }
                self.push("]");
            }
            Value::Object(o) => {
                self.push("{");
                for (i, (k, x)) in o.iter().enumerate() {
                    if i > 0 {
                        self.push(",");
                    }
                    let l = self.str_lit(k);
                    self.push(l);
                    self.push(":");
                    self.json(x);
                }
                self.push("}");
            }
        }
    }

    pub fn annotation(&mut self, name: &str, v: &Value) {
        let from = self.toks.len();
        self.annotation_tokens(name, v);
        if let ("aliases", Some(a)) = (name, v.as_array()) {
            let odd = a.iter().filter_map(|x| x.as_str()).filter(|s| !s.split('.').all(valid_name));
            let to = self.toks.len() - 1;
            self.warned.extend(odd.map(|s| (from, to, "alias", s.to_string())));
        }
    }
    fn annotation_tokens(&mut self, name: &str, v: &Value) {
        self.push("@");
        let n = self.prop_ident(name);
        self.push(n);
        self.push("(");
        self.json(v);
        self.push(")");
    }

    fn shuffled(&mut self, mut xs: Vec<(String, Value)>) -> Vec<(String, Value)> {
        if !self.free() {
            return xs;
        }
        let mut out = vec![];
        while !xs.is_empty() {
            let i = self.t.usize(xs.len());
            out.push(xs.remove(i));
        }
        out
    }

    pub fn annotations(&mut self, xs: Vec<(String, Value)>) {
        for (k, v) in self.shuffled(xs) {
            self.annotation(&k, &v);
        }
    }
    pub fn props(&mut self, p: &Props) {
        let xs = p.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        self.annotations(xs);
    }

    /// A doc comment token denoting `text` (plain doc text only).
    pub fn doc(&mut self, text: &Option<String>, a: Anchor) {
        self.anchors.push((self.toks.len(), a));
        let Some(text) = text else { return };
        let many = text.contains('\n');
        let style = if self.free() { self.t.below(4) } else { 0 };
        let c = if !many && style < 2 {
            if style == 0 { format!("/** {text} */") } else { format!("/**\n * {text}\n */") }
        } else {
            match style {
                0 | 1 => {
                    // starred block
                    let mut s = String::from("/**\n");
                    for l in text.split('\n') {
                        s.push_str(if l.is_empty() { " *" } else { " * " });
                        s.push_str(l);
                        s.push('\n');
                    }
                    s.push_str(" */");
                    s
                }
                2 => {
                    // first line on the opening line, no stars
                    let mut s = String::from("/** ");
                    for (i, l) in text.split('\n').enumerate() {
                        if i > 0 {
                            s.push_str(if l.is_empty() { "\n" } else { "\n    " });
                        }
                        s.push_str(l);
                    }
                    s.push_str("\n   */");
                    s
                }
                _ => {
                    // indented block without stars
                    let mut s = String::from("/**\n");
                    for l in text.split('\n') {
                        if !l.is_empty() {
                            s.push_str("     ");
                            s.push_str(l);
                        }
                        s.push('\n');
                    }
                    s.push_str("  */");
                    s
                }
            }
        };
        if self.chance(1, 12) {
            // an earlier doc comment is superseded by the last one... but warns; only plain comments here
            self.comment();
        }
        let mark = self.next_mark.take();
        self.toks.push(Tok { mark, doc: true, ..Tok::new(c) });
        if self.chance(1, 12) {
            self.comment();
        }
    }
    fn comment(&mut self) {
        let c = trivia_comment(self.t);
        self.toks.push(Tok { doc: true, ..Tok::new(c) });
    }

    /// Spelling of a reference to `full` in a scope with namespace `scope`.
    pub fn spell_ref(&mut self, full: &str, scope: Option<&str>) -> String {
        let short_ok = ns_of(full) == scope;
        let s = if short_ok && (ns_of(full).is_none() || !(self.spell_refs && self.chance(1, 4))) {
            simple_of(full).to_string()
        } else {
            full.to_string()
        };
        self.ref_ident(&s)
    }

    fn prim(&mut self, p: &str, pr: &Props, annotated: bool) {
        if let Some(k) = logical_keyword(p, pr) {
            if !annotated || self.chance(2, 3) || self.style == Style::Plain {
                // keyword form
                let mut rest = pr.clone();
                rest.remove("logicalType");
                let mut args = None;
                if k == "decimal" {
                    let pc = rest.remove("precision").unwrap().as_i64().unwrap();
                    let sc = rest.remove("scale").unwrap().as_i64().unwrap();
                    args = Some((pc, sc));
                }
                if annotated {
                    self.props(&rest);
                }
                self.push(k);
                if let Some((pc, sc)) = args {
                    self.push("(");
                    let l = format!("{SMALL_INT}{}", if self.free() { small_int(self.t, pc) } else { pc.to_string() });
                    self.push(l);
                    if sc != 0 || self.chance(1, 2) {
                        self.push(",");
                        let l = format!("{SMALL_INT}{}", if self.free() { small_int(self.t, sc) } else { sc.to_string() });
                        self.push(l);
                    }
                    self.push(")");
                }
                self.stat("logical-keyword");
                return;
            }
            self.stat("logical-annotation");
        }
        if annotated {
            let mut pr = pr.clone();
            if logical_keyword(p, &pr).is_some()
                && p == "bytes"
                && pr.get("scale") == Some(&Value::from(0))
                && self.chance(1, 2)
            {
                pr.remove("scale");
            }
            self.props(&pr);
        }
        self.push(p);
    }

    /// A type in a position that allows annotations (`full`) or not.
    pub fn ty(&mut self, s: &Sch, scope: Option<&str>, full: bool, nullable: bool) {
        match s {
            Sch::Prim(p, pr) => self.prim(p, pr, full),
            Sch::Named(n) => {
                let r = self.spell_ref(n, scope);
                self.push(r);
            }
            Sch::Array(i, pr) => {
                if full {
                    self.props(pr);
                }
                self.push("array");
                self.push("<");
                self.ty(i, scope, true, true);
                self.push(">");
            }
            Sch::Map(i, pr) => {
                if full {
                    self.props(pr);
                }
                self.push("map");
                self.push("<");
                self.ty(i, scope, true, true);
                self.push(">");
            }
            Sch::Union(bs) => {
                if nullable
                    && bs.len() == 2
                    && matches!(&bs[0], Sch::Prim(n, p) if n == "null" && p.is_empty())
                    && self.nullable_ok(&bs[1], full)
                    && self.chance(2, 3)
                {
                    self.nullable(&bs[1], scope, full);
                    return;
                }
                let from = self.toks.len();
                let mut planted = vec![];
                if self.warn && full && self.t.chance(1, 3) {
                    let mut keys = vec!["x", "logicalType", "java-class", "order"];
                    while keys.len() > 1 && self.t.chance(2, 3) {
                        let i = self.t.usize(keys.len());
                        keys.remove(i);
                    }
                    for k in keys {
                        let v = if k == "logicalType" { Value::from("date") } else { json(self.t, 1) };
                        self.annotation(k, &v);
                        planted.push(k);
                    }
                    let to = self.toks.len();
                    self.toks[from..to].iter_mut().for_each(|k| k.lex = Lex::Planted);
                }
                let event = self.warned.len();
                if !planted.is_empty() {
                    planted.sort();
                    self.warned.push((from, from, "union", planted.join(", ")));
                }
                self.push("union");
                self.push("{");
                for (i, b) in bs.iter().enumerate() {
                    if i > 0 {
                        self.push(",");
                    }
                    self.ty(b, scope, true, false);
                }
                self.push("}");
                if !planted.is_empty() {
                    self.warned[event].1 = self.toks.len() - 1;
                }
            }
        }
    }
    fn nullable_ok(&self, inner: &Sch, full: bool) -> bool {
        match inner {
            Sch::Named(_) => true,
            Sch::Prim(p, pr) => p != "null" && (full || pr.is_empty() || logical_only(p, pr)),
            _ => false,
        }
    }
    pub fn nullable(&mut self, inner: &Sch, scope: Option<&str>, full: bool) {
        self.stat("nullable");
        self.ty(inner, scope, full, false);
        self.push("?");
    }

    /// Type of a field: decides between `T?` and explicit union per variable group.
    fn field_group(&mut self, fs: &[Fld], scope: Option<&str>, owner: &str) {
        // fs all share a spelling (checked by the caller)
        let nullable = nullable_form(&fs[0]);
        let use_q = match &nullable {
            Some(inner) => self.nullable_ok(inner, true) && (fs.iter().any(|f| f.ty != fs[0].ty) || self.chance(2, 3)),
            None => false,
        };
        let same_doc = fs.iter().all(|f| f.doc == fs[0].doc);
        let doc_first = same_doc && fs[0].doc.is_some() && (!self.free() || self.t.coin());
        let group = Anchor::Group(owner.to_string(), fs.iter().map(|f| f.name.clone()).collect());
        self.doc(if doc_first { &fs[0].doc } else { &None }, group);
        if use_q {
            self.nullable(&nullable.unwrap(), scope, true);
        } else {
            self.ty(&fs[0].ty, scope, true, false);
        }
        for (i, f) in fs.iter().enumerate() {
            if i > 0 {
                self.push(",");
            }
            self.doc(if doc_first { &None } else { &f.doc }, Anchor::Var(owner.to_string(), f.name.clone()));
            self.variable(f);
        }
        if fs.len() > 1 {
            self.stat("grouped-variables");
        }
    }

    fn variable(&mut self, f: &Fld) {
        let mut xs: Vec<(String, Value)> = f.props.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if !f.aliases.is_empty() {
            xs.push(("aliases".into(), Value::from(f.aliases.clone())));
        }
        if f.order != "ascending" || self.chance(1, 20) {
            let o = match if self.free() { self.t.below(3) } else { 0 } {
                0 => f.order.clone(),
                1 => f.order.to_uppercase(),
                _ => {
                    let mut c = f.order.clone();
                    c[..1].make_ascii_uppercase();
                    c
                }
            };
            xs.push(("order".into(), Value::String(o)));
        }
        self.annotations(xs);
        let n = self.decl_ident(&f.name);
        self.push(n);
        if let Some(d) = &f.default {
            self.push("=");
            self.json(d);
        }
    }

    fn fields(&mut self, fs: &[Fld], scope: Option<&str>, owner: &str) {
        let mut i = 0;
        while i < fs.len() {
            self.slot(SlotKind::Field, scope, owner);
            let mut j = i + 1;
            while j < fs.len() && same_spelling(&fs[i], &fs[j]) && group_mixable(&fs[i..=j]) && self.chance(3, 4) {
                j += 1;
            }
            self.field_group(&fs[i..j], scope, owner);
            self.push(";");
            i = j;
        }
        self.slot(SlotKind::Field, scope, owner);
    }

    /// Name and namespace of a declaration; `xs` receives annotations.
    fn name_spelling(&mut self, full: &str, enclosing: Option<&str>, xs: &mut Vec<(String, Value)>) -> String {
        let ns = ns_of(full);
        let simple = simple_of(full);
        let mode = match (ns, enclosing) {
            (None, Some(_)) => 2,
            (None, None) => 0,
            (a, b) if a == b => {
                if self.free() { self.t.weighted(&[80, 10, 10]) } else { 0 }
            }
            _ => {
                if self.free() { 1 + self.t.usize(2) } else { 1 }
            }
        };
        match mode {
            0 => self.decl_ident(simple),
            1 => {
                if self.chance(1, 8) {
                    // a dotted name wins over a namespace annotation
                    xs.push(("namespace".into(), Value::String((*self.t.pick(&["zz.y", "org", ""])).to_string())));
                    self.stat("dotted-beats-annotation");
                }
                self.ref_ident(full)
            }
            _ => {
                xs.push(("namespace".into(), Value::String(ns.unwrap_or("").to_string())));
                self.decl_ident(simple)
            }
        }
    }

    pub fn named(&mut self, d: &Def, enclosing: Option<&str>) {
        self.doc(&d.doc, Anchor::Def(d.full.clone()));
        let mut xs: Vec<(String, Value)> = d.props.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let ns = ns_of(&d.full).map(|s| s.to_string());
        if !d.aliases.is_empty() {
            let mut al = vec![];
            for a in &d.aliases {
                if ns_of(a) == ns.as_deref() && !(ns.is_some() && self.chance(1, 3)) {
                    al.push(Value::String(simple_of(a).to_string()));
                } else {
                    al.push(Value::String(a.clone()));
                }
            }
            xs.push(("aliases".into(), Value::Array(al)));
        }
        let name = self.name_spelling(&d.full, enclosing, &mut xs);
        self.annotations(xs);
        match &d.kind {
            Kind::Record { error, fields } => {
                self.push(if *error { "error" } else { "record" });
                self.mark(format!("def:{}", d.full));
                self.push(name);
                self.push("{");
                self.fields(fields, ns.as_deref(), &d.full);
                self.push("}");
            }
            Kind::Enum { symbols, default } => {
                self.push("enum");
                self.mark(format!("def:{}", d.full));
                self.push(name);
                self.push("{");
                for (i, s) in symbols.iter().enumerate() {
                    if i > 0 {
                        self.push(",");
                    }
                    let s = self.decl_ident(s);
                    self.push(s);
                }
                self.push("}");
                if let Some(s) = default {
                    self.push("=");
                    let s = self.decl_ident(s);
                    self.push(s);
                    self.push(";");
                }
            }
            Kind::Fixed { size } => {
                self.push("fixed");
                self.mark(format!("def:{}", d.full));
                self.push(name);
                self.push("(");
                let l = format!("{SMALL_INT}{}", if self.free() { small_int(self.t, *size as i64) } else { size.to_string() });
                self.push(l);
                self.push(")");
                self.push(";");
            }
        }
    }

    pub fn message(&mut self, name: &str, m: &Msg, scope: Option<&str>) {
        self.doc(&m.doc, Anchor::Msg(name.to_string()));
        self.props(&m.props);
        let null = m.response == Sch::Prim("null".into(), Props::new());
        if null && (m.oneway || !self.chance(1, 4)) {
            self.push("void");
        } else {
            self.ty(&m.response, scope, false, true);
        }
        let n = self.decl_ident(name);
        self.mark(format!("msg:{name}"));
        self.push(n);
        self.push("(");
        for (i, f) in m.request.iter().enumerate() {
            if i > 0 {
                self.push(",");
            }
            self.slot(SlotKind::Param(i > 0, true), scope, name);
            self.field_group(std::slice::from_ref(f), scope, &format!("msg {name}"));
        }
        if m.request.is_empty() {
            self.slot(SlotKind::Param(false, false), scope, name);
        }
        self.push(")");
        if m.oneway {
            self.push("oneway");
        } else if let Some(es) = &m.errors {
            self.push("throws");
            for (i, e) in es.iter().enumerate() {
                if i > 0 {
                    self.push(",");
                }
                if let Sch::Named(n) = e {
                    let r = self.spell_ref(n, scope);
                    self.push(r);
                }
            }
        }
        self.push(";");
    }

    pub fn import(&mut self, kind: &str, path: &str) {
        self.push("import");
        self.push(kind);
        let l = self.str_lit(path);
        self.mark(format!("import:{path}"));
        self.push(l);
        self.push(";");
    }

    /// The file's declarations. `imports` are placed by index: (position among
    /// the definitions, kind, path).
    pub fn file(&mut self, m: &Model, imports: &[(usize, String, String)]) {
        let ns = m.ns().map(|s| s.to_string());
        let mut msgs: Vec<(&String, &Msg)> = m.proto.messages.iter().collect();
        if m.mode == Mode::Protocol {
            self.doc(&m.proto.doc, Anchor::Proto);
            let mut xs: Vec<(String, Value)> = m.proto.props.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            let full = join(ns.as_deref(), &m.proto.name);
            let name = if ns.is_none() {
                self.decl_ident(&m.proto.name)
            } else {
                // no enclosing namespace: annotation or dotted
                if self.chance(1, 3) {
                    self.ref_ident(&full)
                } else {
                    xs.push(("namespace".into(), Value::String(ns.clone().unwrap())));
                    self.decl_ident(&m.proto.name)
                }
            };
            self.annotations(xs);
            self.push("protocol");
            self.push(name);
            self.push("{");
        } else {
            if let Some(n) = &ns {
                self.push("namespace");
                let n = self.ref_ident(n);
                self.push(n);
                self.push(";");
            }
            if let Mode::Schema(s) = &m.mode {
                self.push("schema");
                let from = self.toks.len();
                self.ty(s, ns.as_deref(), true, true);
                let to = self.toks.len();
                self.slots.push(Slot { kind: SlotKind::Main(to), at: from, scope: ns.clone(), owner: String::new() });
                self.push(";");
            }
        }
        for i in 0..=m.defs.len() {
            self.slot(SlotKind::Decl, ns.as_deref(), "");
            for (at, k, p) in imports {
                if *at == i || (*at > m.defs.len() && i == m.defs.len()) {
                    self.import(k, p);
                }
            }
            while !msgs.is_empty() && self.chance(1, 3) {
                let j = self.t.usize(msgs.len());
                let (n, x) = msgs.remove(j);
                self.message(n, x, ns.as_deref());
            }
            if let Some(d) = m.defs.get(i) {
                self.named(d, ns.as_deref());
            }
        }
        for (n, x) in msgs {
            self.slot(SlotKind::Decl, ns.as_deref(), "");
            self.message(n, x, ns.as_deref());
        }
        self.slot(SlotKind::Decl, ns.as_deref(), "");
        if m.mode == Mode::Protocol {
            self.push("}");
        }
    }

    pub fn finish(self) -> (String, BTreeMap<String, (usize, usize)>) {
        let style = self.style;
        layout(self.t, &self.toks, style)
    }
}

fn logical_only(p: &str, pr: &Props) -> bool {
    logical_keyword(p, pr).is_some()
        && pr.keys().all(|k| k == "logicalType" || (p == "bytes" && (k == "precision" || k == "scale")))
}

/// Small non-negative integer literal for sizes, precisions and scales.
pub fn small_int(t: &mut Tape, v: i64) -> String {
    match t.weighted(&[70, 15, 15]) {
        0 => v.to_string(),
        1 => match t.below(4) {
            0 => format!("0x{v:x}"),
            1 => format!("0X{v:X}"),
            2 => format!("0x00{v:X}"),
            _ => format!("0X0{v:x}"),
        },
        _ => format!("{}{v:o}", t.pick(&["0", "0", "00"])),
    }
}

/// If the field can be written with `?`, the inner type.
pub fn nullable_form(f: &Fld) -> Option<Sch> {
    let Sch::Union(bs) = &f.ty else { return None };
    if bs.len() != 2 {
        return None;
    }
    let is_null = |s: &Sch| matches!(s, Sch::Prim(n, p) if n == "null" && p.is_empty());
    let ok = |s: &Sch| match s {
        Sch::Named(_) => true,
        Sch::Prim(p, _) => p != "null",
        _ => false,
    };
    let null_default = f.default.as_ref().is_none_or(|d| d.is_null());
    if is_null(&bs[0]) && null_default && ok(&bs[1]) {
        Some(bs[1].clone())
    } else if is_null(&bs[1]) && !null_default && ok(&bs[0]) {
        Some(bs[0].clone())
    } else {
        None
    }
}
/// Two fields can share one type spelling.
fn same_spelling(a: &Fld, b: &Fld) -> bool {
    a.ty == b.ty || matches!((nullable_form(a), nullable_form(b)), (Some(x), Some(y)) if x == y)
}
/// A group whose types differ must be spelled with `?`, so all must allow it.
fn group_mixable(fs: &[Fld]) -> bool {
    if fs.iter().all(|f| f.ty == fs[0].ty) {
        // spelled alike: `?` only if every member has the form
        let n = fs.iter().filter(|f| nullable_form(f).is_some()).count();
        return n == 0 || n == fs.len();
    }
    fs.iter().all(|f| nullable_form(f).is_some())
}

pub fn trivia_comment(t: &mut Tape) -> String {
    let mut body = String::new();
    let mut n = 0;
    while t.more(n, 10, 3, 4) {
        body.push_str(*t.pick(&["a", " ", "x=1;", "}", "{", "\"", "'", "é", "日", "😀", "@foo(", "`", "\\", "//", "* ", "record R", "/", "#", "\u{0}", "\u{10ffff}", "\u{b}", "\n", "\r\n//", "\n  * "]));
        n += 1;
    }
    match t.weighted(&[50, 40, 10]) {
        0 => {
            let b = body.replace("*/", "* /");
            format!("/* {b} */")
        }
        1 => format!("//{}{}", body.replace(['\r', '\n'], " "), t.pick(&["\n", "\n", "\r\n", "\r"])),
        _ => "/**/".into(),
    }
}

fn wordish(c: char) -> bool {
    c.is_alphanumeric() || matches!(c, '_' | '`' | '-' | '+' | '.' | '"' | '\'')
}

/// Joins tokens; returns the text and the byte range of marked tokens.
pub fn layout(t: &mut Tape, toks: &[Tok], style: Style) -> (String, BTreeMap<String, (usize, usize)>) {
    let mut out = String::new();
    let mut marks = BTreeMap::new();
    let wild = style == Style::Wild;
    let gap = |t: &mut Tape, out: &mut String, must: bool| {
        let mut any = false;
        let mut n = 0;
        loop {
            let w = t.weighted(&[60, 12, 10, 5, 5, 8]);
            match w {
                0 => break,
                1 => out.push(' '),
                2 => out.push('\n'),
                3 => out.push_str("\r\n"),
                4 => out.push_str(*t.pick(&["\t", "   ", "\u{c}", "\r"])),
                _ => {
                    // keep `//` from gluing to a previous slash: none of our tokens end in one
                    let c = trivia_comment(t);
                    out.push_str(&c);
                }
            }
            any = true;
            n += 1;
            if n > 4 {
                break;
            }
        }
        if must && !any {
            out.push(' ');
        }
    };
    if wild {
        gap(t, &mut out, false);
    }
    let mut prev: Option<char> = None;
    for k in toks {
        let first = k.text.chars().next().unwrap_or(' ');
        let must = prev.is_some_and(|p| wordish(p) && wordish(first));
        if prev.is_some() && !k.glue {
            if wild {
                gap(t, &mut out, must);
            } else if k.doc {
                out.push('\n');
            } else {
                match prev {
                    Some(';' | '{' | '}') if !must => out.push('\n'),
                    _ => out.push(' '),
                }
            }
        }
        let start = out.len();
        out.push_str(&k.text);
        if let Some(m) = &k.mark {
            marks.insert(m.clone(), (start, k.text.len()));
        }
        prev = k.text.chars().last();
    }
    if wild {
        gap(t, &mut out, false);
        if t.chance(1, 12) {
            // end-of-input control character and ignored text
            out.push('\u{1a}');
            out.push_str(*t.pick(&["", "garbage } {", "\u{1a}", "protocol X {", "\"", "/*"]));
        }
    } else {
        out.push('\n');
    }
    (out, marks)
}

pub fn render(t: &mut Tape, m: &Model, style: Style) -> String {
    let mut r = Rend::new(t, style);
    r.file(m, &[]);
    r.finish().0
}

/// The text denoted by a string literal as written by this module.
pub fn unquote(lit: &str) -> Option<String> {
    let inner = lit.strip_prefix('"')?.strip_suffix('"')?;
    let mut units: Vec<u16> = vec![];
    let cs: Vec<char> = inner.chars().collect();
    let mut i = 0;
    let put = |units: &mut Vec<u16>, c: char| units.extend_from_slice(c.encode_utf16(&mut [0; 2]));
    while i < cs.len() {
        if cs[i] != '\\' {
            put(&mut units, cs[i]);
            i += 1;
            continue;
        }
        let c = *cs.get(i + 1)?;
        i += 2;
        match c {
            'n' => units.push(10),
            'r' => units.push(13),
            't' => units.push(9),
            'b' => units.push(8),
            'f' => units.push(12),
            '\\' | '"' | '\'' => put(&mut units, c),
            'u' => {
                let h: String = cs.get(i..i + 4)?.iter().collect();
                units.push(u16::from_str_radix(&h, 16).ok()?);
                i += 4;
            }
            '0'..='7' => {
                let max = if c <= '3' { 3 } else { 2 };
                let mut v = c.to_digit(8)? as u16;
                let mut n = 1;
                while n < max && cs.get(i).is_some_and(|d| d.is_digit(8)) {
                    v = v * 8 + cs[i].to_digit(8)? as u16;
                    i += 1;
                    n += 1;
                }
                units.push(v);
            }
            _ => return None,
        }
    }
    String::from_utf16(&units).ok()
}

fn read_int(s: &str) -> Option<(i128, bool)> {
    let (s, suffix) = match s.strip_suffix(['L', 'l']) {
        Some(r) => (r, true),
        None => (s, false),
    };
    let (neg, s) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let v = if let Some(h) = s.strip_prefix("0x").or_else(|| s.strip_prefix("0X")) {
        i128::from_str_radix(h, 16).ok()?
    } else if s.len() > 1 && s.starts_with('0') {
        i128::from_str_radix(s, 8).ok()?
    } else {
        s.parse().ok()?
    };
    Some((if neg { -v } else { v }, suffix))
}

/// Another spelling of the same token sequence. `valid`: every token stands where it was generated.
pub fn respell(t: &mut Tape, toks: &[Tok], valid: bool) -> Vec<Tok> {
    let mut out = vec![];
    for k in toks {
        if k.doc && !k.text.starts_with("/**") || k.text == "/**/" {
            continue;
        }
        let mut k = k.clone();
        if k.doc || t.coin() {
            out.push(k);
            continue;
        }
        if k.text.starts_with('"') {
            if let Some(s) = unquote(&k.text) {
                k.text = quote(t, &s);
            }
        } else if let (Lex::Int(json), Some((v, suffix))) = (k.lex, read_int(&k.text)) {
            let mut s = if (v.unsigned_abs()) <= i64::MAX as u128 || v == i64::MIN as i128 {
                int_lit(t, v as i64).trim_end_matches(['L', 'l']).to_string()
            } else {
                k.text.trim_end_matches(['L', 'l']).to_string()
            };
            if if valid && json { t.coin() } else { suffix } {
                s.push(if t.coin() { 'L' } else { 'l' });
            }
            k.text = s;
        } else if k.text.chars().next().is_some_and(|c| c.is_alphabetic() || c == '_' || c == '`') && !k.text.contains('-') {
            let single = !k.text.contains('.');
            let parts: Vec<String> = k
                .text
                .split('.')
                .map(|p| {
                    let bare = p.trim_matches('`');
                    if single && !(valid && k.lex == Lex::Declared) && RESERVED_WORDS.contains(&bare) || bare == "NaN" || bare == "Infinity" {
                        p.to_string()
                    } else if t.coin() {
                        bare.to_string()
                    } else {
                        format!("`{bare}`")
                    }
                })
                .collect();
            k.text = parts.join(".");
        }
        out.push(k);
    }
    out
}
