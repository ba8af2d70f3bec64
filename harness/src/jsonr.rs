//! Renders models as Avro JSON (.avpr and .avsc) in the legal spellings the
//! tape chooses, and JSON values as text with free layout.

use crate::gen_::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::{Map, Value, json};
use std::collections::BTreeSet;

pub struct JsonR<'t, 'm> {
    pub t: &'t mut Tape,
    pub free: bool,
    pub defs: Vec<&'m Def>,
    /// Also write dotted names with a (meaningless) namespace attribute.
    pub dotted_ns: bool,
    /// Whether a definition was left to the messages.
    pub inline_in_messages: bool,
    /// Full names whose definition has been written.
    pub done: BTreeSet<String>,
}

impl<'t, 'm> JsonR<'t, 'm> {
    pub fn new(t: &'t mut Tape, defs: Vec<&'m Def>) -> Self {
        JsonR { t, free: true, dotted_ns: false, inline_in_messages: false, defs, done: BTreeSet::new() }
    }
    fn chance(&mut self, n: u32, d: u32) -> bool {
        self.free && self.t.chance(n, d)
    }
    fn put_props(&mut self, o: &mut Map<String, Value>, p: &Props) {
        for (k, v) in p {
            o.insert(k.clone(), v.clone());
        }
    }

    pub fn schema(&mut self, s: &Sch, ns: Option<&str>) -> Value {
        match s {
            Sch::Prim(p, pr) => {
                if pr.is_empty() && !self.chance(1, 6) {
                    return json!(p);
                }
                let mut o = Map::new();
                o.insert("type".into(), json!(p));
                self.put_props(&mut o, pr);
                if p == "bytes"
                    && crate::render::logical_keyword(p, pr).is_some()
                    && pr.get("scale") == Some(&json!(0))
                    && self.chance(1, 2)
                {
                    o.remove("scale");
                }
                Value::Object(o)
            }
            Sch::Array(i, pr) => {
                let mut o = Map::new();
                o.insert("type".into(), json!("array"));
                o.insert("items".into(), self.schema(i, ns));
                self.put_props(&mut o, pr);
                Value::Object(o)
            }
            Sch::Map(i, pr) => {
                let mut o = Map::new();
                o.insert("type".into(), json!("map"));
                o.insert("values".into(), self.schema(i, ns));
                self.put_props(&mut o, pr);
                Value::Object(o)
            }
            Sch::Union(bs) => Value::Array(bs.iter().map(|b| self.schema(b, ns)).collect()),
            Sch::Named(n) => {
                if !self.done.contains(n)
                    && let Some(d) = self.defs.iter().find(|d| &d.full == n).copied()
                {
                    return self.def(d, ns);
                }
                if ns_of(n) == ns && !(ns.is_some() && self.chance(1, 3)) {
                    json!(simple_of(n))
                } else {
                    json!(n)
                }
            }
        }
    }

    pub fn def(&mut self, d: &Def, enclosing: Option<&str>) -> Value {
        self.done.insert(d.full.clone());
        let mut o = Map::new();
        let ns = ns_of(&d.full);
        let simple = simple_of(&d.full);
        match ns {
            None => {
                o.insert("name".into(), json!(simple));
                if enclosing.is_some() || self.chance(1, 6) {
                    o.insert("namespace".into(), json!(""));
                }
            }
            Some(n) => {
                let same = enclosing == Some(n);
                match if self.free { self.t.weighted(&[40, 30, if same { 40 } else { 0 }, if self.dotted_ns { 6 } else { 0 }]) } else { 0 } {
                    0 => {
                        o.insert("name".into(), json!(simple));
                        o.insert("namespace".into(), json!(n));
                    }
                    1 => {
                        o.insert("name".into(), json!(d.full));
                    }
                    2 => {
                        o.insert("name".into(), json!(simple));
                    }
                    _ => {
                        // a dotted name wins over the namespace attribute
                        o.insert("name".into(), json!(d.full));
                        let other = *self.t.pick(&["zz.other", "org", ""]);
                        o.insert("namespace".into(), json!(other));
                    }
                }
            }
        }
        if let Some(x) = &d.doc {
            o.insert("doc".into(), json!(x));
        }
        if !d.aliases.is_empty() {
            let mut al = vec![];
            for a in &d.aliases {
                if ns_of(a) == ns && !(ns.is_some() && self.chance(1, 3)) {
                    al.push(json!(simple_of(a)));
                } else {
                    al.push(json!(a));
                }
            }
            o.insert("aliases".into(), Value::Array(al));
        }
        self.put_props(&mut o, &d.props);
        match &d.kind {
            Kind::Record { error, fields } => {
                o.insert("type".into(), json!(if *error { "error" } else { "record" }));
                let fs = self.fields(fields, ns);
                o.insert("fields".into(), fs);
            }
            Kind::Enum { symbols, default } => {
                o.insert("type".into(), json!("enum"));
                o.insert("symbols".into(), json!(symbols));
                if let Some(x) = default {
                    o.insert("default".into(), json!(x));
                }
            }
            Kind::Fixed { size } => {
                o.insert("type".into(), json!("fixed"));
                o.insert("size".into(), json!(size));
            }
        }
        Value::Object(o)
    }

    pub fn fields(&mut self, fs: &[Fld], ns: Option<&str>) -> Value {
        let mut out = vec![];
        for f in fs {
            let mut o = Map::new();
            o.insert("name".into(), json!(f.name));
            let ty = self.schema(&f.ty, ns);
            o.insert("type".into(), ty);
            if let Some(d) = &f.default {
                o.insert("default".into(), d.clone());
            }
            if f.order != "ascending" || self.chance(1, 8) {
                let o2 = match self.free && self.t.chance(1, 4) {
                    true if self.t.chance(1, 3) => f.order.to_uppercase(),
                    true if self.t.coin() => {
                        // any mixture of cases
                        let mut s = String::new();
                        for (i, c) in f.order.chars().enumerate() {
                            s.push(if i > 0 && self.t.chance(1, 3) { c.to_ascii_uppercase() } else { c });
                        }
                        s
                    }
                    true => f.order[..1].to_uppercase() + &f.order[1..],
                    false => f.order.to_string(),
                };
                o.insert("order".into(), json!(o2));
            }
            if !f.aliases.is_empty() {
                o.insert("aliases".into(), json!(f.aliases));
            }
            if let Some(x) = &f.doc {
                o.insert("doc".into(), json!(x));
            }
            self.put_props(&mut o, &f.props);
            out.push(Value::Object(o));
        }
        Value::Array(out)
    }

    pub fn message(&mut self, m: &Msg, ns: Option<&str>) -> Value {
        let mut o = Map::new();
        let r = self.fields(&m.request, ns);
        o.insert("request".into(), r);
        let r = self.schema(&m.response, ns);
        o.insert("response".into(), r);
        if let Some(es) = &m.errors {
            let es = es.iter().map(|e| self.schema(e, ns)).collect();
            o.insert("errors".into(), Value::Array(es));
        }
        if m.oneway || self.chance(1, 10) {
            o.insert("one-way".into(), json!(m.oneway));
        }
        if let Some(x) = &m.doc {
            o.insert("doc".into(), json!(x));
        }
        self.put_props(&mut o, &m.props);
        Value::Object(o)
    }

    /// A whole protocol. A definition may first occur inside a message.
    pub fn protocol(&mut self, p: &Proto) -> Value {
        let mut o = Map::new();
        o.insert("protocol".into(), json!(p.name));
        if let Some(n) = &p.ns {
            // names of protocols follow the rules of names of types
            if self.chance(1, 4) {
                o.insert("protocol".into(), json!(format!("{n}.{}", p.name)));
            } else {
                o.insert("namespace".into(), json!(n));
            }
        }
        if let Some(x) = &p.doc {
            o.insert("doc".into(), json!(x));
        }
        self.put_props(&mut o, &p.props);
        let ns = p.ns.as_deref();
        let mut order = self.defs.clone();
        let mut types = vec![];
        if self.chance(1, 3) {
            // definitions that messages use may first occur there
            let mut used = BTreeSet::new();
            let mut note = |s: &Sch| walk_names(s, &mut |n| { used.insert(n.to_string()); });
            for m in p.messages.values() {
                m.request.iter().for_each(|f| note(&f.ty));
                note(&m.response);
                m.errors.iter().flatten().for_each(&mut note);
            }
            let mut kept = vec![];
            for d in order {
                if !used.contains(&d.full) || self.t.coin() {
                    kept.push(d);
                } else {
                    self.inline_in_messages = true;
                }
            }
            order = kept;
        }
        while !order.is_empty() {
            let i = if self.free && self.t.chance(1, 3) { self.t.usize(order.len()) } else { 0 };
            let d = order.remove(i);
            if !self.done.contains(&d.full) {
                types.push(self.def(d, ns));
            }
        }
        o.insert("types".into(), Value::Array(types));
        let mut ms = Map::new();
        for (k, m) in &p.messages {
            ms.insert(k.clone(), self.message(m, ns));
        }
        o.insert("messages".into(), Value::Object(ms));
        Value::Object(o)
    }
}

/// Replaces numbers that the JSON reader of this harness cannot reproduce
/// exactly (it is the same reader the library uses, without exact rounding).
pub fn tame(v: &mut Value) {
    match v {
        Value::Number(n) if n.is_f64() => {
            let back: Result<Value, _> = serde_json::from_str(&n.to_string());
            if back.ok().as_ref() != Some(&Value::Number(n.clone())) {
                *v = json!(2.5);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(tame),
        Value::Object(o) => o.values_mut().for_each(tame),
        _ => {}
    }
}
fn tame_props(p: &mut Props) {
    p.values_mut().for_each(tame);
}
fn tame_sch(s: &mut Sch) {
    match s {
        Sch::Prim(_, p) => tame_props(p),
        Sch::Array(i, p) | Sch::Map(i, p) => {
            tame_sch(i);
            tame_props(p)
        }
        Sch::Union(b) => b.iter_mut().for_each(tame_sch),
        Sch::Named(_) => {}
    }
}
fn tame_flds(fs: &mut [Fld]) {
    for f in fs {
        tame_sch(&mut f.ty);
        tame_props(&mut f.props);
        if let Some(d) = &mut f.default {
            tame(d);
        }
    }
}
pub fn tame_model(m: &mut Model) {
    tame_props(&mut m.proto.props);
    for d in &mut m.defs {
        tame_props(&mut d.props);
        if let Kind::Record { fields, .. } = &mut d.kind {
            tame_flds(fields);
        }
    }
    for x in m.proto.messages.values_mut() {
        tame_props(&mut x.props);
        tame_flds(&mut x.request);
        tame_sch(&mut x.response);
    }
    if let Mode::Schema(s) = &mut m.mode {
        tame_sch(s);
    }
}

/// How JSON text is laid out.
#[derive(Clone, Copy, PartialEq)]
pub enum Lay {
    Plain,
    /// Free whitespace and member order.
    Free,
    /// Comments as well.
    Comments,
}

pub struct JText<'t> {
    pub t: &'t mut Tape,
    pub lay: Lay,
    /// Whether escapes and number spellings vary.
    pub spell: bool,
    pub out: String,
    pub n_comments: usize,
}
impl JText<'_> {
    fn gap(&mut self) {
        if self.lay == Lay::Plain {
            return;
        }
        let mut n = 0;
        loop {
            let w = self.t.weighted(&[70, 10, 8, 4, 4, if self.lay == Lay::Comments { 14 } else { 0 }]);
            match w {
                0 => return,
                1 => self.out.push(' '),
                2 => self.out.push('\n'),
                3 => self.out.push_str("\r\n"),
                4 => self.out.push('\t'),
                _ => {
                    self.n_comments += 1;
                    let mut b = String::new();
                    if self.t.chance(1, 50) {
                        // longer than any buffer
                        let s = *self.t.pick(&["long \" ", "* / ", "é//", "/*\\"]);
                        b = s.repeat(3000);
                    }
                    let mut k = 0;
                    while self.t.more(k, 6, 2, 3) {
                        b.push_str(*self.t.pick(&["a", " ", "\"", "}", "{", ",", "*", "/", "//", "'", "\\", "é", "😀", "\"name\": 1", "\\\"", "\n", "\n//", "\r\n * ", "\n\""]));
                        k += 1;
                    }
                    match self.t.below(3) {
                        0 => self.out.push_str(&format!("/*{}*/", b.replace("*/", "* /").trim_end_matches('*').replace("*/", "* /"))),
                        1 => self.out.push_str(&format!("//{}\n", b.replace(['\r', '\n'], " "))),
                        _ => self.out.push_str("/**/"),
                    }
                }
            }
            n += 1;
            if n > 3 {
                return;
            }
        }
    }
    fn str(&mut self, s: &str) {
        if !self.spell {
            self.out.push_str(&Value::String(s.into()).to_string());
            return;
        }
        self.out.push('"');
        for c in s.chars() {
            let named = match c {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                _ => None,
            };
            let must = c == '"' || c == '\\' || (c as u32) < 0x20;
            let m = if must { 1 + self.t.weighted(&[80, 20]) } else { self.t.weighted(&[90, 6, 4]) };
            match m {
                1 if named.is_some() => self.out.push_str(named.unwrap()),
                0 => self.out.push(c),
                _ => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        let x = if self.t.coin() { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
                        self.out.push_str(&x);
                    }
                }
            }
        }
        self.out.push('"');
    }
    pub fn document(&mut self, v: &Value) {
        self.gap();
        self.val(v);
        self.gap();
        if self.lay != Lay::Plain {
            self.out.push('\n');
        }
    }
    pub fn val(&mut self, v: &Value) {
        match v {
            Value::String(s) => self.str(s),
            Value::Array(a) => {
                self.out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.gap();
                    self.val(x);
                    self.gap();
                }
                if a.is_empty() {
                    self.gap();
                }
                self.out.push(']');
            }
            Value::Object(o) => {
                self.out.push('{');
                let mut ks: Vec<(&String, &Value)> = o.iter().collect();
                let mut i = 0;
                while !ks.is_empty() {
                    let j = if self.lay == Lay::Plain { 0 } else { self.t.usize(ks.len()) };
                    let (k, x) = ks.remove(j);
                    if i > 0 {
                        self.out.push(',');
                    }
                    i += 1;
                    self.gap();
                    self.str(k);
                    self.gap();
                    self.out.push(':');
                    self.gap();
                    self.val(x);
                    self.gap();
                }
                if o.is_empty() {
                    self.gap();
                }
                self.out.push('}');
            }
            Value::Number(n) if self.spell && n.is_f64() => {
                let f = n.as_f64().unwrap();
                let s = match self.t.below(3) {
                    0 => n.to_string(),
                    1 => {
                        let x = format!("{f:e}");
                        let back: Result<Value, _> = serde_json::from_str(&x);
                        if back.ok().as_ref() == Some(v) { x } else { n.to_string() }
                    }
                    _ => {
                        let x = n.to_string();
                        if x.contains('.') && !x.contains(['e', 'E']) { format!("{x}0E+0") } else { x }
                    }
                };
                let back: Result<Value, _> = serde_json::from_str(&s);
                if back.ok().as_ref() == Some(v) {
                    self.out.push_str(&s)
                } else {
                    self.out.push_str(&n.to_string())
                }
            }
            other => self.out.push_str(&other.to_string()),
        }
    }
}
/// Text of `v`.
pub fn text(t: &mut Tape, v: &Value, lay: Lay, spell: bool) -> String {
    let mut w = JText { t, lay, spell, out: String::new(), n_comments: 0 };
    w.document(v);
    w.out
}

/// Random damage to a JSON document: still JSON, maybe no longer valid Avro.
pub fn mutate(t: &mut Tape, v: &mut Value) {
    // choose a node by walking down
    let stop = t.chance(1, 4);
    match v {
        Value::Object(o) if !o.is_empty() && !stop => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = t.pick(&keys).clone();
            match t.weighted(&[70, 6, 6, 6, 6]) {
                0 => mutate(t, o.get_mut(&k).unwrap()),
                1 => {
                    o.remove(&k);
                }
                2 => {
                    let x = o.remove(&k).unwrap();
                    let nk = (*t.pick(&["name", "type", "items", "values", "default", "fields", "namespace", "logicalType"])).to_string();
                    o.insert(nk, x);
                }
                3 => {
                    let nk = (*t.pick(&["namespace", "default", "doc", "order", "aliases", "logicalType", "one-way", "errors", "size", "symbols"])).to_string();
                    let x = fragment(t);
                    o.insert(nk, x);
                }
                _ => {
                    let x = fragment(t);
                    o.insert(k, x);
                }
            }
        }
        Value::Array(a) if !a.is_empty() && !stop => {
            let i = t.usize(a.len());
            match t.weighted(&[70, 10, 12, 8]) {
                0 => mutate(t, &mut a[i]),
                1 => {
                    a.remove(i);
                }
                2 => {
                    let x = a[i].clone();
                    let j = t.usize(a.len() + 1);
                    a.insert(j, x);
                }
                _ => {
                    let x = fragment(t);
                    a.insert(i, x);
                }
            }
        }
        Value::String(s) if !stop => match t.below(5) {
            0 => s.push('2'),
            1 => *s = format!("org.b.{s}"),
            2 => s.push_str(*t.pick(&["-x", " ", ".", ".y", "é", "$"])),
            3 => *s = simple_of(s).to_string(),
            _ => *v = fragment(t),
        },
        _ => *v = fragment(t),
    }
}
fn fragment(t: &mut Tape) -> Value {
    match t.below(16) {
        0 => json!("int"),
        1 => json!("null"),
        2 => json!(null),
        3 => json!(["null", "int"]),
        4 => json!([["null", "int"], "string"]),
        5 => json!(["int", "int"]),
        6 => json!([]),
        7 => json!({}),
        8 => json!({"type": "array", "items": "int"}),
        9 => json!({"type": "enum", "name": "Q", "symbols": ["A", "B"], "default": "C"}),
        10 => json!({"type": "enum", "name": "Q2", "symbols": ["A", "A"]}),
        11 => json!({"type": "record", "name": "A", "fields": []}),
        12 => json!({"type": "fixed", "name": "F", "size": -1}),
        13 => json!(true),
        14 => json!(-7),
        _ => json!({"type": {"type": "int"}}),
    }
}

pub fn walk_names(s: &Sch, f: &mut dyn FnMut(&str)) {
    match s {
        Sch::Array(i, _) | Sch::Map(i, _) => walk_names(i, f),
        Sch::Union(b) => b.iter().for_each(|x| walk_names(x, f)),
        Sch::Named(n) => f(n),
        _ => {}
    }
}
