//! Generators: models of Avro IDL files (as meanings, see spec.rs) decoded
//! from a choice tape.

use crate::spec::*;
use crate::tape::Tape;
use serde_json::{Map, Number, Value};
use std::collections::BTreeSet;

#[derive(Clone, PartialEq, Debug)]
pub enum Mode {
    Protocol,
    Schema(Sch),
    Bare,
}

/// The meaning of one self-contained IDL file.
#[derive(Clone, PartialEq, Debug)]
pub struct Model {
    pub mode: Mode,
    /// Protocol data; `proto.ns` is the file's namespace in every mode.
    pub proto: Proto,
    /// Named types in declaration order.
    pub defs: Vec<Def>,
}
impl Model {
    pub fn ns(&self) -> Option<&str> {
        self.proto.ns.as_deref()
    }
    pub fn get(&self, full: &str) -> Option<&Def> {
        self.defs.iter().find(|d| d.full == full)
    }
}

#[derive(Clone)]
pub struct Opts {
    pub max_types: usize,
    pub docs: bool,
    pub props: bool,
    pub defaults: bool,
    pub messages: bool,
    /// Declared types may live in the empty namespace although the file has one.
    pub null_ns_types: bool,
    pub odd_names: bool,
    pub many_ns: bool,
    /// Names already taken, and types available from elsewhere (imports).
    pub extern_defs: Vec<Def>,
    /// File namespace, if fixed.
    pub force_ns: Option<Option<String>>,
    pub mode: Option<u8>,
    /// Prefix for simple names, so that several files do not collide.
    pub prefix: String,
    pub msg_prefix: String,
    /// Pools of simple names and of namespaces.
    pub simple: &'static [&'static str],
    pub nss: &'static [&'static str],
    /// Weight of references among the types.
    pub ref_weight: u32,
}
impl Default for Opts {
    fn default() -> Self {
        Opts {
            max_types: 7,
            docs: true,
            props: true,
            defaults: true,
            messages: true,
            null_ns_types: true,
            odd_names: true,
            many_ns: true,
            extern_defs: vec![],
            force_ns: None,
            mode: Some(0),
            prefix: String::new(),
            msg_prefix: String::new(),
            simple: SIMPLE,
            nss: NAMESPACES,
            ref_weight: 30,
        }
    }
}

pub const NAMESPACES: &[&str] = &["org.a", "x", "org.a.sub", "org.b", "org", "a.record.array", "Org.a"];
const SIMPLE: &[&str] = &["A", "B", "C", "D", "Node", "rec_1", "_u", "Z9", "é", "Имя", "名前"];
const KEYWORD_NAMES: &[&str] = &[
    "record", "enum", "array", "map", "union", "fixed", "error", "protocol", "namespace", "import", "idl", "schema",
    "void", "oneway", "throws", "true", "false", "decimal",
];
/// Names a field, parameter, symbol or message may have although they are
/// keywords of the language.
pub const FIELD_KEYWORDS: &[&str] = &[
    "record", "enum", "array", "map", "union", "fixed", "error", "protocol", "namespace", "import", "idl", "schema",
    "void", "oneway", "throws", "true", "false", "decimal", "int", "long", "float", "double", "string", "bytes",
    "boolean", "null", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid", "type", "name", "doc",
];

pub fn ident(t: &mut Tape, odd: bool) -> String {
    match t.weighted(&[600, 200, 60, if odd { 100 } else { 0 }, if odd { 40 } else { 0 }, 1]) {
        5 => (*t.pick(&["long", "é", "_9"])).repeat(20 + t.usize(300)),
        0 => (*t.pick(&["a", "b", "c", "d", "e", "f", "g", "h"])).to_string(),
        1 => {
            let mut s = (*t.pick(&["foo", "bar", "camelCase", "snake_case", "X", "_x", "__"])).to_string();
            if t.coin() {
                s.push_str(&t.below(1000).to_string());
            }
            s
        }
        2 => {
            let mut s = String::new();
            loop {
                s.push(*t.pick(&['q', 'Q', '_', 'z', 'L', 'e', 'f', 'x']));
                if !t.more(s.len(), 30, 9, 10) {
                    break;
                }
            }
            s
        }
        3 => (*t.pick(FIELD_KEYWORDS)).to_string(),
        _ => (*t.pick(&["é", "ñandú", "имя", "名前", "µ", "ÀÉ", "ß1", "ｆｕｌｌ"])).to_string(),
    }
}

/// A name almost like the given one.
pub fn near_twin(t: &mut Tape, name: &str) -> String {
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let mut cs: Vec<char> = name.chars().collect();
    let i = t.usize(cs.len());
    match t.below(5) {
        0 => cs[i] = flip(cs[i]),
        1 => cs.iter_mut().for_each(|c| *c = flip(*c)),
        2 => cs.push('_'),
        3 => cs.insert(0, '_'),
        _ => cs.push(cs[i]),
    }
    let s: String = cs.into_iter().collect();
    // some names are reserved or would begin with a digit
    if KEYWORD_NAMES.contains(&s.as_str()) || crate::spec::PRIMS.contains(&s.as_str()) { format!("{s}_") } else { s }
}

/// An identifier not in `taken`.
pub fn fresh_ident(t: &mut Tape, odd: bool, taken: &mut BTreeSet<String>) -> String {
    let near = if !taken.is_empty() && t.chance(1, 16) { taken.iter().nth(t.usize(taken.len())).cloned() } else { None };
    let base = match near {
        Some(n) => near_twin(t, &n),
        None => ident(t, odd),
    };
    let mut s = base.clone();
    let mut n = 2;
    while taken.contains(&s) {
        s = format!("{base}{n}");
        n += 1;
    }
    taken.insert(s.clone());
    s
}

pub const CHARS: &[char] = &[
    'a', 'b', ' ', 'Z', '0', '"', '\'', '\\', '/', '*', '\n', '\t', '\r', '{', '}', ';', '@', '`', 'é', '\u{0}', '\u{7f}', '\u{80}',
    '\u{ff}', '\u{100}', '\u{2028}', '日', '\u{fffd}', '\u{ffff}', '😀', '\u{10ffff}', '\u{8}', '\u{c}', '#', '%', '$', '-', '.',
];

/// A length beyond the usual: around powers of two, or anything up to 20 000.
pub fn big(t: &mut Tape) -> usize {
    match t.below(3) {
        0 => 60 + t.usize(300),
        1 => ((1usize << (6 + t.below(9))) as i64 + t.range(-3, 3)) as usize,
        _ => 300 + t.usize(20_000),
    }
}

pub fn string(t: &mut Tape) -> String {
    match t.weighted(&[400, 300, 300, 3]) {
        3 => {
            let p = *t.pick(&["a", "é", "日本", "x\"", "😀", "\\\\n", "ab ", "*/", "\n"]);
            let n = big(t);
            let mut s = p.repeat(n / p.len() + 1);
            let k = t.usize(4);
            s.insert_str(0, &"bcd"[..k.min(3)]);
            s
        }
        0 => (*t.pick(&["", "x", "hello", "a b", "null", "0", "true", "NaN", "org.a.A", "A"])).to_string(),
        1 => {
            let mut s = String::new();
            while t.more(s.len(), 12, 5, 6) {
                s.push(*t.pick(&['a', 'b', 'c', 'X', '1', ' ', '_', '-', '.', ':']));
            }
            s
        }
        _ => {
            let mut s = String::new();
            let mut n = 0;
            while t.more(n, 16, 6, 7) {
                s.push(*t.pick(CHARS));
                n += 1;
            }
            s
        }
    }
}

pub fn int_value(t: &mut Tape, bits: u32) -> i64 {
    let (lo, hi) = if bits == 32 { (i32::MIN as i64, i32::MAX as i64) } else { (i64::MIN, i64::MAX) };
    match t.weighted(&[40, 20, 15, 15, 10]) {
        0 => t.range(-3, 20),
        1 => {
            let e = t.below(bits) as u32;
            let v = (1i64.wrapping_shl(e)).wrapping_add(t.range(-2, 2));
            let v = if t.coin() { v.wrapping_neg() } else { v };
            v.clamp(lo, hi)
        }
        2 => *t.pick(&[lo, hi, lo + 1, hi - 1, 0, -1, i32::MAX as i64, i32::MIN as i64]),
        3 => (t.u64() as i64 >> (64 - bits)).clamp(lo, hi),
        _ => t.range(-100_000, 100_000),
    }
}

pub fn float_value(t: &mut Tape) -> f64 {
    match t.weighted(&[40, 20, 20, 20]) {
        0 => t.range(-40, 40) as f64 / 4.0,
        1 => *t.pick(&[0.0, -0.0, 1e300, -1e-300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e21, 1e16, 123456789.125, 1e-7]),
        2 => {
            let v = f64::from_bits(t.u64());
            if v.is_finite() { v } else { 1.5 }
        }
        _ => t.range(-1_000_000, 1_000_000) as f64 / 1000.0,
    }
}

pub fn number_f(f: f64) -> Value {
    Number::from_f64(f).map(Value::Number).unwrap_or(Value::Null)
}

pub fn json(t: &mut Tape, depth: usize) -> Value {
    let w: &[u32] = if depth == 0 { &[20, 10, 20, 10, 8, 0, 0] } else { &[20, 10, 20, 10, 8, 12, 12] };
    match t.weighted(w) {
        0 => Value::String(string(t)),
        1 => Value::Bool(t.coin()),
        2 => Value::Number(int_value(t, 64).into()),
        3 => number_f(float_value(t)),
        4 => Value::Null,
        5 => {
            let mut a = vec![];
            while t.more(a.len(), 4, 2, 3) {
                a.push(json(t, depth - 1));
            }
            Value::Array(a)
        }
        _ => {
            let mut m = Map::new();
            while t.more(m.len(), 4, 2, 3) {
                let k = string(t);
                m.insert(k, json(t, depth - 1));
            }
            Value::Object(m)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Protocol,
    Record,
    Enum,
    Fixed,
    Field,
    Message,
    Type,
}
pub const PLACES: &[Place] =
    &[Place::Protocol, Place::Record, Place::Enum, Place::Fixed, Place::Field, Place::Message, Place::Type];

pub fn reserved(p: Place) -> &'static [&'static str] {
    match p {
        Place::Protocol => &["namespace", "protocol", "doc", "messages", "types", "errors"],
        Place::Record | Place::Fixed | Place::Type => {
            &["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases"]
        }
        Place::Enum => {
            &["doc", "fields", "items", "name", "namespace", "size", "symbols", "values", "type", "aliases", "default"]
        }
        Place::Field => &["default", "doc", "name", "order", "type", "aliases"],
        Place::Message => &["doc", "response", "request", "errors", "one-way"],
    }
}

pub const PROP_NAMES: &[&str] = &[
    "foo", "bar", "java-class", "my.prop", "x-y.z", "version", "since", "order", "aliases", "namespace", "default",
    "items", "values", "size", "symbols", "fields", "type", "name", "doc", "errors", "messages", "types", "protocol",
    "request", "response", "one-way", "specialName", "error", "record", "int", "null", "true", "é", "_p", "P0", "throws",
    "one-way.x", "element-type",
];

pub fn prop_name(t: &mut Tape, p: Place) -> String {
    let s = (*t.pick(PROP_NAMES)).to_string();
    // logicalType, precision and scale are generated only where their meaning is stated.
    if reserved(p).contains(&s.as_str()) { format!("{s}_") } else { s }
}

/// Custom annotations for a construct; excludes names with a special meaning there.
pub fn props(t: &mut Tape, p: Place, o: &Opts) -> Props {
    let mut out = Props::new();
    if !o.props {
        return out;
    }
    while t.more(out.len(), 3, 1, 5) {
        let k = prop_name(t, p);
        out.insert(k, json(t, 2));
    }
    out
}

const DOC_WORDS: &[&str] =
    &["Doc", "text", "the", "a", "\"quoted\"", "it's", "<b>", "{@link}", "// no", "/* x", "é", "日本", "😀", "\\n", "%s", "a*b", "end."];

/// Plain doc text: survives any of the usual comment styles unchanged.
pub fn doc(t: &mut Tape, o: &Opts) -> Option<String> {
    if !o.docs || !t.chance(1, 4) {
        return None;
    }
    Some(doc_text(t))
}
pub fn doc_text(t: &mut Tape) -> String {
    let mut lines: Vec<String> = vec![];
    if t.chance(1, 300) {
        let n = big(t) / 4;
        lines = vec!["a long text é".to_string(); n];
    }
    loop {
        let mut l = (*t.pick(DOC_WORDS)).to_string();
        while t.chance(1, 2) && l.len() < 60 {
            l.push(' ');
            l.push_str(*t.pick(DOC_WORDS));
        }
        lines.push(l);
        if !t.more(lines.len(), 4, 1, 3) {
            break;
        }
        if t.chance(1, 5) {
            lines.push(String::new());
        }
    }
    while lines.last().is_some_and(|l| l.is_empty()) {
        lines.pop();
    }
    lines.join("\n")
}

pub const UNKNOWN_LOGICAL: &[&str] = &["my-type", "Date", "decimal2", "", "UUID", "time-nanos", "date ", "Decimal", "local-timestamp-nanos", "timestamp", "time_ms"];

/// A primitive with optional logical type and custom properties.
pub fn prim(t: &mut Tape, o: &Opts) -> Sch {
    let p = *t.pick(&["int", "string", "long", "boolean", "bytes", "float", "double", "null"]);
    prim_of(t, p, o)
}
pub fn prim_of(t: &mut Tape, p: &str, o: &Opts) -> Sch {
    let mut pr = if t.chance(1, 4) { props(t, Place::Type, o) } else { Props::new() };
    if o.props && t.chance(1, 4) {
        let s = |x: &str| Value::String(x.to_string());
        match p {
            "int" => {
                pr.insert("logicalType".into(), s(*t.pick(&["date", "time-millis"])));
            }
            "long" => {
                pr.insert(
                    "logicalType".into(),
                    s(*t.pick(&["timestamp-millis", "local-timestamp-millis", "time-micros", "timestamp-micros", "local-timestamp-micros"])),
                );
            }
            "string" => {
                pr.insert("logicalType".into(), s("uuid"));
            }
            "bytes" => {
                let precision = t.range(1, 40);
                let scale = t.range(0, precision.min(12));
                pr.insert("logicalType".into(), s("decimal"));
                pr.insert("precision".into(), precision.into());
                pr.insert("scale".into(), scale.into());
            }
            _ => {}
        }
    }
    Sch::Prim(p.to_string(), pr)
}

/// Whether full name `f` can be spelled in a scope whose namespace is `scope`.
pub fn spellable(f: &str, scope: Option<&str>) -> bool {
    ns_of(f).is_some() || scope.is_none()
}

pub struct Scope<'a> {
    pub ns: Option<&'a str>,
    pub names: &'a [String],
}
impl Scope<'_> {
    fn refs(&self) -> Vec<&String> {
        self.names.iter().filter(|n| spellable(n, self.ns)).collect()
    }
}

fn key(s: &Sch) -> String {
    match s {
        Sch::Prim(p, _) => p.clone(),
        Sch::Array(..) => "array".into(),
        Sch::Map(..) => "map".into(),
        Sch::Union(_) => "union".into(),
        // the implementation (like Java) does not tell a type named `map` in
        // no namespace from a map inside one union: not generated
        Sch::Named(n) if n == "map" || n == "array" => n.clone(),
        Sch::Named(n) => format!("named:{n}"),
    }
}

pub fn sch(t: &mut Tape, depth: usize, sc: &Scope, o: &Opts) -> Sch {
    let refs = sc.refs();
    let named_w = if refs.is_empty() { 0 } else { o.ref_weight };
    let deep = if depth == 0 { 0 } else { 1 };
    match t.weighted(&[40, named_w, 12 * deep, 10 * deep, 10 * deep, 12]) {
        0 => prim(t, o),
        1 => Sch::Named((*t.pick(&refs)).clone()),
        2 => {
            let p = if t.chance(1, 5) { props(t, Place::Type, o) } else { Props::new() };
            Sch::Array(Box::new(sch(t, depth - 1, sc, o)), p)
        }
        3 => {
            let p = if t.chance(1, 5) { props(t, Place::Type, o) } else { Props::new() };
            Sch::Map(Box::new(sch(t, depth - 1, sc, o)), p)
        }
        4 => {
            let mut bs: Vec<Sch> = vec![];
            let mut seen = BTreeSet::new();
            loop {
                let b = loop_non_union(t, depth - 1, sc, o);
                if seen.insert(key(&b)) {
                    bs.push(b);
                }
                let many = refs.len() > 10;
                if !t.more(bs.len(), if many { 30 } else { 6 }, if many { 14 } else { 2 }, if many { 15 } else { 3 }) {
                    break;
                }
            }
            Sch::Union(bs)
        }
        _ => {
            let null = Sch::Prim("null".into(), Props::new());
            let inner = if named_w > 0 && t.coin() {
                Sch::Named((*t.pick(&refs)).clone())
            } else {
                let p = *t.pick(&["int", "string", "long", "boolean", "bytes", "float", "double"]);
                prim_of(t, p, o)
            };
            if t.chance(1, 4) { Sch::Union(vec![inner, null]) } else { Sch::Union(vec![null, inner]) }
        }
    }
}
pub fn loop_non_union(t: &mut Tape, depth: usize, sc: &Scope, o: &Opts) -> Sch {
    match sch(t, depth, sc, o) {
        Sch::Union(mut v) => v.pop().unwrap(),
        s => s,
    }
}

/// A valid default for `ty`, or None if none was found quickly.
pub fn default_for(t: &mut Tape, ty: &Sch, defs: &[Def], ext: &[Def], depth: usize) -> Option<Value> {
    Some(match ty {
        Sch::Prim(p, _) => match p.as_str() {
            "null" => Value::Null,
            "boolean" => Value::Bool(t.coin()),
            "int" => int_value(t, 32).into(),
            "long" => int_value(t, 64).into(),
            "float" | "double" => match t.weighted(&[70, 20, 10]) {
                0 => number_f(float_value(t)),
                1 => int_value(t, 32).into(),
                _ => Value::String((*t.pick(&["NaN", "Infinity", "-Infinity"])).to_string()),
            },
            _ => Value::String(string(t)),
        },
        Sch::Array(it, _) => {
            let mut a = vec![];
            while depth > 0 && t.more(a.len(), 3, 1, 2) {
                a.push(default_for(t, it, defs, ext, depth - 1)?);
            }
            Value::Array(a)
        }
        Sch::Map(it, _) => {
            let mut m = Map::new();
            while depth > 0 && t.more(m.len(), 3, 1, 2) {
                let k = string(t);
                m.insert(k, default_for(t, it, defs, ext, depth - 1)?);
            }
            Value::Object(m)
        }
        Sch::Union(bs) => {
            let i = if t.chance(1, 4) { t.usize(bs.len()) } else { 0 };
            default_for(t, &bs[i], defs, ext, depth)?
        }
        Sch::Named(n) => {
            let d = defs.iter().chain(ext).find(|d| &d.full == n)?;
            match &d.kind {
                Kind::Enum { symbols, .. } => Value::String(symbols.first()?.clone()),
                Kind::Fixed { .. } => Value::String(string(t)),
                Kind::Record { fields, .. } => {
                    if depth == 0 && !fields.is_empty() {
                        return None;
                    }
                    let mut m = Map::new();
                    for f in fields {
                        if f.default.is_some() && !t.chance(1, 3) {
                            continue;
                        }
                        m.insert(f.name.clone(), default_for(t, &f.ty, defs, ext, depth - 1)?);
                    }
                    Value::Object(m)
                }
            }
        }
    })
}

pub fn fld(t: &mut Tape, name: String, sc: &Scope, o: &Opts) -> Fld {
    let ty = sch(t, 3, sc, o);
    let order = if t.chance(1, 8) { (*t.pick(&["descending", "ignore"])).to_string() } else { "ascending".into() };
    let mut aliases = vec![];
    if o.props {
        while t.more(aliases.len(), 3, 1, 10) {
            let a = ident(t, true);
            if !aliases.contains(&a) {
                aliases.push(a);
            }
        }
    }
    let doc = doc(t, o);
    let props = props(t, Place::Field, o);
    Fld { name, ty, default: None, order, aliases, doc, props }
}

pub fn namespace(t: &mut Tape) -> Option<String> {
    if t.chance(1, 5) { None } else { Some((*t.pick(NAMESPACES)).to_string()) }
}

/// A complete valid model.
pub fn model(t: &mut Tape, o: &Opts) -> Model {
    let mode = match o.mode {
        Some(m) => m,
        None => t.weighted(&[50, 30, 20]) as u8,
    };
    let ns = match &o.force_ns {
        Some(n) => n.clone(),
        None => {
            if t.chance(1, 5) { None } else { Some((*t.pick(o.nss)).to_string()) }
        }
    };
    // Names and kinds first, so that bodies can refer in any direction.
    let mut taken: BTreeSet<String> = o.extern_defs.iter().map(|d| d.full.clone()).collect();
    let mut heads: Vec<(String, usize)> = vec![];
    // now and then a crowd of types, and long lists of their names
    let crowd = if o.max_types >= 4 && t.chance(1, 250) { 12 + t.usize(30) } else { 0 };
    while if crowd > 0 { heads.len() < crowd } else { t.more(heads.len(), o.max_types, 5, 6) } {
        let mut kind = t.weighted(if crowd > 0 { &[15, 20, 25, 40] } else { &[60, 20, 12, 8] });
        let twin = if o.many_ns && o.prefix.is_empty() && !heads.is_empty() && t.chance(1, 8) {
            Some(t.pick(&heads).clone())
        } else {
            None
        };
        let base = if let Some((full, k)) = &twin {
            // the simple name and kind of another type
            kind = *k;
            simple_of(full).to_string()
        } else if o.prefix.is_empty() && !heads.is_empty() && t.chance(1, 16) {
            let like = t.pick(&heads).0.clone();
            near_twin(t, simple_of(&like))
        } else if o.prefix.is_empty() {
            match t.weighted(&[70, if o.odd_names { 12 } else { 0 }]) {
                0 => (*t.pick(if o.odd_names || o.simple.len() < 5 { o.simple } else { &o.simple[..5] })).to_string(),
                _ => (*t.pick(KEYWORD_NAMES)).to_string(),
            }
        } else {
            format!("{}{}", o.prefix, heads.len())
        };
        let tns: Option<String> = if o.many_ns && t.chance(1, if o.nss.len() < 6 { 2 } else { 3 }) {
            if o.null_ns_types && t.chance(1, 4) { None } else { Some((*t.pick(o.nss)).to_string()) }
        } else {
            ns.clone()
        };
        let mut full = join(tns.as_deref(), &base);
        let mut n = 2;
        while taken.contains(&full) {
            full = join(tns.as_deref(), &format!("{base}{n}"));
            n += 1;
        }
        taken.insert(full.clone());
        heads.push((full, kind));
    }
    let mut names: Vec<String> = o.extern_defs.iter().map(|d| d.full.clone()).collect();
    names.extend(heads.iter().map(|h| h.0.clone()));
    let mut defs: Vec<Def> = vec![];
    for (full, kind) in &heads {
        let own_ns = ns_of(full).map(|s| s.to_string());
        let doc_ = doc(t, o);
        // same simple name as an earlier type: often the same body, too
        let like = defs.iter().find(|d| simple_of(&d.full) == simple_of(full) && own_ns.is_some() == ns_of(&d.full).is_some());
        let like = if like.is_some() && t.coin() { like.map(|d| d.kind.clone()) } else { None };
        let (kind, place) = match kind {
            _ if like.is_some() => {
                let k = like.unwrap();
                let p = match &k {
                    Kind::Enum { .. } => Place::Enum,
                    Kind::Fixed { .. } => Place::Fixed,
                    Kind::Record { .. } => Place::Record,
                };
                (k, p)
            }
            1 => {
                let mut symbols = vec![];
                let mut tk = BTreeSet::new();
                if t.chance(1, 200) {
                    // many
                    for i in 0..30 + t.usize(500) {
                        symbols.push(format!("S{i}"));
                        tk.insert(format!("S{i}"));
                    }
                }
                loop {
                    symbols.push(fresh_ident(t, o.odd_names, &mut tk));
                    if !t.more(symbols.len(), 6, 3, 4) {
                        break;
                    }
                }
                let default = if t.chance(1, 3) { Some(t.pick(&symbols).clone()) } else { None };
                (Kind::Enum { symbols, default }, Place::Enum)
            }
            2 => (Kind::Fixed { size: [0u64, 1, 2, 12, 16, 255, 65536, 2147483647][t.usize(8)] }, Place::Fixed),
            k => {
                let sc = Scope { ns: own_ns.as_deref(), names: &names };
                let mut fields = vec![];
                let mut tk = BTreeSet::new();
                if t.chance(1, 300) {
                    // many
                    for i in 0..30 + t.usize(200) {
                        let ty = Sch::Prim((*t.pick(&["int", "string", "bytes"])).into(), Props::new());
                        tk.insert(format!("many{i}"));
                        fields.push(Fld {
                            name: format!("many{i}"),
                            ty,
                            default: None,
                            order: "ascending".into(),
                            aliases: vec![],
                            doc: None,
                            props: Props::new(),
                        });
                    }
                }
                let stop = if fields.is_empty() { 6 } else { fields.len() + 3 };
                while t.more(fields.len(), stop, 4, 5) {
                    let n = fresh_ident(t, o.odd_names, &mut tk);
                    if !fields.is_empty() && t.chance(1, 6) {
                        // same type as the previous one: exercises several variables per declaration
                        let prev: &Fld = fields.last().unwrap();
                        let ty = prev.ty.clone();
                        let mut f = fld(t, n, &sc, &Opts { props: o.props, ..o.clone() });
                        f.ty = ty;
                        fields.push(f);
                    } else {
                        fields.push(fld(t, n, &sc, o));
                    }
                }
                (Kind::Record { error: *k == 3, fields }, Place::Record)
            }
        };
        let mut aliases = vec![];
        if o.props {
            while t.more(aliases.len(), 3, 1, 8) {
                let nm = if t.chance(1, 4) { (*t.pick(KEYWORD_NAMES)).to_string() } else { ident(t, o.odd_names) };
                let nm = if is_prim(&nm) { format!("{nm}_") } else { nm };
                let ans = if t.coin() { Some((*t.pick(o.nss)).to_string()) } else { own_ns.clone() };
                let a = join(ans.as_deref(), &nm);
                if !aliases.contains(&a) {
                    aliases.push(a);
                }
            }
        }
        let mut pr = props(t, place, o);
        if o.props && t.chance(1, 10) && place != Place::Enum {
            if let Kind::Fixed { size } = &kind {
                if *size == 12 && t.coin() {
                    pr.insert("logicalType".into(), "duration".into());
                } else if *size >= 2 && *size < 100 {
                    pr.insert("logicalType".into(), "decimal".into());
                    pr.insert("precision".into(), 2.into());
                    pr.insert("scale".into(), 1.into());
                }
            } else {
                pr.insert("logicalType".into(), (*t.pick(UNKNOWN_LOGICAL)).into());
            }
        }
        defs.push(Def { full: full.clone(), kind, doc: doc_, aliases, props: pr });
    }
    // Messages.
    let mut proto = Proto { name: String::new(), ns: ns.clone(), ..Proto::default() };
    let sc = Scope { ns: ns.as_deref(), names: &names };
    if mode == 0 {
        proto.name = match t.weighted(&[60, 30, 10]) {
            0 => "P".to_string(),
            1 => (*t.pick(&["Proto", "A", "_p", "Сервис", "P1"])).to_string(),
            _ => (*t.pick(KEYWORD_NAMES)).to_string(),
        };
        proto.doc = doc(t, o);
        proto.props = props(t, Place::Protocol, o);
        let mut tk = BTreeSet::new();
        let errs: Vec<String> = defs
            .iter()
            .chain(o.extern_defs.iter())
            .filter(|d| matches!(d.kind, Kind::Record { error: true, .. }) && spellable(&d.full, ns.as_deref()))
            .map(|d| d.full.clone())
            .collect();
        let max = if crowd > 0 { 40 } else { 5 };
        while o.messages && t.more(proto.messages.len(), max, if crowd > 0 { 12 } else { 2 }, if crowd > 0 { 13 } else { 3 }) {
            let mut name = fresh_ident(t, o.odd_names, &mut tk);
            if !o.msg_prefix.is_empty() {
                name = format!("{}{}", o.msg_prefix, name);
            }
            let mut request = vec![];
            let mut ptk = BTreeSet::new();
            if crowd > 0 && t.chance(1, 4) {
                for i in 0..8 + t.usize(40) {
                    ptk.insert(format!("many{i}"));
                    let ty = prim(t, o);
                    request.push(Fld { name: format!("many{i}"), ty, default: None, order: "ascending".into(), aliases: vec![], doc: None, props: Props::new() });
                }
            }
            let max = request.len() + 4;
            while t.more(request.len(), max, 1, 2) {
                let n = fresh_ident(t, o.odd_names, &mut ptk);
                request.push(fld(t, n, &sc, o));
            }
            let null = Sch::Prim("null".into(), Props::new());
            let (mut response, mut errors, mut oneway) = (null.clone(), None, false);
            match t.weighted(&[30, 50, 20]) {
                0 => {}
                1 => {
                    response = sch(t, 2, &sc, o);
                    // a result type carries no annotations of its own
                    strip_props(&mut response);
                }
                _ => oneway = true,
            }
            if !oneway && !errs.is_empty() && t.coin() {
                let mut e: Vec<Sch> = vec![];
                loop {
                    let n = Sch::Named(t.pick(&errs).clone());
                    if !e.contains(&n) {
                        e.push(n);
                    }
                    let many = crowd > 0 && errs.len() > e.len();
                    if !t.more(e.len(), if many { 40 } else { 3 }, if many { 11 } else { 1 }, if many { 12 } else { 2 }) {
                        break;
                    }
                }
                errors = Some(e);
            }
            let doc_ = doc(t, o);
            let mut pr = props(t, Place::Message, o);
            // The language forbids annotating a message whose result is a bare type reference.
            let bare_ref = match &response {
                Sch::Named(_) => true,
                Sch::Union(b) => b.iter().any(|s| matches!(s, Sch::Named(_))),
                _ => false,
            };
            if bare_ref {
                pr.clear();
            }
            proto.messages.insert(name, Msg { request, response, errors, oneway, doc: doc_, props: pr });
        }
    }
    // Defaults last: they need all definitions.
    if o.defaults {
        let n = defs.len();
        for i in 0..n {
            let nf = match &defs[i].kind {
                Kind::Record { fields, .. } => fields.len(),
                _ => 0,
            };
            for j in 0..nf {
                if !t.chance(1, 3) {
                    continue;
                }
                let ty = match &defs[i].kind {
                    Kind::Record { fields, .. } => fields[j].ty.clone(),
                    _ => unreachable!(),
                };
                let v = default_for(t, &ty, &defs, &o.extern_defs, 3);
                if let Kind::Record { fields, .. } = &mut defs[i].kind {
                    fields[j].default = v;
                }
            }
        }
        for m in proto.messages.values_mut() {
            for f in &mut m.request {
                if t.chance(1, 3) {
                    f.default = default_for(t, &f.ty, &defs, &o.extern_defs, 3);
                }
            }
        }
    }
    let mode = match mode {
        0 => Mode::Protocol,
        1 => Mode::Schema(sch(t, 3, &sc, o)),
        _ => Mode::Bare,
    };
    Model { mode, proto, defs }
}

/// Removes annotations at the outermost level (what a result type cannot carry).
pub fn strip_props(s: &mut Sch) {
    match s {
        Sch::Prim(p, pr) => {
            // logical types with a keyword of their own survive
            let lt = pr.get("logicalType").and_then(|v| v.as_str()).map(|x| x.to_string());
            let keep = crate::render::logical_keyword(p, pr).is_some();
            pr.retain(|k, _| keep && (k == "logicalType" || (lt.as_deref() == Some("decimal") && (k == "precision" || k == "scale"))));
        }
        Sch::Array(_, pr) | Sch::Map(_, pr) => pr.clear(),
        Sch::Union(bs) => {
            // `T?` spellings cannot carry them either; keep explicit unions
            for b in bs {
                let _ = b;
            }
        }
        Sch::Named(_) => {}
    }
}

/// First-use order of definitions for a reader of the emitted document.
pub fn emission_order(m: &Model, ext: &[Def]) -> Vec<String> {
    let mut out = vec![];
    let all: Vec<&Def> = ext.iter().chain(m.defs.iter()).collect();
    let find = |n: &str| all.iter().find(|d| d.full == n).copied();
    fn go<'a>(s: &Sch, out: &mut Vec<String>, find: &dyn Fn(&str) -> Option<&'a Def>) {
        match s {
            Sch::Prim(..) => {}
            Sch::Array(i, _) | Sch::Map(i, _) => go(i, out, find),
            Sch::Union(b) => b.iter().for_each(|x| go(x, out, find)),
            Sch::Named(n) => {
                if out.contains(n) {
                    return;
                }
                out.push(n.clone());
                if let Some(Def { kind: Kind::Record { fields, .. }, .. }) = find(n) {
                    for f in fields {
                        go(&f.ty, out, find);
                    }
                }
            }
        }
    }
    match &m.mode {
        Mode::Schema(s) => go(s, &mut out, &find),
        _ => {
            for d in &all {
                go(&Sch::Named(d.full.clone()), &mut out, &find);
            }
        }
    }
    out
}

/// Entries of `types`: declared types not already defined inside an earlier one.
pub fn top_level(decl_order: &[&Def]) -> Vec<String> {
    let find = |n: &str| decl_order.iter().find(|d| d.full == n).copied();
    fn go<'a>(s: &Sch, seen: &mut BTreeSet<String>, find: &dyn Fn(&str) -> Option<&'a Def>) {
        match s {
            Sch::Prim(..) => {}
            Sch::Array(i, _) | Sch::Map(i, _) => go(i, seen, find),
            Sch::Union(b) => b.iter().for_each(|x| go(x, seen, find)),
            Sch::Named(n) => {
                if seen.insert(n.clone())
                    && let Some(Def { kind: Kind::Record { fields, .. }, .. }) = find(n)
                {
                    for f in fields {
                        go(&f.ty, seen, find);
                    }
                }
            }
        }
    }
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for d in decl_order {
        if !seen.contains(&d.full) {
            out.push(d.full.clone());
            go(&Sch::Named(d.full.clone()), &mut seen, &find);
        }
    }
    out
}
