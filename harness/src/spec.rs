//! An independent reader of Avro JSON documents, written from the Avro
//! specification. It resolves all names, checks the structural rules, and
//! yields the meaning of a document as plain data.

use serde_json::{Map, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Props = BTreeMap<String, Value>;

#[derive(Clone, PartialEq, Debug)]
pub enum Sch {
    Prim(String, Props),
    Array(Box<Sch>, Props),
    Map(Box<Sch>, Props),
    Union(Vec<Sch>),
    /// Full name.
    Named(String),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Fld {
    pub name: String,
    pub ty: Sch,
    pub default: Option<Value>,
    /// "ascending" unless stated.
    pub order: String,
    pub aliases: Vec<String>,
    pub doc: Option<String>,
    pub props: Props,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Kind {
    Record { error: bool, fields: Vec<Fld> },
    Enum { symbols: Vec<String>, default: Option<String> },
    Fixed { size: u64 },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Def {
    pub full: String,
    pub kind: Kind,
    pub doc: Option<String>,
    /// Full names.
    pub aliases: Vec<String>,
    pub props: Props,
}

#[derive(Clone, PartialEq, Debug)]
pub struct Msg {
    pub request: Vec<Fld>,
    pub response: Sch,
    pub errors: Option<Vec<Sch>>,
    pub oneway: bool,
    pub doc: Option<String>,
    pub props: Props,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Proto {
    pub name: String,
    pub ns: Option<String>,
    pub doc: Option<String>,
    pub props: Props,
    pub messages: BTreeMap<String, Msg>,
}

/// Definitions in the order in which a reader meets them.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Defs {
    pub list: Vec<Def>,
    index: BTreeMap<String, usize>,
}
impl Defs {
    pub fn get(&self, full: &str) -> Option<&Def> {
        self.index.get(full).map(|i| &self.list[*i])
    }
    pub fn add(&mut self, d: Def) {
        self.index.insert(d.full.clone(), self.list.len());
        self.list.push(d);
    }
    pub fn names(&self) -> Vec<String> {
        self.list.iter().map(|d| d.full.clone()).collect()
    }
}

pub const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

pub fn is_prim(s: &str) -> bool {
    PRIMS.contains(&s)
}

pub fn valid_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() {
        Some(c) if c == '_' || c.is_alphabetic() => {}
        _ => return false,
    }
    it.all(|c| c == '_' || c.is_alphanumeric())
}
pub fn valid_full(s: &str) -> bool {
    !s.is_empty() && s.split('.').all(valid_name)
}
pub fn ns_of(full: &str) -> Option<&str> {
    full.rfind('.').map(|i| &full[..i])
}
pub fn simple_of(full: &str) -> &str {
    full.rfind('.').map(|i| &full[i + 1..]).unwrap_or(full)
}
pub fn join(ns: Option<&str>, name: &str) -> String {
    match ns {
        Some(n) if !n.is_empty() => format!("{n}.{name}"),
        _ => name.to_string(),
    }
}

type R<T> = Result<T, String>;

struct Reader {
    defs: Defs,
    /// Names whose definition has begun (usable for self reference).
    begun: BTreeSet<String>,
    order: Vec<String>,
    /// An undotted name unknown in its namespace may denote a type of the null
    /// namespace (as Java's reader does; Avro JSON has no other spelling for it).
    null_ok: bool,
}

fn text(v: &Value, what: &str) -> R<String> {
    v.as_str().map(|s| s.to_string()).ok_or_else(|| format!("{what} is not a string: {v}"))
}
fn opt_text(o: &Map<String, Value>, k: &str) -> R<Option<String>> {
    match o.get(k) {
        None => Ok(None),
        Some(v) => text(v, k).map(Some),
    }
}
fn props_except(o: &Map<String, Value>, skip: &[&str]) -> Props {
    o.iter().filter(|(k, _)| !skip.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
}

fn branch_key(s: &Sch) -> String {
    match s {
        Sch::Prim(p, _) => p.clone(),
        Sch::Array(..) => "array".into(),
        Sch::Map(..) => "map".into(),
        Sch::Union(_) => "union".into(),
        Sch::Named(n) => format!("named:{n}"),
    }
}

impl Reader {
    fn schema(&mut self, v: &Value, ns: Option<&str>) -> R<Sch> {
        match v {
            Value::String(s) => {
                if is_prim(s) {
                    return Ok(Sch::Prim(s.clone(), Props::new()));
                }
                let full = if s.contains('.') { s.clone() } else { join(ns, s) };
                if !valid_full(&full) {
                    return Err(format!("illegal type name `{s}`"));
                }
                if self.null_ok && !self.begun.contains(&full) && self.begun.contains(s) {
                    return Ok(Sch::Named(s.clone()));
                }
                if self.null_ok && full != *s && !self.begun.contains(s) && ["record", "enum", "array", "map", "union", "fixed"].contains(&s.as_str()) {
                    return Err(format!("a reference to `{full}` is spelled like the keyword `{s}`"));
                }
                if !self.begun.contains(&full) {
                    return Err(format!("`{s}` (that is `{full}`) is used before or without definition"));
                }
                Ok(Sch::Named(full))
            }
            Value::Array(a) => {
                let mut seen = BTreeSet::new();
                let mut out = Vec::new();
                for b in a {
                    let s = self.schema(b, ns)?;
                    if matches!(s, Sch::Union(_)) {
                        return Err("union directly inside a union".into());
                    }
                    // a bare name that may mean a type of the null namespace as well
                    let unclear = self.null_ok
                        && matches!((b, &s), (Value::String(x), Sch::Named(n)) if x != n && !x.contains('.') && self.begun.contains(x));
                    if !seen.insert(branch_key(&s)) && !unclear {
                        return Err(format!("union repeats branch {}", branch_key(&s)));
                    }
                    out.push(s);
                }
                Ok(Sch::Union(out))
            }
            Value::Object(o) => {
                let t = o.get("type").ok_or("schema object without type")?;
                let t = text(t, "type")?;
                match t.as_str() {
                    "array" => {
                        let it = o.get("items").ok_or("array without items")?;
                        let it = self.schema(it, ns)?;
                        Ok(Sch::Array(Box::new(it), props_except(o, &["type", "items"])))
                    }
                    "map" => {
                        let it = o.get("values").ok_or("map without values")?;
                        let it = self.schema(it, ns)?;
                        Ok(Sch::Map(Box::new(it), props_except(o, &["type", "values"])))
                    }
                    "record" | "error" | "enum" | "fixed" => self.named(&t, o, ns),
                    p if is_prim(p) => {
                        let props = props_except(o, &["type"]);
                        Ok(Sch::Prim(p.to_string(), props))
                    }
                    other => Err(format!("unknown type `{other}` in schema object")),
                }
            }
            _ => Err(format!("not a schema: {v}")),
        }
    }

    fn named(&mut self, t: &str, o: &Map<String, Value>, enclosing: Option<&str>) -> R<Sch> {
        let name = text(o.get("name").ok_or("named type without name")?, "name")?;
        let (full, _own) = if name.contains('.') {
            (name.clone(), true)
        } else {
            match opt_text(o, "namespace")? {
                Some(n) => (join(Some(&n), &name), true),
                None => (join(enclosing, &name), false),
            }
        };
        if !valid_full(&full) {
            return Err(format!("illegal full name `{full}`"));
        }
        if is_prim(&full) {
            return Err(format!("type is named like a primitive: `{full}`"));
        }
        if !self.begun.insert(full.clone()) {
            return Err(format!("`{full}` is defined twice"));
        }
        self.order.push(full.clone());
        let ns = ns_of(&full).map(|s| s.to_string());
        let doc = opt_text(o, "doc")?;
        let aliases = match o.get("aliases") {
            None => vec![],
            Some(Value::Array(a)) => {
                let mut out = vec![];
                for x in a {
                    let x = text(x, "alias")?;
                    let f = if x.contains('.') { x.clone() } else { join(ns.as_deref(), &x) };
                    out.push(f);
                }
                out
            }
            Some(v) => return Err(format!("aliases is not a list: {v}")),
        };
        let idx = self.defs.list.len();
        self.defs.add(Def { full: full.clone(), kind: Kind::Fixed { size: 0 }, doc, aliases, props: Props::new() });
        let (kind, props) = match t {
            "record" | "error" => {
                let fs = o.get("fields").and_then(|v| v.as_array()).ok_or("record without fields")?;
                let fields = self.fields(fs, ns.as_deref(), "field")?;
                (
                    Kind::Record { error: t == "error", fields },
                    props_except(o, &["type", "name", "namespace", "doc", "aliases", "fields"]),
                )
            }
            "enum" => {
                let sy = o.get("symbols").and_then(|v| v.as_array()).ok_or("enum without symbols")?;
                let mut symbols = vec![];
                for s in sy {
                    let s = text(s, "symbol")?;
                    if !valid_name(&s) {
                        return Err(format!("illegal enum symbol `{s}`"));
                    }
                    if symbols.contains(&s) {
                        return Err(format!("symbol `{s}` repeated"));
                    }
                    symbols.push(s);
                }
                let default = opt_text(o, "default")?;
                if let Some(d) = &default
                    && !symbols.contains(d)
                {
                    return Err(format!("enum default `{d}` is not a symbol"));
                }
                (
                    Kind::Enum { symbols, default },
                    props_except(o, &["type", "name", "namespace", "doc", "aliases", "symbols", "default"]),
                )
            }
            _ => {
                let size = o.get("size").and_then(|v| v.as_u64()).ok_or("fixed size is not a non-negative integer")?;
                (Kind::Fixed { size }, props_except(o, &["type", "name", "namespace", "doc", "aliases", "size"]))
            }
        };
        self.defs.list[idx].kind = kind;
        self.defs.list[idx].props = props;
        Ok(Sch::Named(full))
    }

    fn fields(&mut self, fs: &[Value], ns: Option<&str>, what: &str) -> R<Vec<Fld>> {
        let mut out: Vec<Fld> = vec![];
        for f in fs {
            let o = f.as_object().ok_or_else(|| format!("{what} is not an object"))?;
            let name = text(o.get("name").ok_or_else(|| format!("{what} without name"))?, "name")?;
            if !valid_name(&name) {
                return Err(format!("illegal {what} name `{name}`"));
            }
            if out.iter().any(|g| g.name == name) {
                return Err(format!("{what} `{name}` repeated"));
            }
            let ty = self.schema(o.get("type").ok_or_else(|| format!("{what} without type"))?, ns)?;
            let order = opt_text(o, "order")?;
            if let Some(x) = &order
                && !["ascending", "descending", "ignore"].contains(&x.as_str())
            {
                return Err(format!("illegal order `{x}`"));
            }
            let mut aliases = vec![];
            if let Some(a) = o.get("aliases") {
                let a = a.as_array().ok_or("aliases is not a list")?;
                for x in a {
                    let x = text(x, "alias")?;
                    aliases.push(x);
                }
            }
            out.push(Fld {
                name,
                ty,
                default: o.get("default").cloned(),
                order: order.unwrap_or_else(|| "ascending".into()),
                aliases,
                doc: opt_text(o, "doc")?,
                props: props_except(o, &["name", "type", "doc", "default", "order", "aliases"]),
            });
        }
        Ok(out)
    }
}

pub struct SchemaDoc {
    pub root: Sch,
    pub defs: Defs,
}

pub fn read_schema(v: &Value) -> R<SchemaDoc> {
    read_schema_(v, false)
}
pub fn read_schema_null_ok(v: &Value) -> R<SchemaDoc> {
    read_schema_(v, true)
}
fn read_schema_(v: &Value, null_ok: bool) -> R<SchemaDoc> {
    let mut r = Reader { defs: Defs::default(), begun: BTreeSet::new(), order: vec![], null_ok };
    let root = r.schema(v, None)?;
    Ok(SchemaDoc { root, defs: r.defs })
}

pub struct ProtoDoc {
    pub proto: Proto,
    pub defs: Defs,
    /// Full names of the entries of `types`.
    pub top: Vec<String>,
}

pub fn read_protocol(v: &Value) -> R<ProtoDoc> {
    read_protocol_(v, false)
}
/// Allows types of the null namespace to be mentioned by their bare name anywhere.
pub fn read_protocol_null_ok(v: &Value) -> R<ProtoDoc> {
    read_protocol_(v, true)
}
fn read_protocol_(v: &Value, null_ok: bool) -> R<ProtoDoc> {
    let o = v.as_object().ok_or("protocol is not an object")?;
    let name = text(o.get("protocol").ok_or("no protocol name")?, "protocol")?;
    let ns = opt_text(o, "namespace")?;
    let mut r = Reader { defs: Defs::default(), begun: BTreeSet::new(), order: vec![], null_ok };
    let mut top = vec![];
    let types = o.get("types").and_then(|t| t.as_array()).ok_or("protocol without types")?;
    for t in types {
        if !t.is_object() {
            return Err(format!("entry of types is not a definition: {t}"));
        }
        match r.schema(t, ns.as_deref())? {
            Sch::Named(n) => top.push(n),
            s => return Err(format!("entry of types is not a named type: {s:?}")),
        }
    }
    let mut messages = BTreeMap::new();
    let ms = o.get("messages").and_then(|t| t.as_object()).ok_or("protocol without messages")?;
    for (k, m) in ms {
        let mo = m.as_object().ok_or("message is not an object")?;
        let req = mo.get("request").and_then(|t| t.as_array()).ok_or("message without request")?;
        let before = r.order.len();
        let request = r.fields(req, ns.as_deref(), "parameter")?;
        let response = r.schema(mo.get("response").ok_or("message without response")?, ns.as_deref())?;
        let errors = match mo.get("errors") {
            None => None,
            Some(Value::Array(a)) => {
                let mut out = vec![];
                for e in a {
                    let e = r.schema(e, ns.as_deref())?;
                    if matches!(e, Sch::Union(_)) {
                        return Err("union in errors".into());
                    }
                    out.push(e);
                }
                Some(out)
            }
            Some(v) => return Err(format!("errors is not a list: {v}")),
        };
        let _ = before;
        let oneway = match mo.get("one-way") {
            None => false,
            Some(Value::Bool(b)) => *b,
            Some(v) => return Err(format!("one-way is {v}")),
        };
        if oneway && (errors.is_some() || response != Sch::Prim("null".into(), Props::new())) {
            return Err(format!("one-way message `{k}` has errors or a response"));
        }
        messages.insert(
            k.clone(),
            Msg {
                request,
                response,
                errors,
                oneway,
                doc: opt_text(mo, "doc")?,
                props: props_except(mo, &["doc", "request", "response", "errors", "one-way"]),
            },
        );
    }
    Ok(ProtoDoc {
        proto: Proto {
            name,
            ns,
            doc: opt_text(o, "doc")?,
            props: props_except(o, &["protocol", "namespace", "doc", "types", "messages"]),
            messages,
        },
        defs: r.defs,
        top,
    })
}

/// Default-value validity by the Avro specification, as the Java tool applies
/// it (any branch of a union may be used; strings for bytes, fixed and enum).
pub fn default_ok(ty: &Sch, v: &Value, lookup: &dyn Fn(&str) -> Option<Def>) -> bool {
    match ty {
        Sch::Prim(p, _) => match p.as_str() {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "int" => v.as_i64().is_some_and(|n| n >= i32::MIN as i64 && n <= i32::MAX as i64),
            "long" => v.as_i64().is_some(),
            "float" | "double" => v.is_number() || matches!(v.as_str(), Some("NaN" | "Infinity" | "-Infinity")),
            "bytes" | "string" => v.is_string(),
            _ => false,
        },
        Sch::Array(it, _) => v.as_array().is_some_and(|a| a.iter().all(|x| default_ok(it, x, lookup))),
        Sch::Map(it, _) => v.as_object().is_some_and(|a| a.values().all(|x| default_ok(it, x, lookup))),
        Sch::Union(bs) => bs.iter().any(|b| default_ok(b, v, lookup)),
        Sch::Named(n) => match lookup(n) {
            None => true,
            Some(d) => match &d.kind {
                Kind::Enum { .. } | Kind::Fixed { .. } => v.is_string(),
                Kind::Record { fields, .. } => v.as_object().is_some_and(|o| {
                    fields.iter().all(|f| match o.get(&f.name) {
                        Some(x) => default_ok(&f.ty, x, lookup),
                        None => f.default.is_some(),
                    })
                }),
            },
        },
    }
}
