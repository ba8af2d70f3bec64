use crate::gen_::*;
use crate::runner::{Ctx, Res};
use crate::spec::*;
use serde_json::Value;

pub fn pretty(v: &Value) -> String {
    serde_json::to_string_pretty(v).unwrap()
}
pub fn fail<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}
pub fn harness<T>(s: impl AsRef<str>) -> Result<T, String> {
    Err(format!("HARNESS: {}", s.as_ref()))
}

pub fn diff<T: PartialEq + std::fmt::Debug>(what: &str, want: &T, got: &T) -> Res {
    if want == got { Ok(()) } else { Err(format!("{what} differs:\n  declared: {want:?}\n  emitted:  {got:?}")) }
}

pub fn same_fields(what: &str, want: &[Fld], got: &[Fld]) -> Res {
    let n = |f: &[Fld]| f.iter().map(|x| x.name.clone()).collect::<Vec<_>>();
    diff(&format!("{what}: names"), &n(want), &n(got))?;
    for (a, b) in want.iter().zip(got) {
        let w = format!("{what} `{}`", a.name);
        diff(&format!("{w}: type"), &a.ty, &b.ty)?;
        diff(&format!("{w}: default"), &a.default, &b.default)?;
        diff(&format!("{w}: order"), &a.order, &b.order)?;
        diff(&format!("{w}: aliases"), &a.aliases, &b.aliases)?;
        diff(&format!("{w}: doc"), &a.doc, &b.doc)?;
        diff(&format!("{w}: properties"), &a.props, &b.props)?;
    }
    Ok(())
}

pub fn same_def(want: &Def, got: &Def) -> Res {
    let w = format!("type `{}`", want.full);
    diff("type name", &want.full, &got.full)?;
    diff(&format!("{w}: doc"), &want.doc, &got.doc)?;
    diff(&format!("{w}: aliases"), &want.aliases, &got.aliases)?;
    diff(&format!("{w}: properties"), &want.props, &got.props)?;
    match (&want.kind, &got.kind) {
        (Kind::Record { error: a, fields: f }, Kind::Record { error: b, fields: g }) if a == b => {
            same_fields(&format!("{w}: field"), f, g)
        }
        (a, b) => diff(&format!("{w}: kind"), a, b),
    }
}

/// Definitions met by the reader equal `names`, in that order, with the
/// meanings found in `all`.
pub fn same_defs(names: &[String], all: &[&Def], got: &Defs) -> Res {
    diff("order and set of definitions", &names.to_vec(), &got.names())?;
    for n in names {
        let Some(w) = all.iter().find(|d| &d.full == n) else { return harness(format!("no model of {n}")) };
        same_def(w, got.get(n).unwrap())?;
    }
    Ok(())
}

pub fn same_messages(want: &Proto, got: &Proto) -> Res {
    let k = |p: &Proto| p.messages.keys().cloned().collect::<Vec<_>>();
    diff("messages", &k(want), &k(got))?;
    for (n, a) in &want.messages {
        let b = &got.messages[n];
        let w = format!("message `{n}`");
        same_fields(&format!("{w}: parameter"), &a.request, &b.request)?;
        diff(&format!("{w}: response"), &a.response, &b.response)?;
        diff(&format!("{w}: errors"), &a.errors, &b.errors)?;
        diff(&format!("{w}: one-way"), &a.oneway, &b.oneway)?;
        diff(&format!("{w}: doc"), &a.doc, &b.doc)?;
        diff(&format!("{w}: properties"), &a.props, &b.props)?;
    }
    Ok(())
}

pub fn same_head(want: &Proto, got: &Proto) -> Res {
    diff("protocol name", &want.name, &got.name)?;
    diff("protocol namespace", &want.ns, &got.ns)?;
    diff("protocol doc", &want.doc, &got.doc)?;
    diff("protocol properties", &want.props, &got.props)
}

/// The emitted protocol denotes the model (`order`: all declared types, imported ones included).
pub fn same_protocol(m: &Model, order: &[&Def], json: &Value) -> Res {
    let doc = read_protocol(json).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
    same_head(&m.proto, &doc.proto)?;
    diff("entries of types", &top_level(order), &doc.top)?;
    // definitions nested in messages cannot occur: all types are declared
    let mut seen = vec![];
    for n in emission_names(order) {
        seen.push(n);
    }
    same_defs(&seen, order, &doc.defs)?;
    same_messages(&m.proto, &doc.proto)
}

/// First-use order over all declared types.
pub fn emission_names(order: &[&Def]) -> Vec<String> {
    let m = Model { mode: Mode::Bare, proto: Proto::default(), defs: order.iter().map(|d| (*d).clone()).collect() };
    emission_order(&m, &[])
}

pub fn refs<'a>(m: &'a Model) -> Vec<&'a Def> {
    m.defs.iter().collect()
}

/// Standard labels describing a model.
pub fn describe(m: &Model, ctx: &mut Ctx) {
    ctx.label(format!("types:{}", m.defs.len().min(8)));
    ctx.label_if(m.proto.ns.is_none(), "file-without-namespace");
    let mut deep = false;
    let mut refs_ = 0;
    let mut fwd = false;
    let mut selfref = false;
    let mut defaults = 0;
    let mut unions = 0;
    for (i, d) in m.defs.iter().enumerate() {
        ctx.label_if(ns_of(&d.full) != m.ns(), "type-in-other-namespace");
        ctx.label_if(!d.aliases.is_empty(), "type-aliases");
        ctx.label_if(d.doc.is_some(), "type-doc");
        if let Kind::Record { fields, .. } = &d.kind {
            for f in fields {
                walk(&f.ty, 0, &mut |s, depth| {
                    deep |= depth >= 2;
                    match s {
                        Sch::Named(n) => {
                            refs_ += 1;
                            selfref |= *n == d.full;
                            fwd |= m.defs[i + 1..].iter().any(|x| &x.full == n);
                        }
                        Sch::Union(_) => unions += 1,
                        _ => {}
                    }
                });
                defaults += f.default.is_some() as usize;
                ctx.label_if(!f.props.is_empty(), "field-props");
            }
        }
    }
    ctx.label_if(deep, "nested-containers");
    ctx.label_if(refs_ > 0, "references");
    ctx.label_if(refs_ > 4, "many-references");
    ctx.label_if(fwd, "forward-reference");
    ctx.label_if(selfref, "self-reference");
    ctx.label_if(defaults > 0, "defaults");
    ctx.label_if(unions > 0, "unions");
    ctx.label_if(!m.proto.messages.is_empty(), "messages");
    ctx.label_if(m.proto.messages.values().any(|x| x.errors.is_some()), "throws");
}

pub fn walk(s: &Sch, depth: usize, f: &mut dyn FnMut(&Sch, usize)) {
    f(s, depth);
    match s {
        Sch::Array(i, _) | Sch::Map(i, _) => walk(i, depth + 1, f),
        Sch::Union(b) => b.iter().for_each(|x| walk(x, depth + 1, f)),
        _ => {}
    }
}

pub fn n_refs(m: &Model) -> usize {
    let mut n = 0;
    let mut count = |s: &Sch| walk(s, 0, &mut |x, _| n += matches!(x, Sch::Named(_)) as usize);
    for d in &m.defs {
        if let Kind::Record { fields, .. } = &d.kind {
            fields.iter().for_each(|f| count(&f.ty));
        }
    }
    for x in m.proto.messages.values() {
        count(&x.response);
        x.request.iter().for_each(|f| count(&f.ty));
    }
    if let Mode::Schema(s) = &m.mode {
        count(s);
    }
    n
}

/// Same definitions in any order.
pub fn same_def_set(want: &[&Def], got: &Defs) -> Res {
    let mut a: Vec<String> = want.iter().map(|d| d.full.clone()).collect();
    let mut b = got.names();
    a.sort();
    b.sort();
    diff("set of definitions", &a, &b)?;
    for w in want {
        same_def(w, got.get(&w.full).unwrap())?;
    }
    Ok(())
}

/// A valid file around the import statement `imp`: a protocol, maybe with
/// messages replacing those called `replaced`, or a schema-mode file.
pub fn importer<'a>(t: &mut crate::tape::Tape, imp: &str, replaced: impl Iterator<Item = &'a String>) -> String {
    let over: String = replaced.map(|n| format!("void `{n}`(); ")).collect();
    match t.weighted(&[4, 2, 2, 1]) {
        0 => format!("protocol Main {{ {imp} record ZqMain {{ int a; }} }}"),
        1 => format!("protocol Main {{ {over}{imp} record ZqMain {{ int a; }} }}"),
        2 => format!("schema int; {imp} record ZqMain {{ int a; }}"),
        _ => format!("namespace zq.w; schema ZqMain; {imp} record ZqMain {{ int a; }}"),
    }
}
