use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C10: Check = Check {
    id: "C10",
    rule: "a random program without annotations gets one to four of them: any name (reserved, special elsewhere, dotted, dashed, \
           keyword, Unicode) with any JSON value on any construct (protocol, named type, field or parameter variable, message, or \
           any nested type expression incl. references, nullable types and explicit unions). A placement table says whether the \
           program is rejected (structural name, ill-typed special annotation, annotated reference) or which property or Avro \
           attribute of which construct changes; everything else must stay. Non-trivial: some annotation is not on a record or \
           field, or has a name that is structural or special for some construct",
    quick: 216_000,
    thorough: 1_500_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &["the placement table (transcribed from the Avro IDL documentation and the Java tool's reserved sets)"],
};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Spot {
    Protocol,
    Def,
    Field,
    Param,
    Message,
    Type,
}

fn name(t: &mut Tape, p: Place) -> String {
    match t.weighted(&[45, 5, 14, 18, 12]) {
        0 => (*t.pick(PROP_NAMES)).to_string(),
        1 => (*t.pick(reserved(p))).to_string(),
        2 => {
            let q = *t.pick(PLACES);
            (*t.pick(reserved(q))).to_string()
        }
        4 => (*t.pick(&["order", "aliases", "aliases", "namespace"])).to_string(),
        _ => {
            let mut s = ident(t, true);
            while t.chance(1, 3) {
                s.push(if t.coin() { '.' } else { '-' });
                s.push_str(*t.pick(&["a", "b1", "C", "_", "é", "int", "x9"]));
            }
            s
        }
    }
}

/// Type nodes that may carry annotations, in a walk of the whole model.
fn each_type(m: &mut Model, f: &mut dyn FnMut(&mut Sch, Option<&str>)) {
    fn go(s: &mut Sch, ns: Option<&str>, top: bool, f: &mut dyn FnMut(&mut Sch, Option<&str>)) {
        if top {
            f(s, ns);
        }
        match s {
            Sch::Array(i, _) | Sch::Map(i, _) => go(i, ns, true, f),
            Sch::Union(b) => b.iter_mut().for_each(|x| go(x, ns, true, f)),
            _ => {}
        }
    }
    for d in &mut m.defs {
        let ns = ns_of(&d.full).map(|s| s.to_string());
        if let Kind::Record { fields, .. } = &mut d.kind {
            fields.iter_mut().for_each(|x| go(&mut x.ty, ns.as_deref(), true, f));
        }
    }
    let ns = m.proto.ns.clone();
    for x in m.proto.messages.values_mut() {
        x.request.iter_mut().for_each(|y| go(&mut y.ty, ns.as_deref(), true, f));
        // an annotation before a result type belongs to the message
        go(&mut x.response, ns.as_deref(), false, f);
    }
    if let Mode::Schema(s) = &mut m.mode {
        go(s, ns.as_deref(), true, f);
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let schema = t.chance(1, 5);
    let o = Opts {
        max_types: 4,
        mode: Some(schema as u8),
        docs: t.chance(1, 4),
        props: false,
        odd_names: t.chance(1, 4),
        ..Opts::default()
    };
    let mut m = model(t, &o); // what the output must denote
    if t.coin() {
        // some logical types (and nothing else) as annotated constructs
        let mut picks = vec![];
        each_type(&mut m, &mut |s, _| {
            if let Sch::Prim(p, pr) = s
                && pr.is_empty()
            {
                picks.push(p.clone());
            }
        });
        let choose: Vec<u32> = picks.iter().map(|_| t.below(3)).collect();
        let mut i = 0;
        each_type(&mut m, &mut |s, _| {
            if let Sch::Prim(p, pr) = s
                && pr.is_empty()
                && i < choose.len()
            {
                let lt = match (p.as_str(), choose[i]) {
                    ("int", 0) => Some("date"),
                    ("long", 0) => Some("timestamp-millis"),
                    ("string", 0) => Some("uuid"),
                    _ => None,
                };
                if let Some(l) = lt {
                    pr.insert("logicalType".into(), l.into());
                }
                i += 1;
            }
        });
    }
    let mut src_model = m.clone(); // what is written
    let mut reject: Option<String> = None;
    let n = 1 + t.usize(4);
    for _ in 0..n {
        let nmsg = m.proto.messages.len();
        let params: Vec<(String, usize)> =
            m.proto.messages.iter().flat_map(|(k, x)| (0..x.request.len()).map(move |j| (k.clone(), j))).collect();
        let fields: Vec<(usize, usize)> = m
            .defs
            .iter()
            .enumerate()
            .flat_map(|(i, d)| match &d.kind {
                Kind::Record { fields, .. } => (0..fields.len()).map(move |j| (i, j)).collect::<Vec<_>>(),
                _ => vec![],
            })
            .collect();
        let w = |b: bool, n: u32| if b { n } else { 0 };
        let spot = [Spot::Protocol, Spot::Def, Spot::Field, Spot::Param, Spot::Message, Spot::Type][t.weighted(&[
            w(!schema, 10) + 1,
            w(!m.defs.is_empty(), 20),
            w(!fields.is_empty(), 15),
            w(!params.is_empty(), 12),
            w(nmsg > 0, 12),
            35,
        ])];
        let v = json(t, 2);
        match spot {
            Spot::Protocol if schema => {}
            Spot::Protocol => {
                let k = name(t, Place::Protocol);
                ctx.label("on:protocol");
                if src_model.proto.props.contains_key(&k) {
                    continue;
                }
                if k == "namespace" {
                    if !v.is_string() {
                        ctx.label("ill-typed-special");
                        reject.get_or_insert(format!("@namespace({v}) on the protocol"));
                        src_model.proto.props.insert(k, v);
                    }
                    continue;
                }
                if reserved(Place::Protocol).contains(&k.as_str()) {
                    ctx.label("reserved");
                    reject.get_or_insert(format!("@{k} on the protocol"));
                }
                src_model.proto.props.insert(k.clone(), v.clone());
                m.proto.props.insert(k, v);
            }
            Spot::Def => {
                let i = t.usize(m.defs.len());
                let place = match m.defs[i].kind {
                    Kind::Record { .. } => Place::Record,
                    Kind::Enum { .. } => Place::Enum,
                    Kind::Fixed { .. } => Place::Fixed,
                };
                ctx.label(format!("on:{place:?}"));
                let k = name(t, place);
                ctx.nontrivial |= place != Place::Record;
                if src_model.defs[i].props.contains_key(&k) {
                    continue;
                }
                match k.as_str() {
                    "namespace" => {
                        if !v.is_string() {
                            ctx.label("ill-typed-special");
                            reject.get_or_insert(format!("@namespace({v}) on a named type"));
                            src_model.defs[i].props.insert(k, v);
                        }
                        continue;
                    }
                    "aliases" => {
                        let v = special_aliases(t, v);
                        // a dotted string that is no name has no namespace to resolve
                        if strings(&v).is_some_and(|a| a.iter().any(|x| x.contains('.') && !valid_full(x))) {
                            continue;
                        }
                        match strings(&v) {
                            Some(a) => {
                                ctx.label("special-used");
                                let ns = ns_of(&m.defs[i].full).map(|s| s.to_string());
                                m.defs[i].aliases = a.iter().map(|x| if x.contains('.') { x.clone() } else { join(ns.as_deref(), x) }).collect();
                                src_model.defs[i].aliases.clear();
                            }
                            None => {
                                ctx.label("ill-typed-special");
                                reject.get_or_insert(format!("@aliases({v}) on a named type"));
                            }
                        }
                        src_model.defs[i].props.insert(k, v);
                        continue;
                    }
                    _ => {}
                }
                if reserved(place).contains(&k.as_str()) {
                    ctx.label("reserved");
                    reject.get_or_insert(format!("@{k} on a named type"));
                }
                src_model.defs[i].props.insert(k.clone(), v.clone());
                m.defs[i].props.insert(k, v);
            }
            Spot::Field | Spot::Param => {
                ctx.label(if spot == Spot::Field { "on:field" } else { "on:parameter" });
                let at = if spot == Spot::Field { Ok(*t.pick(&fields)) } else { Err(t.pick(&params).clone()) };
                let k = name(t, Place::Field);
                ctx.nontrivial |= spot == Spot::Param;
                let get = |m: &mut Model, f: &mut dyn FnMut(&mut Fld)| match &at {
                    Ok((i, j)) => {
                        if let Kind::Record { fields, .. } = &mut m.defs[*i].kind {
                            f(&mut fields[*j]);
                        }
                    }
                    Err((k, j)) => f(&mut m.proto.messages.get_mut(k).unwrap().request[*j]),
                };
                let mut taken = false;
                get(&mut src_model, &mut |f| taken = f.props.contains_key(&k));
                if taken {
                    continue;
                }
                match k.as_str() {
                    "order" => {
                        let v = if t.coin() {
                            Value::from(*t.pick(&["ascending", "DESCENDING", "Ignore", "descending", "desc", "", "ignored", "ASCENDING "]))
                        } else {
                            v
                        };
                        let o = v.as_str().map(|s| s.to_lowercase()).filter(|s| ["ascending", "descending", "ignore"].contains(&s.as_str()));
                        match o {
                            Some(o) => {
                                ctx.label("special-used");
                                get(&mut m, &mut |f| f.order = o.clone());
                                get(&mut src_model, &mut |f| f.order = "ascending".into());
                            }
                            None => {
                                ctx.label("ill-typed-special");
                                reject.get_or_insert(format!("@order({v})"));
                            }
                        }
                        // the renderer may add an @order of its own for ascending ones: see Plain below
                        get(&mut src_model, &mut |f| {
                            f.props.insert("order".into(), v.clone());
                        });
                    }
                    "aliases" => {
                        let v = special_aliases(t, v);
                        match strings(&v) {
                            Some(a) => {
                                ctx.label("special-used");
                                get(&mut m, &mut |f| f.aliases = a.clone());
                                get(&mut src_model, &mut |f| f.aliases.clear());
                            }
                            None => {
                                ctx.label("ill-typed-special");
                                reject.get_or_insert(format!("@aliases({v}) on a variable"));
                            }
                        }
                        get(&mut src_model, &mut |f| {
                            f.props.insert("aliases".into(), v.clone());
                        });
                    }
                    _ => {
                        if reserved(Place::Field).contains(&k.as_str()) {
                            ctx.label("reserved");
                            reject.get_or_insert(format!("@{k} on a variable"));
                        }
                        get(&mut m, &mut |f| {
                            f.props.insert(k.clone(), v.clone());
                        });
                        get(&mut src_model, &mut |f| {
                            f.props.insert(k.clone(), v.clone());
                        });
                    }
                }
            }
            Spot::Message => {
                ctx.label("on:message");
                ctx.nontrivial = true;
                let mk: Vec<String> = m.proto.messages.keys().cloned().collect();
                let mn = t.pick(&mk).clone();
                let k = name(t, Place::Message);
                let bare_ref = match &m.proto.messages[&mn].response {
                    Sch::Named(_) => true,
                    Sch::Union(b) => {
                        // how a nullable reference is spelled decides: spell it `R?`
                        match (b.len(), b.iter().find_map(|s| if let Sch::Named(n) = s { Some(n.clone()) } else { None })) {
                            (2, Some(n)) => {
                                if b.iter().all(|s| !matches!(s, Sch::Prim(p, _) if p == "null")) || t.coin() {
                                    continue;
                                }
                                ctx.label("annotated-nullable-reference");
                                let txt = ref_text(&n, m.proto.ns.as_deref(), t.coin());
                                src_model.proto.messages.get_mut(&mn).unwrap().response = Sch::Prim(format!("{txt}?"), Default::default());
                                true
                            }
                            _ => false,
                        }
                    }
                    _ => false,
                };
                if reserved(Place::Message).contains(&k.as_str()) {
                    ctx.label("reserved");
                    reject.get_or_insert(format!("@{k} on a message"));
                }
                if bare_ref {
                    ctx.label("annotated-reference-result");
                    reject.get_or_insert(format!("@{k} before a result type that is a reference"));
                }
                src_model.proto.messages.get_mut(&mn).unwrap().props.insert(k.clone(), v.clone());
                m.proto.messages.get_mut(&mn).unwrap().props.insert(k, v);
            }
            Spot::Type => {
                let mut count = 0;
                each_type(&mut src_model, &mut |_, _| count += 1);
                if count == 0 {
                    continue;
                }
                ctx.nontrivial = true;
                let at = t.usize(count);
                let k = name(t, Place::Type);
                if ["logicalType", "precision", "scale"].contains(&k.as_str()) {
                    continue;
                }
                let is_reserved = reserved(Place::Type).contains(&k.as_str());
                let mut kind = "";
                let short = t.coin();
                let mut i = 0;
                let mut raw_union = false;
                each_type(&mut src_model, &mut |s, ns| {
                    if i == at {
                        match s {
                            // already replaced by raw text
                            Sch::Prim(p, _) if !is_prim(p) => kind = "",
                            Sch::Prim(_, pr) => {
                                kind = "primitive";
                                pr.insert(k.clone(), v.clone());
                            }
                            Sch::Array(_, pr) | Sch::Map(_, pr) => {
                                kind = "container";
                                pr.insert(k.clone(), v.clone());
                            }
                            Sch::Named(n) => {
                                kind = "reference";
                                *s = Sch::Prim(ref_text(n, ns, short), [(k.clone(), v.clone())].into());
                            }
                            Sch::Union(bs)
                                if bs.len() == 2
                                    && bs.iter().any(|b| matches!(b, Sch::Prim(p, _) if p == "null"))
                                    && bs.iter().any(|b| matches!(b, Sch::Named(_))) =>
                            {
                                kind = "nullable-reference";
                                let n = bs.iter().find_map(|b| if let Sch::Named(n) = b { Some(n) } else { None }).unwrap();
                                *s = Sch::Prim(format!("{}?", ref_text(n, ns, short)), [(k.clone(), v.clone())].into());
                            }
                            Sch::Union(bs) => {
                                kind = "union";
                                if bs.iter().any(|b| !matches!(b, Sch::Prim(p, pr) if is_prim(p) && pr.is_empty())) {
                                    kind = ""; // keep the raw text simple
                                } else {
                                    raw_union = true;
                                    let txt: Vec<String> = bs.iter().map(|b| if let Sch::Prim(p, _) = b { p.clone() } else { unreachable!() }).collect();
                                    *s = Sch::Prim(format!("union {{ {} }}", txt.join(", ")), [(k.clone(), v.clone())].into());
                                }
                            }
                        }
                    }
                    i += 1;
                });
                if kind.is_empty() {
                    continue;
                }
                ctx.label(format!("on:{kind}"));
                if is_reserved {
                    ctx.label("reserved");
                    reject.get_or_insert(format!("@{k} on a type expression"));
                }
                match kind {
                    "reference" | "nullable-reference" => {
                        reject.get_or_insert(format!("@{k} on a type reference"));
                    }
                    "union" => {} // dropped (with a warning)
                    _ => {
                        let mut i = 0;
                        // the same walk position: raw unions replaced earlier hide their branches
                        let mut hidden = vec![];
                        let mut j = 0;
                        each_type(&mut src_model, &mut |s, _| {
                            hidden.push(matches!(s, Sch::Prim(p, _) if p.starts_with("union {")));
                            j += 1;
                        });
                        let mut skip = 0;
                        let mut idx = 0;
                        each_type(&mut m, &mut |s, _| {
                            if skip > 0 {
                                skip -= 1;
                                return;
                            }
                            if hidden.get(idx) == Some(&true)
                                && let Sch::Union(b) = s
                            {
                                skip = b.len();
                            }
                            if idx == at {
                                match s {
                                    Sch::Prim(_, pr) | Sch::Array(_, pr) | Sch::Map(_, pr) => {
                                        pr.insert(k.clone(), v.clone());
                                    }
                                    _ => {}
                                }
                            }
                            idx += 1;
                            i += 1;
                        });
                    }
                }
                let _ = raw_union;
            }
        }
    }
    let structural = |m: &Model| {
        let all: Vec<&str> = PLACES.iter().flat_map(|p| reserved(*p).iter().copied()).chain(["order"]).collect();
        let mut found = m.proto.props.keys().any(|k| all.contains(&k.as_str()));
        for d in &m.defs {
            found |= d.props.keys().any(|k| all.contains(&k.as_str()));
            if let Kind::Record { fields, .. } = &d.kind {
                found |= fields.iter().any(|f| f.props.keys().any(|k| all.contains(&k.as_str())));
            }
        }
        found
    };
    ctx.nontrivial |= structural(&src_model);
    // Plain: exactly the annotations of the model, in a fixed order
    let src = render(t, &src_model, Style::Plain);
    ctx.show(&src);
    ctx.label(if reject.is_some() { "rejected" } else { "accepted" });
    let res = api::convert_quick(&src);
    match (res, reject) {
        (Err(_), Some(_)) => {
            if api::extract_quick(&src).is_ok() {
                return fail("refused by compilation but accepted by extraction");
            }
            Ok(())
        }
        (Ok(out), Some(why)) => fail(format!("{why} was accepted\n--- emitted ---\n{}", pretty(&out))),
        (Err(e), None) => fail(format!("a valid program was rejected: {e}")),
        (Ok(out), None) => (|| match &m.mode {
            Mode::Schema(main) => {
                let doc = read_schema(&out).map_err(|e| format!("the output is not a valid schema: {e}"))?;
                diff("main schema", main, &doc.root)?;
                same_defs(&emission_order(&m, &[]), &refs(&m), &doc.defs)
            }
            _ => same_protocol(&m, &refs(&m), &out),
        })()
        .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&out))),
    }
}

/// A reference as text, each part in backquotes.
fn ref_text(n: &str, ns: Option<&str>, short: bool) -> String {
    let simple_ok = ns_of(n) == ns && (short || ns.is_none());
    let txt = if simple_ok { simple_of(n).to_string() } else { n.to_string() };
    txt.split('.').map(|x| format!("`{x}`")).collect::<Vec<_>>().join(".")
}

fn special_aliases(t: &mut Tape, v: Value) -> Value {
    if t.coin() {
        return v;
    }
    let mut a = vec![];
    while t.more(a.len(), 3, 2, 3) {
        let s = if t.chance(1, 8) { leafish(t) } else { Value::from(*t.pick(&["old", "x.y.Old", "A", "record", "é"])) };
        if !a.contains(&s) {
            a.push(s);
        }
    }
    Value::Array(a)
}
fn leafish(t: &mut Tape) -> Value {
    match t.below(3) {
        0 => Value::from(1),
        1 => Value::Null,
        _ => Value::Array(vec!["old".into()]),
    }
}
fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array()?.iter().map(|x| x.as_str().map(|s| s.to_string())).collect()
}
