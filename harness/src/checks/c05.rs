use super::c06::mentions_null_ns;
use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C05: Check = Check {
    id: "C05",
    rule: "a random protocol or schema file whose types share few simple names over few, nested namespaces (none included; \
           simple names equal namespace segments and keywords), in a third of the cases split over an imported IDL or JSON \
           file of another namespace, is written in two random spellings (dotted or short references, declarations, aliases, \
           namespace annotations). Both must denote the model and give identical output. A third text has one reference \
           to a name declared nowhere (wrong namespace, relative namespace, alias, other case) and must be rejected. \
           Non-trivial: two types share a simple name and something refers to one of them",
    quick: 68_000,
    thorough: 800_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &["the independent Avro reader (spec.rs) and the model renderer (render.rs) are right"],
};

const NAMES: &[&str] = &["A", "B", "a", "record"];
const NSS: &[&str] = &["a", "a.b", "A", "b", "a.A"];

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let schema = t.chance(1, 4);
    let o = Opts {
        max_types: if t.chance(1, 4) { 9 } else { 6 },
        mode: Some(schema as u8),
        docs: false,
        simple: NAMES,
        nss: NSS,
        ref_weight: 90,
        ..Opts::default()
    };
    let mut m = model(t, &o);
    tame_model(&mut m);
    if m.defs.is_empty() {
        return Ok(());
    }
    describe(&m, ctx);
    let mut simple: Vec<&str> = m.defs.iter().map(|d| simple_of(&d.full)).collect();
    simple.sort();
    let shared: Vec<String> = simple.windows(2).filter(|w| w[0] == w[1]).map(|w| w[0].to_string()).collect();
    let mut used = false;
    each_ref(&m, &mut |n| used |= shared.iter().any(|s| s == simple_of(n)));
    ctx.nontrivial = used;
    ctx.label_if(!shared.is_empty(), "shared-simple-name");
    ctx.label_if(m.ns().is_some() && m.defs.iter().any(|d| ns_of(&d.full).is_none()), "null-namespace-type-in-namespaced-file");
    if t.chance(1, 3) {
        split(t, ctx, &m)?;
    } else {
        let st = if t.coin() { Style::Plain } else { Style::Spelled };
        let a = render(t, &m, st);
        let b = render(t, &m, Style::Spelled);
        ctx.show(format!("--- first\n{a}\n--- second\n{b}"));
        let ja = api::convert_quick(&a).map_err(|e| format!("the first spelling was rejected: {e}"))?;
        meaning(&m, &ja)?;
        let jb = api::convert_quick(&b).map_err(|e| format!("the second spelling was rejected: {e}"))?;
        meaning(&m, &jb).map_err(|e| format!("second spelling: {e}"))?;
        let xa = api::extract_quick(&a).map_err(|e| format!("extraction of the first spelling was rejected: {e}"))?;
        let xb = api::extract_quick(&b).map_err(|e| format!("extraction of the second spelling was rejected: {e}"))?;
        diff("number of extracted schemata", &xa.len(), &xb.len())?;
        for ((n, v), (o, w)) in xa.iter().zip(&xb) {
            diff("extracted schema", n, o)?;
            let (v, w) = (read_schema(v)?, read_schema(w)?);
            diff(&format!("extracted schema {n}"), &v.root, &w.root)?;
            same_def_set(&v.defs.list.iter().collect::<Vec<_>>(), &w.defs)?;
        }
    }
    dangling(t, ctx, m)
}

fn each_ref(m: &Model, f: &mut dyn FnMut(&str)) {
    for d in &m.defs {
        if let Kind::Record { fields, .. } = &d.kind {
            fields.iter().for_each(|x| walk_names(&x.ty, f));
        }
    }
    for x in m.proto.messages.values() {
        walk_names(&x.response, f);
        x.request.iter().for_each(|y| walk_names(&y.ty, f));
        x.errors.iter().flatten().for_each(|y| walk_names(y, f));
    }
    if let Mode::Schema(s) = &m.mode {
        walk_names(s, f);
    }
}

fn meaning(m: &Model, out: &Value) -> Res {
    (|| match &m.mode {
        Mode::Schema(main) => {
            let doc = read_schema(out).map_err(|e| format!("the output is not a valid schema: {e}"))?;
            diff("main schema", main, &doc.root)?;
            same_defs(&emission_order(m, &[]), &refs(m), &doc.defs)
        }
        _ => same_protocol(m, &refs(m), out),
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(out)))
}

/// Types spread over an importing and an imported file.
fn split(t: &mut Tape, ctx: &mut Ctx, m: &Model) -> Res {
    let k = t.usize(m.defs.len() + 1);
    let (first, second) = (m.defs[..k].to_vec(), m.defs[k..].to_vec());
    let dir = ctx.dir();
    let ns = if t.chance(1, 3) { None } else { Some((*t.pick(NSS)).to_string()) };
    ctx.label("split");
    ctx.label_if(ns.is_none() && m.ns().is_some(), "imported-file-without-namespace");
    let other = Proto { name: "Other".into(), ns, ..Proto::default() };
    let kind = if t.coin() {
        let v = JsonR::new(t, first.iter().collect()).protocol(&other);
        let txt = text(t, &v, Lay::Plain, false);
        std::fs::write(dir.join("i"), &txt).unwrap();
        ctx.show(format!("--- i\n{txt}"));
        "protocol"
    } else {
        let mode = if t.coin() { Mode::Bare } else { Mode::Protocol };
        let im = Model { mode, proto: other, defs: first };
        let txt = render(t, &im, Style::Spelled);
        std::fs::write(dir.join("i"), &txt).unwrap();
        ctx.show(format!("--- i\n{txt}"));
        "idl"
    };
    let shell = Model { mode: m.mode.clone(), proto: m.proto.clone(), defs: second };
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&shell, &[(0, kind.into(), "i".into())]);
    let txt = r.finish().0;
    ctx.show(format!("--- main\n{txt}"));
    std::fs::write(dir.join("m.avdl"), &txt).unwrap();
    let out = api::convert_file_quick(&dir.join("m.avdl"), &[]).map_err(|e| format!("a valid program was rejected: {e}"))?;
    (|| match &m.mode {
        Mode::Schema(main) => {
            let doc = read_schema(&out).map_err(|e| format!("the output is not a valid schema: {e}"))?;
            diff("main schema", main, &doc.root)?;
            same_defs(&emission_order(m, &[]), &refs(m), &doc.defs)
        }
        _ => {
            if m.ns().is_some() && mentions_null_ns(m) {
                return harness("a message mentions a type it cannot spell");
            }
            let doc = read_protocol(&out).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
            same_head(&m.proto, &doc.proto)?;
            same_def_set(&refs(m), &doc.defs)?;
            same_messages(&m.proto, &doc.proto)
        }
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&out)))
}

/// One reference to a name that is not declared.
fn dangling(t: &mut Tape, ctx: &mut Ctx, mut m: Model) -> Res {
    let declared: Vec<String> = m.defs.iter().map(|d| d.full.clone()).collect();
    let mut cands: Vec<String> = vec![];
    for n in NAMES.iter().filter(|n| **n != "record") {
        cands.push((*n).to_string());
        for ns in NSS.iter().chain(&["zz", "b.a", "a.b.a"]) {
            cands.push(format!("{ns}.{n}"));
        }
    }
    for d in &m.defs {
        cands.extend(d.aliases.iter().cloned());
        let mut rest = d.full.as_str();
        while let Some(i) = rest.find('.') {
            rest = &rest[i + 1..];
            cands.push(rest.to_string());
        }
        cands.push(format!("{}.{}", d.full, simple_of(&d.full)));
        if let Some(ns) = m.proto.ns.as_deref() {
            cands.push(format!("{ns}.{}", d.full));
        }
    }
    cands.retain(|c| !declared.contains(c) && !RESERVED_WORDS.contains(&simple_of(c)));
    // the record (or the file's own scope) that holds the reference
    let recs: Vec<usize> = (0..m.defs.len()).filter(|i| matches!(m.defs[*i].kind, Kind::Record { .. })).collect();
    let msgs: Vec<String> = m.proto.messages.keys().cloned().collect();
    let place = t.weighted(&[if recs.is_empty() { 0 } else { 60 }, if msgs.is_empty() { 0 } else { 30 }, 10]);
    let ri = if place == 0 { *t.pick(&recs) } else { 0 };
    let scope = if place == 0 { ns_of(&m.defs[ri].full).map(|s| s.to_string()) } else { m.proto.ns.clone() };
    cands.retain(|c| spellable(c, scope.as_deref()));
    // half of the time: the simple name of a declared type, in the wrong namespace
    let near: Vec<String> = declared.iter().map(|d| join(scope.as_deref(), simple_of(d))).filter(|c| cands.contains(c)).collect();
    let bad = if !near.is_empty() && t.coin() {
        ctx.label("dangling:declared-in-another-namespace");
        t.pick(&near).clone()
    } else {
        if m.defs.iter().any(|d| d.aliases.iter().any(|a| cands.contains(a))) && t.coin() {
            let al: Vec<String> = m.defs.iter().flat_map(|d| d.aliases.iter()).filter(|a| cands.contains(a)).cloned().collect();
            ctx.label("dangling:alias");
            t.pick(&al).clone()
        } else {
            t.pick(&cands).clone()
        }
    };
    let n = Sch::Named(bad.clone());
    let none = Props::new();
    let ty = match t.below(5) {
        0 => Sch::Array(Box::new(n.clone()), none),
        1 => Sch::Map(Box::new(n.clone()), none),
        2 => Sch::Union(vec![Sch::Prim("null".into(), none), n.clone()]),
        _ => n.clone(),
    };
    let f = Fld { name: "dangling".into(), ty, default: None, order: "ascending".into(), aliases: vec![], doc: None, props: Props::new() };
    match place {
        0 => {
            if let Kind::Record { fields, .. } = &mut m.defs[ri].kind {
                let at = t.usize(fields.len() + 1);
                fields.insert(at, f);
            }
        }
        1 => {
            let k = t.pick(&msgs).clone();
            let x = m.proto.messages.get_mut(&k).unwrap();
            match t.below(3) {
                0 => x.request.push(f),
                1 if !x.oneway => {
                    x.response = f.ty;
                    x.props.clear();
                }
                _ if !x.oneway => x.errors.get_or_insert_with(Vec::new).push(n),
                _ => x.request.insert(0, f),
            }
        }
        _ => match &mut m.mode {
            Mode::Schema(s) => *s = f.ty,
            _ => {
                m.proto.messages.insert(
                    "danglingMessage".into(),
                    Msg {
                        request: vec![],
                        response: f.ty,
                        errors: None,
                        oneway: false,
                        doc: None,
                        props: Props::new(),
                    },
                );
            }
        },
    }
    let src = render(t, &m, Style::Spelled);
    ctx.show(format!("--- refers to undeclared {bad}\n{src}"));
    match api::convert_quick(&src) {
        Ok(v) => return fail(format!("the undeclared name `{bad}` was accepted:\n{}", pretty(&v))),
        Err(e) => ctx.label_if(!e.contains("ndefined"), "dangling:rejected-for-another-reason"),
    }
    if api::extract_quick(&src).is_ok() {
        return fail(format!("the undeclared name `{bad}` was accepted by extraction"));
    }
    Ok(())
}
