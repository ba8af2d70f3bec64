use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::{Value, json};

pub static C06: Check = Check {
    id: "C06",
    rule: "one random model; a part of its types (and possibly its messages) is moved to an imported file written as IDL, as \
           a protocol JSON file or as several schema JSON files in random legal JSON spellings (inline or by reference, \
           dotted or separate namespace, explicit defaults, shuffled members, escapes, comments), the rest stays in the \
           importing protocol. The output must denote the model. Then the output itself is imported into an empty protocol \
           of the same name: same definitions and messages again. Non-trivial: at least two imported types and one reference",
    quick: 120_000,
    thorough: 600_000,
    run,
    fixed: None,
    known: &[("dotted-name-and-namespace", dotted)],
    budget: 12_000_000,
    assumptions: &[
        "the independent Avro reader (spec.rs) and the model and JSON renderers are right",
        "floating-point numbers in imported JSON are restricted to those the JSON library reads exactly",
    ],
};

/// Importing JSON in which a dotted name comes with a namespace attribute.
fn dotted(ctx: &mut Ctx) -> bool {
    let d = ctx.dir();
    std::fs::write(d.join("i.avsc"), r#"{"type":"fixed","name":"a.b.C","namespace":"x.y","size":3}"#).unwrap();
    std::fs::write(d.join("m.avdl"), r#"protocol P { import schema "i.avsc"; }"#).unwrap();
    match api::convert_file_quick(&d.join("m.avdl"), &[]) {
        Ok(v) => read_protocol(&v).map(|p| p.defs.names() != vec!["a.b.C".to_string()]).unwrap_or(true),
        Err(_) => true,
    }
}

pub fn mentions_null_ns(m: &Model) -> bool {
    let mut hit = false;
    let mut look = |s: &Sch| walk(s, 0, &mut |x, _| hit |= matches!(x, Sch::Named(n) if ns_of(n).is_none()));
    for x in m.proto.messages.values() {
        look(&x.response);
        x.request.iter().for_each(|f| look(&f.ty));
        x.errors.iter().flatten().for_each(&mut look);
    }
    hit
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: if t.chance(1, 4) { 8 } else { 5 }, ..Opts::default() };
    let mut m = model(t, &o);
    tame_model(&mut m);
    describe(&m, ctx);
    let form = t.weighted(&[35, 35, 30]);
    let n = m.defs.len();
    let k = if t.chance(1, 3) { t.usize(n + 1) } else { n };
    let (first, second) = (m.defs[..k].to_vec(), m.defs[k..].to_vec());
    let msgs_there = form != 2 && t.coin();
    let file_ns = if msgs_there && mentions_null_ns(&m) {
        m.proto.ns.clone()
    } else if t.chance(1, 3) {
        namespace(t)
    } else {
        m.proto.ns.clone()
    };
    ctx.nontrivial = k >= 2 && n_refs(&m) >= 1;
    ctx.label(["as-idl", "as-avpr", "as-avsc"][form]);
    ctx.label_if(msgs_there && !m.proto.messages.is_empty(), "imported-messages");
    ctx.label_if(file_ns != m.proto.ns, "imported-file-has-other-namespace");
    ctx.label_if(k < n, "split-types");
    let dir = ctx.dir();
    let imsgs = if msgs_there { m.proto.messages.clone() } else { Default::default() };
    let other = Proto { name: "Other".into(), ns: file_ns, messages: imsgs, ..Proto::default() };
    let mut imports = vec![];
    let style = if t.chance(1, 4) { Style::Wild } else { Style::Spelled };
    let lay = [Lay::Plain, Lay::Free, Lay::Comments][t.below(3) as usize];
    match form {
        0 => {
            let im = Model { mode: Mode::Protocol, proto: other, defs: first };
            let txt = render(t, &im, style);
            std::fs::write(dir.join("i.avdl"), &txt).unwrap();
            ctx.show(format!("--- i.avdl\n{txt}"));
            imports.push((0, "idl".to_string(), "i.avdl".to_string()));
        }
        1 => {
            let mut r = JsonR::new(t, first.iter().collect());
            let v = r.protocol(&other);
            ctx.label_if(r.inline_in_messages, "definition-inside-message");
            let txt = text(t, &v, lay, true);
            std::fs::write(dir.join("i.avpr"), &txt).unwrap();
            ctx.show(format!("--- i.avpr\n{txt}"));
            imports.push((0, "protocol".to_string(), "i.avpr".to_string()));
        }
        _ => {
            let mut rest: Vec<&Def> = first.iter().collect();
            let mut done = Default::default();
            let mut no = 0;
            while !rest.is_empty() {
                let j = if t.coin() { t.usize(rest.len()) } else { 0 };
                let d = rest.remove(j);
                let mut r = JsonR::new(t, first.iter().collect());
                r.done = done;
                if r.done.contains(&d.full) {
                    done = r.done;
                    continue;
                }
                let mut v = r.def(d, None);
                done = r.done;
                match t.below(8) {
                    0 => v = json!(["null", v]),
                    1 => v = json!({"type": "array", "items": v}),
                    2 => v = json!({"type": "map", "values": v}),
                    _ => {}
                }
                let txt = text(t, &v, lay, true);
                let name = format!("s{no}.avsc");
                no += 1;
                std::fs::write(dir.join(&name), &txt).unwrap();
                ctx.show(format!("--- {name}\n{txt}"));
                imports.push((0, "schema".to_string(), name));
            }
        }
    }
    let mut shell = Model { mode: Mode::Protocol, proto: m.proto.clone(), defs: second };
    if msgs_there {
        shell.proto.messages.clear();
    }
    let mut r = Rend::new(t, style);
    r.file(&shell, &imports);
    let txt = r.finish().0;
    ctx.show(format!("--- m.avdl\n{txt}"));
    std::fs::write(dir.join("m.avdl"), &txt).unwrap();
    let out = api::convert_file_quick(&dir.join("m.avdl"), &[]).map_err(|e| format!("valid input was rejected: {e}"))?;
    meaning(&m, &out)?;

    // the output again
    if m.proto.ns.is_none() && mentions_null_ns(&m) {
        ctx.label("null-namespace-messages");
    }
    std::fs::write(dir.join("again.avpr"), out.to_string()).unwrap();
    let empty = Model {
        mode: Mode::Protocol,
        proto: Proto { name: m.proto.name.clone(), ns: m.proto.ns.clone(), ..Proto::default() },
        defs: vec![],
    };
    let mut r = Rend::new(t, Style::Plain);
    r.file(&empty, &[(0, "protocol".into(), "again.avpr".into())]);
    let txt = r.finish().0;
    std::fs::write(dir.join("r.avdl"), &txt).unwrap();
    let again = api::convert_file_quick(&dir.join("r.avdl"), &[])
        .map_err(|e| format!("the compiled output cannot be imported again: {e}\n{}", pretty(&out)))?;
    let mut m2 = m.clone();
    m2.proto.doc = None;
    m2.proto.props.clear();
    meaning(&m2, &again).map_err(|e| format!("after importing the compiled output: {e}"))
}

fn meaning(m: &Model, out: &Value) -> Res {
    (|| {
        let doc = read_protocol(out).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
        same_head(&m.proto, &doc.proto)?;
        same_def_set(&refs(m), &doc.defs)?;
        same_messages(&m.proto, &doc.proto)
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(out)))
}
