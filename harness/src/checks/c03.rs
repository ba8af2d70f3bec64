use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;

pub static C03: Check = Check {
    id: "C03",
    rule: "a random model in protocol, schema or bare form, in half of the cases with a first part of its types moved to an \
           imported IDL or JSON file, is extracted. Entries must be the declared types in order (for JSON imports: as a set), \
           each entry self-contained, every definition in it equal to the model's; in protocol form the compiled protocol's \
           definitions must be the same set. Non-trivial: at least two types and one reference",
    quick: 100_000,
    thorough: 700_000,
    run,
    fixed: None,
    known: &[],
    budget: 8_000_000,
    assumptions: &["the independent Avro reader (spec.rs) and the model renderer (render.rs) are right"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: if t.chance(1, 4) { 8 } else { 5 }, mode: None, ..Opts::default() };
    let mut m = model(t, &o);
    let style = [Style::Spelled, Style::Plain, Style::Wild][t.weighted(&[60, 15, 25])];
    let split = t.coin() && m.defs.len() >= 2;
    ctx.nontrivial = m.defs.len() >= 2 && n_refs(&m) >= 1;
    describe(&m, ctx);
    ctx.label(match m.mode {
        Mode::Protocol => "protocol",
        Mode::Schema(_) => "schema",
        Mode::Bare => "bare",
    });
    if !split {
        let src = render(t, &m, style);
        ctx.show(&src);
        let x = api::extract_quick(&src).map_err(|e| format!("valid IDL was rejected: {e}"))?;
        check(&m, &x, true)?;
        if m.mode == Mode::Protocol {
            let v = api::convert_quick(&src).map_err(|e| format!("valid IDL was rejected: {e}"))?;
            let doc = read_protocol(&v).map_err(|e| format!("the compiled protocol is invalid: {e}"))?;
            for d in &m.defs {
                match doc.defs.get(&d.full) {
                    Some(g) => same_def(d, g)?,
                    None => return fail(format!("compiled protocol lacks {}", d.full)),
                }
            }
            diff("number of compiled definitions", &m.defs.len(), &doc.defs.list.len())?;
        }
        return Ok(());
    }
    let json = t.coin();
    if json {
        tame_model(&mut m);
    }
    let k = 1 + t.usize(m.defs.len() - 1);
    // the first k types go to the imported file; it may refer to types of the importing one
    let (first, second) = (m.defs[..k].to_vec(), m.defs[k..].to_vec());
    let dir = ctx.dir();
    let (kind, name) = if json {
        let ns = m.proto.ns.clone();
        let p = Proto { name: "Imported".into(), ns, ..Proto::default() };
        let v = JsonR::new(t, first.iter().collect()).protocol(&p);
        let txt = text(t, &v, Lay::Free, true);
        std::fs::write(dir.join("i.avpr"), &txt).unwrap();
        ctx.show(format!("--- i.avpr\n{txt}"));
        ("protocol", "i.avpr")
    } else {
        let im = Model { mode: Mode::Bare, proto: Proto { ns: m.proto.ns.clone(), ..Proto::default() }, defs: first };
        let txt = render(t, &im, style);
        std::fs::write(dir.join("i.avdl"), &txt).unwrap();
        ctx.show(format!("--- i.avdl\n{txt}"));
        ("idl", "i.avdl")
    };
    let main = Model { mode: m.mode.clone(), proto: m.proto.clone(), defs: second };
    let mut r = Rend::new(t, style);
    r.file(&main, &[(0, kind.into(), name.into())]);
    let txt = r.finish().0;
    ctx.show(format!("--- main.avdl\n{txt}"));
    ctx.label(if json { "import-json" } else { "import-idl" });
    let f = dir.join("main.avdl");
    std::fs::write(&f, &txt).unwrap();
    let x = api::extract_path(&f, &[]).res.map_err(|e| format!("valid IDL was rejected: {}", e.all_text()))?;
    check(&m, &x, !json)
}

pub fn check(m: &Model, x: &[(String, serde_json::Value)], ordered: bool) -> Res {
    let mut want: Vec<String> = m.defs.iter().map(|d| d.full.clone()).collect();
    let mut got = vec![];
    for (n, v) in x {
        let doc = read_schema(v).map_err(|e| format!("entry `{n}` is not a complete schema: {e}\n{}", pretty(v)))?;
        let Sch::Named(full) = &doc.root else { return fail(format!("entry `{n}` is not a named type")) };
        diff("title of an entry", &simple_of(full).to_string(), n)?;
        got.push(full.clone());
        for g in &doc.defs.list {
            let Some(w) = m.get(&g.full) else { return fail(format!("entry `{n}` defines undeclared `{}`", g.full)) };
            same_def(w, g).map_err(|e| format!("in entry `{n}`: {e}\n{}", pretty(v)))?;
        }
        // exactly what the type reaches
        let sub = Model { mode: Mode::Schema(Sch::Named(full.clone())), proto: Proto::default(), defs: m.defs.clone() };
        diff(&format!("definitions in entry `{n}`"), &emission_order(&sub, &[]), &doc.defs.names())?;
    }
    if !ordered {
        want.sort();
        got.sort();
    }
    diff("entries", &want, &got)
}
