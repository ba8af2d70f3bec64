use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;

pub static C04: Check = Check {
    id: "C04",
    rule: "a random schema-mode file (optional namespace declaration, up to 6 named types, a main schema of any shape) is \
           compiled; the output, read by the independent reader, must denote the main type with exactly the reachable \
           types inlined at first use. One case in five is a file with bare declarations instead: a single document must \
           be refused, extraction must give its types. Non-trivial: the main type reaches a named type (or the file is bare)",
    quick: 160_000,
    thorough: 1_000_000,
    run,
    fixed: None,
    known: &[],
    budget: 5_000_000,
    assumptions: &["the independent Avro reader (spec.rs) and the model renderer (render.rs) are right"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let bare = t.chance(1, 5);
    let o = Opts { max_types: if t.chance(1, 4) { 8 } else { 4 }, mode: Some(if bare { 2 } else { 1 }), ..Opts::default() };
    let m = model(t, &o);
    let style = [Style::Spelled, Style::Plain, Style::Wild][t.weighted(&[60, 15, 25])];
    let src = render(t, &m, style);
    ctx.show(&src);
    describe(&m, ctx);
    let res = api::convert_quick(&src);
    if bare {
        ctx.label("bare");
        ctx.nontrivial = !m.defs.is_empty();
        if let Ok(v) = res {
            return fail(format!("a file without a main schema was compiled to {}", pretty(&v)));
        }
        if m.defs.is_empty() {
            return Ok(());
        }
        let x = api::extract_quick(&src).map_err(|e| format!("types of a bare file cannot be extracted: {e}"))?;
        let want: Vec<String> = m.defs.iter().map(|d| simple_of(&d.full).to_string()).collect();
        let got: Vec<String> = x.iter().map(|e| e.0.clone()).collect();
        return diff("extracted entries", &want, &got);
    }
    let Mode::Schema(main) = &m.mode else { return harness("mode") };
    let names = emission_order(&m, &[]);
    ctx.nontrivial = !names.is_empty();
    ctx.label(match main {
        Sch::Prim(_, p) if p.is_empty() => "main:primitive",
        Sch::Prim(..) => "main:annotated-primitive",
        Sch::Array(..) => "main:array",
        Sch::Map(..) => "main:map",
        Sch::Union(_) => "main:union",
        Sch::Named(_) => "main:named",
    });
    ctx.label_if(names.len() < m.defs.len(), "unreachable-types");
    let json = res.map_err(|e| format!("a valid schema file was rejected: {e}"))?;
    (|| {
        let doc = read_schema(&json).map_err(|e| format!("the output is not a valid schema: {e}"))?;
        diff("main schema", main, &doc.root)?;
        same_defs(&names, &refs(&m), &doc.defs)
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&json)))
}
