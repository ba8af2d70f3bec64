use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::tape::Tape;

pub static C01: Check = Check {
    id: "C01",
    rule: "a random protocol model (up to 9 types over several namespaces, messages, docs, annotations, defaults) is \
           written as IDL in a random spelling and compiled; the output is read by the harness's own Avro reader and \
           compared with the model. Non-trivial: at least two named types and one reference between declarations",
    quick: 102_000,
    thorough: 200_000,
    run,
    fixed: None,
    known: &[],
    budget: 5_000_000,
    assumptions: &["the independent Avro reader (spec.rs) and the model renderer (render.rs) are right"],
};

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: if t.chance(1, 4) { 9 } else { 5 }, ..Opts::default() };
    let m = model(t, &o);
    let style = [Style::Spelled, Style::Plain, Style::Wild][t.weighted(&[60, 15, 25])];
    let src = render(t, &m, style);
    ctx.show(&src);
    describe(&m, ctx);
    ctx.nontrivial = m.defs.len() >= 2 && n_refs(&m) >= 1;
    let c = api::convert_quick(&src);
    let json = c.map_err(|e| format!("a valid protocol was rejected: {e}"))?;
    same_protocol(&m, &refs(&m), &json).map_err(|e| format!("{e}\n--- emitted ---\n{}", pretty(&json)))
}
