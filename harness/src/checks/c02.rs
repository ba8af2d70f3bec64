use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::mutate;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C02: Check = Check {
    id: "C02",
    rule: "random valid IDL files of all forms damaged by 0-4 token edits (deletions, copies, swaps, foreign tokens, odd \
           names), and IDL importing random valid JSON damaged by 0-3 structural edits. Every output of a compilation or \
           extraction that succeeds must be accepted by the independent Avro reader. Non-trivial: damaged and accepted",
    quick: 225_000,
    thorough: 2_000_000,
    run,
    fixed: None,
    known: &[],
    budget: 8_000_000,
    assumptions: &[
        "the independent Avro reader (spec.rs) is right",
        "a type of the null namespace may be mentioned by its bare name inside another namespace (Java's reading; Avro JSON has no other spelling)",
    ],
};

pub fn well_formed(v: &Value) -> Res {
    let e = match v.as_object() {
        Some(o) if o.contains_key("protocol") && o.contains_key("messages") => match read_protocol_null_ok(v) {
            Ok(_) => return Ok(()),
            Err(e) => e,
        },
        _ => String::new(),
    };
    match read_schema_null_ok(v) {
        Ok(_) => Ok(()),
        Err(e2) => fail(format!("accepted, but the output is not well-formed Avro: {}\n{}", if e.is_empty() { e2 } else { e }, pretty(v))),
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: 4, mode: None, docs: false, ..Opts::default() };
    let mut m = model(t, &o);
    if t.chance(2, 5) {
        return json_case(t, ctx, &mut m);
    }
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&m, &[]);
    let mut toks = std::mem::take(&mut r.toks);
    let n = t.weighted(&[10, 50, 25, 10, 5]);
    mutate::tokens(t, &mut toks, n);
    let src = layout(t, &toks, Style::Spelled).0;
    ctx.show(&src);
    ctx.label(format!("edits:{n}"));
    let c = api::convert_quick(&src);
    let x = api::extract_quick(&src);
    ctx.label(if c.is_ok() { "compiled" } else { "not-compiled" });
    if let Ok(v) = &c {
        well_formed(v)?;
    }
    ctx.nontrivial = n > 0 && (c.is_ok() || x.is_ok());
    if let Ok(x) = &x {
        for (k, v) in x {
            read_schema_null_ok(v).map_err(|e| format!("extracted entry `{k}` is not well-formed Avro: {e}\n{}", pretty(v)))?;
        }
    }
    Ok(())
}

fn json_case(t: &mut Tape, ctx: &mut Ctx, m: &mut Model) -> Res {
    tame_model(m);
    ctx.label("json-import");
    let dir = ctx.dir();
    let n = t.weighted(&[10, 50, 30, 10]);
    ctx.label(format!("edits:{n}"));
    let avpr = t.coin() || m.defs.is_empty();
    let mut v = if avpr {
        let p = Proto { name: "I".into(), ..m.proto.clone() };
        JsonR::new(t, m.defs.iter().collect()).protocol(&p)
    } else {
        let d = t.pick(&m.defs).clone();
        JsonR::new(t, m.defs.iter().collect()).def(&d, None)
    };
    for _ in 0..n {
        crate::jsonr::mutate(t, &mut v);
    }
    let (kind, name) = if avpr { ("protocol", "i.avpr") } else { ("schema", "i.avsc") };
    std::fs::write(dir.join(name), v.to_string()).unwrap();
    ctx.show(format!("--- {name}\n{}", pretty(&v)));
    let ns = namespace(t).map(|n| format!("@namespace(\"{n}\") ")).unwrap_or_default();
    let src = format!("{ns}protocol P {{ import {kind} \"{name}\"; record Own {{ int a; }} }}");
    ctx.show(format!("--- m.avdl\n{src}"));
    let f = dir.join("m.avdl");
    std::fs::write(&f, src).unwrap();
    let c = api::convert_file_quick(&f, &[]);
    ctx.label(if c.is_ok() { "compiled" } else { "not-compiled" });
    if let Ok(v) = &c {
        ctx.nontrivial = n > 0;
        well_formed(v)?;
        let x = api::extract_path(&f, &[]);
        if let Ok(x) = &x.res {
            for (k, v) in x {
                read_schema_null_ok(v).map_err(|e| format!("extracted entry `{k}` is not well-formed Avro: {e}\n{}", pretty(v)))?;
            }
        }
    }
    Ok(())
}
