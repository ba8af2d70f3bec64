use super::c06::mentions_null_ns;
use super::common::*;
use crate::api;
use crate::faults::*;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::path::Path;

pub static C12: Check = Check {
    id: "C12",
    rule: "a random valid program (protocol, schema-mode or bare file, any spelling and layout) with exactly one planted fault of 20 \
           kinds in a random place (fields, parameters, results, throws, main schema, new or existing declarations, any nesting), in \
           the main file, in an imported IDL file (one or two steps away) or in imported protocol or schema JSON (also malformed or \
           unreadable files). Compiling and extracting must both fail. Without the fault the program must be accepted. Non-trivial: \
           the surrounding program has at least one named type",
    quick: 240_000,
    thorough: 1_500_000,
    run,
    fixed: None,
    known: &[],
    budget: 20_000_000,
    assumptions: &["the valid program around the fault is accepted (checked on the spot when a fault goes unnoticed)"],
};

pub fn base(t: &mut Tape, defaults: bool) -> Model {
    let o = Opts {
        max_types: if t.chance(1, 6) { 8 } else { 4 },
        mode: if t.chance(1, 3) { None } else { Some(0) },
        docs: t.chance(1, 3),
        props: t.chance(1, 3),
        odd_names: t.chance(1, 5),
        defaults,
        ..Opts::default()
    };
    model(t, &o)
}

/// The text with bytes that are no UTF-8 in a comment before, after or, if the text has a string, in it.
fn garbled(t: &mut Tape, text: &str) -> Vec<u8> {
    let bad: &[u8] = t.pick(&[&[0xff][..], &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xfe, 0xff]]);
    let quotes: Vec<usize> = text.match_indices('"').map(|x| x.0 + 1).collect();
    match t.below(3) {
        0 => [b"/* ", bad, b" */ ", text.as_bytes()].concat(),
        1 if !quotes.is_empty() => {
            let i = *t.pick(&quotes);
            [text[..i].as_bytes(), bad, text[i..].as_bytes()].concat()
        }
        _ => [text.as_bytes(), b"\n// ", bad, b"\n"].concat(),
    }
}

fn both(main: &Path, what: &str) -> Res {
    if let Ok(v) = api::convert_file_quick(main, &[]) {
        return fail(format!("{what}: compiled\n--- emitted ---\n{}", pretty(&v)));
    }
    let mut i = avdl::Idl2Schemata::new();
    if i.extract(main).is_ok() {
        return fail(format!("{what}: refused by compilation but accepted by extraction"));
    }
    Ok(())
}

/// A type declared in an imported file and again in the importing one.
fn cross_file(t: &mut Tape, ctx: &mut Ctx, style: Style) -> Res {
    let json = t.coin();
    let o = Opts { max_types: 4, mode: Some(0), odd_names: false, ..Opts::default() };
    let mut m = model(t, &o);
    tame_model(&mut m);
    if m.defs.is_empty() {
        ctx.label("no-room");
        return Ok(());
    }
    ctx.nontrivial = true;
    let full = m.defs[t.usize(m.defs.len())].full.clone();
    let d = ctx.dir();
    let (kw, file, txt) = if json {
        let p = Proto { name: "Other".into(), ns: m.proto.ns.clone(), ..Proto::default() };
        let mut r = JsonR::new(t, m.defs.iter().collect());
        let v = r.protocol(&p);
        ("protocol", "i.avpr", text(t, &v, Lay::Free, true))
    } else {
        let mut r = Rend::new(t, style);
        r.file(&m, &[]);
        ("idl", "i.avdl", r.finish().0)
    };
    ctx.label("kind:duplicate-type");
    ctx.label(if json { "in:two-files-json" } else { "in:two-files-idl" });
    ctx.show(format!("--- {file}\n{txt}"));
    std::fs::write(d.join(file), txt).unwrap();
    let ns = ns_of(&full).map(str::to_string);
    let name = simple_of(&full).to_string();
    let decl = |ns: Option<&str>| {
        let n = ns.map(|n| format!("@namespace(\"{n}\") ")).unwrap_or_default();
        [format!("{n}record `{name}` {{ int a; }}"), format!("{n}enum `{name}` {{ A }}"), format!("{n}fixed `{name}`(2);"), format!("{n}error `{name}` {{ }}")]
    };
    let decl = decl(ns.as_deref())[t.usize(4)].clone();
    let imp = format!("import {kw} \"{file}\";");
    // types of imported JSON that are already known are skipped by design
    let body = if json || t.coin() { format!("{imp} {decl}") } else { format!("{decl} {imp}") };
    let main = format!("protocol Main {{ {body} }}");
    ctx.show(format!("--- m.avdl\n{main}"));
    std::fs::write(d.join("m.avdl"), main).unwrap();
    both(&d.join("m.avdl"), "duplicate-type")
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let style = if t.chance(1, 3) { Style::Wild } else { Style::Spelled };
    match t.weighted(&[65, 12, 23]) {
        0 => {
            let m = base(t, true);
            ctx.nontrivial = !m.defs.is_empty();
            let Some(f) = inject(t, &m, style, &[]) else {
                ctx.label("no-room");
                return Ok(());
            };
            ctx.label(format!("kind:{}", f.kind));
            ctx.label(format!("place:{}", f.place));
            ctx.label("in:main");
            ctx.show(&f.text);
            if let Ok(v) = api::convert_quick(&f.text) {
                return fail(format!("{}: compiled\n--- emitted ---\n{}", f.kind, pretty(&v)));
            }
            if api::extract_quick(&f.text).is_ok() {
                return fail(format!("{}: accepted by extraction", f.kind));
            }
            Ok(())
        }
        1 if t.chance(1, 4) => cross_file(t, ctx, style),
        1 => {
            let m = base(t, true);
            ctx.nontrivial = !m.defs.is_empty();
            let Some(f) = inject(t, &m, style, &[]) else {
                ctx.label("no-room");
                return Ok(());
            };
            ctx.label(format!("kind:{}", f.kind));
            ctx.label("in:imported-idl");
            let d = ctx.dir();
            let mut kind = f.kind;
            if t.chance(1, 12) {
                kind = "unreadable";
                ctx.label("not-utf8");
                let text = render(t, &m, style);
                let bytes = garbled(t, &text);
                ctx.show(format!("--- i.avdl\n{}", String::from_utf8_lossy(&bytes)));
                std::fs::write(d.join("i.avdl"), bytes).unwrap();
            } else {
                std::fs::write(d.join("i.avdl"), &f.text).unwrap();
                ctx.show(format!("--- i.avdl\n{}", f.text));
            }
            if kind == "unreadable" && t.chance(1, 3) {
                ctx.label("main-unreadable");
                return both(&d.join("i.avdl"), kind);
            }
            let mut imp = "i.avdl";
            if t.coin() {
                std::fs::write(d.join("j.avdl"), "protocol J { import idl \"i.avdl\"; }").unwrap();
                imp = "j.avdl";
                ctx.label("two-steps");
            }
            let txt = importer(t, &format!("import idl \"{imp}\";"), m.proto.messages.keys());
            ctx.show(format!("--- m.avdl\n{txt}"));
            std::fs::write(d.join("m.avdl"), txt).unwrap();
            both(&d.join("m.avdl"), kind)
        }
        _ => {
            let o = Opts { max_types: 4, mode: Some(0), odd_names: false, ..Opts::default() };
            let mut m = model(t, &o);
            tame_model(&mut m);
            ctx.nontrivial = !m.defs.is_empty();
            let proto = t.coin();
            let d = ctx.dir();
            let other = Proto {
                name: "Other".into(),
                ns: m.proto.ns.clone(),
                messages: if mentions_null_ns(&m) { Default::default() } else { m.proto.messages.clone() },
                ..Proto::default()
            };
            let mut r = JsonR::new(t, m.defs.iter().collect());
            let valid = r.protocol(&other);
            let (kind, v, _) = json_fault(t, &valid, proto);
            let mut txt = text(t, &v, Lay::Free, true);
            let mut kind = kind;
            let ext = if proto { "avpr" } else { "avsc" };
            let kw = if proto { "protocol" } else { "schema" };
            let file = d.join(format!("i.{ext}"));
            if t.chance(1, 6) {
                kind = "unreadable";
                match t.below(6) {
                    0 => txt = valid.to_string()[..valid.to_string().len() - 1].to_string(),
                    1 => txt = format!("{valid} x"),
                    2 => txt = String::new(),
                    3 => txt = (*t.pick(&["42", "null", "true", "\"Missing.zq\"", "{}", "[", "{\"type\":\"zq\"}", "{\"type\":\"record\"}"])).to_string(),
                    4 => {
                        std::fs::create_dir(&file).unwrap();
                        txt = String::new();
                    }
                    _ => {
                        // no text, in a place that otherwise would not matter
                        let text = if proto { valid.to_string() } else { valid["types"].to_string() };
                        std::fs::write(&file, garbled(t, &text)).unwrap();
                        txt = String::new();
                    }
                }
            }
            if !file.exists() {
                std::fs::write(&file, &txt).unwrap();
            }
            ctx.label(format!("kind:{kind}"));
            ctx.label(format!("in:imported-{ext}"));
            ctx.show(format!("--- i.{ext}\n{txt}"));
            let ns = if t.coin() { "@namespace(\"org.main\") " } else { "" };
            let mut main = importer(t, &format!("import {kw} \"i.{ext}\";"), other.messages.keys());
            if main.starts_with("protocol") {
                main = format!("{ns}{main}");
            }
            ctx.show(format!("--- m.avdl\n{main}"));
            std::fs::write(d.join("m.avdl"), main).unwrap();
            both(&d.join("m.avdl"), kind)
        }
    }
}
