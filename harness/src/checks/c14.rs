use super::common::*;
use crate::api::{self, Diag};
use crate::gen_::*;
use crate::jsonr::*;
use crate::mutate;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use miette::{GraphicalReportHandler, GraphicalTheme, JSONReportHandler, NarratableReportHandler, Report};

pub static C14: Check = Check {
    id: "C14",
    rule: "random valid programs of all forms damaged by token edits, text edits (quotes, escapes, comment marks, control characters, \
           multi-byte and combining characters), truncation and byte edits; token soup; nesting up to 300; imported IDL, protocol \
           and schema files damaged in the same ways or structurally (JSON); directories, missing and odd paths. Every entry point \
           (conversion and extraction of text, file and directory) must return; every report and warning must render with four \
           handlers, and its highlighted regions must lie inside their text on character boundaries. Non-trivial: some report or \
           warning was produced",
    quick: 90_000,
    thorough: 4_000_000,
    run,
    fixed: Some((FIXED.len() as u64, fixed)),
    known: &[],
    budget: 40_000_000,
    assumptions: &["nesting beyond 300 is outside the property (moderate nesting depth)"],
};

/// Inputs that once misbehaved, and corners.
const FIXED: &[&str] = &[
    "",
    "\u{feff}protocol P {}",
    "\u{1a}",
    "protocol P { /* ééééééé */ record A { int a; # } }",
    "protocol P { /* 日本日本 */ \"日本 record A { int a; } }",
    "protocol P { record A { int a; }",
    "protocol P { union { null, 日 } f(); ",
    "/**/ protocol P {} /**/",
    "protocol P { @a(\"\\ud800\") record A {} }",
    "protocol P { fixed A(日); }",
    "protocol P { enum 日 { é, } }",
    "protocol é日 { recrod é { int é } }",
    "protocol P { record 😀 { int a; } }",
    "protocol P {\r\n  é é é;\r\n#\r\n}",
    "protocol P { int `é` (); map<> x(); union {} y(); }",
    "namespace é; é",
    "schema",
    "schema é",
    "import idl",
    "/**",
    "/** é */ # é /** é */",
    "\"",
    "é\"",
    "`",
];

fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    let s = FIXED[i as usize];
    ctx.show(s);
    ctx.nontrivial = true;
    text_case(s, ctx)
}

/// Regions lie in the text, on character boundaries.
fn sound(d: &Diag, what: &str) -> Res {
    for (l, src) in d.all_labels() {
        let Some((name, text)) = src else {
            return fail(format!("{what}: a highlighted region without a text: {}", d.message));
        };
        let end = l.offset.checked_add(l.len);
        if end.is_none_or(|e| e > text.len()) {
            return fail(format!("{what}: region {}+{} outside the text of {name} ({} bytes): {}", l.offset, l.len, text.len(), d.message));
        }
        if !text.is_char_boundary(l.offset) || !text.is_char_boundary(l.offset + l.len) {
            return fail(format!("{what}: region {}+{} not on character boundaries of {name}: {}", l.offset, l.len, d.message));
        }
    }
    Ok(())
}

fn report(r: &Report, what: &str, ctx: &mut Ctx) -> Res {
    ctx.nontrivial = true;
    let mut out = String::new();
    if GraphicalReportHandler::new_themed(GraphicalTheme::unicode()).with_width(80).render_report(&mut out, r.as_ref()).is_err() {
        return fail(format!("{what}: cannot be rendered graphically: {r}"));
    }
    if out.trim().is_empty() {
        return fail(format!("{what}: rendered as nothing"));
    }
    let mut out = String::new();
    if NarratableReportHandler::new().render_report(&mut out, r.as_ref()).is_err() {
        return fail(format!("{what}: cannot be narrated: {r}"));
    }
    let mut out = String::new();
    if JSONReportHandler::new().render_report(&mut out, r.as_ref()).is_err() {
        return fail(format!("{what}: cannot be rendered as JSON: {r}"));
    }
    let dbg = format!("{r:?}");
    if dbg.contains("Failed to read contents for label") || out.contains("Failed to read contents for label") {
        return fail(format!("{what}: a label cannot be shown: {r}\n{dbg}"));
    }
    let d = api::diag(r);
    if d.rendered == "<<rendering failed>>" {
        return fail(format!("{what}: cannot be rendered: {r}"));
    }
    sound(&d, what)
}

fn finish<T>(r: miette::Result<T>, warnings: impl Fn(&T) -> Vec<&Report>, drained: Vec<Report>, what: &str, ctx: &mut Ctx) -> Result<bool, String> {
    let mut ok = true;
    match &r {
        Ok(v) => {
            for w in warnings(v) {
                report(w, &format!("{what}, warning"), ctx)?;
            }
        }
        Err(e) => {
            ok = false;
            report(e, &format!("{what}, error"), ctx)?;
        }
    }
    for w in &drained {
        report(w, &format!("{what}, drained warning"), ctx)?;
    }
    Ok(ok)
}

fn text_case(s: &str, ctx: &mut Ctx) -> Res {
    let mut i = avdl::Idl::new();
    let r = i.convert_str(api::leak(s));
    let a = finish(r, |o| o.warnings.iter().collect(), i.drain_warnings(), "compiling text", ctx)?;
    let mut i = avdl::Idl2Schemata::new();
    let r = i.extract_str_named(api::leak(s), "na\u{308}me 日.avdl");
    let b = finish(r, |o| o.warnings.iter().collect(), i.drain_warnings(), "extracting text", ctx)?;
    ctx.label_if(s.len() > 4096, "longer-than-4K");
    ctx.label(if a || b { "accepted" } else { "rejected" });
    Ok(())
}

fn path_case(p: &std::path::Path, dirs: &[std::path::PathBuf], ctx: &mut Ctx) -> Res {
    let mut i = avdl::Idl::new();
    for d in dirs {
        i.import_dir(d);
    }
    let r = i.convert(p);
    finish(r, |o| o.warnings.iter().collect(), i.drain_warnings(), "compiling a file", ctx)?;
    let mut i = avdl::Idl2Schemata::new();
    for d in dirs {
        i.import_dir(d);
    }
    let r = i.extract(p);
    let b = finish(r, |o| o.warnings.iter().collect(), i.drain_warnings(), "extracting a path", ctx)?;
    ctx.label(if b { "accepted" } else { "rejected" });
    Ok(())
}

/// Damaged IDL text.
pub fn idl_text(t: &mut Tape, ctx: &mut Ctx) -> String {
    match t.weighted(&[60, 15, 10, 15, 3]) {
        4 => {
            // long tokens and comments
            let long = |t: &mut Tape| {
                let p = *t.pick(&["a", "日", "é", "😀x", "a\u{301}", "ab ", "0", "\\\\", "\\u65e5"]);
                let pre = *t.pick(&["", "b", "bc", "bcd"]);
                format!("{pre}{}", p.repeat(1 + big(t) / p.len()))
            };
            let (mut a, mut b) = (long(t), long(t));
            let kind = t.below(10);
            if kind >= 7 {
                // many tokens: one report each is possible, every one as long as the line
                let cut = |s: &mut String| s.truncate((0..=1500.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap());
                cut(&mut a);
                cut(&mut b);
            }
            let id = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).collect::<String>();
            let body = match kind {
                0 => format!("record A {{ string s = \"{a}\"; @p(\"{b}\") int i; }}"),
                1 => format!("/* {a} */ record A {{ }} // {b}"),
                2 => format!("/** {a} */ record A {{ /** {b} */ int a; }} /** {a} */"),
                3 => format!("record x{} {{ int x{}; }}", id(&a), id(&b)),
                4 => format!("record `x{}` {{ `y{}` f; }}", id(&a), id(&b)),
                5 => format!("import idl \"{a}\";"),
                6 => format!("record A {{ int a = 1{}; }}", "0".repeat(b.len())),
                7 => format!("@aliases([\"{a}\"]) enum A {{ B }} {}", " \n".repeat(b.len())),
                8 => format!("record A {{ x.{a} a; {b} }}"),
                _ => format!("enum A {{ {} }}", (0..a.len()).map(|i| format!("B{i}")).collect::<Vec<_>>().join(",")),
            };
            let mut s = format!("protocol P {{ {body} }}");
            let k = t.weighted(&[60, 30, 10]);
            mutate::text(t, &mut s, k);
            ctx.label("long");
            s
        }
        0 => {
            let o = Opts { max_types: 4, mode: None, odd_names: t.chance(1, 4), ..Opts::default() };
            let m = model(t, &o);
            let style = if t.coin() { Style::Wild } else { Style::Spelled };
            let mut r = Rend::new(t, style);
            r.file(&m, &[]);
            let mut toks = std::mem::take(&mut r.toks);
            drop(r);
            let n = t.weighted(&[25, 35, 20, 10, 10]);
            mutate::tokens(t, &mut toks, n);
            let mut s = layout(t, &toks, style).0;
            let n = t.weighted(&[30, 35, 20, 15]);
            mutate::text(t, &mut s, n);
            ctx.label("damaged");
            s
        }
        1 => {
            // token soup
            let n = 1 + t.usize(25);
            let mut s = String::new();
            if t.coin() {
                s.push_str(*t.pick(&["protocol P { ", "schema ", "record R { ", "namespace a; ", "enum E { ", "@a("]));
            }
            for _ in 0..n {
                s.push_str(*t.pick(mutate::POOL));
                s.push_str(*t.pick(&[" ", "", "\n", "\r\n", "\t", " /*é*/ "]));
            }
            let k = t.weighted(&[50, 30, 20]);
            mutate::text(t, &mut s, k);
            ctx.label("soup");
            s
        }
        2 => {
            let n = 1 + t.usize(if ctx.thorough { 300 } else { 120 });
            let (a, m, b) = match t.below(8) {
                0 => ("array<", "int", ">"),
                1 => ("map<", "union{null,int}", ">"),
                2 => ("union{null,array<", "int", ">}"),
                3 => ("@x(1) array<", "string", "> "),
                4 => ("array<", "int", ">?"),
                5 => ("union{", "int", "}"),
                6 => ("map<", "", ""),
                _ => ("", "int", ">"),
            };
            let ty = format!("{}{m}{}", a.repeat(n), b.repeat(n));
            let j = match t.below(4) {
                0 => format!("{}1{}", "[".repeat(n), "]".repeat(n)),
                1 => format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)),
                2 => "[".repeat(n),
                _ => "1".into(),
            };
            ctx.label("nested");
            match t.below(4) {
                0 => format!("schema {ty};"),
                1 => format!("protocol P {{ record A {{ {ty} a = {j}; }} }}"),
                2 => format!("protocol P {{ @x({j}) record A {{ {ty} a; }} {ty} m({ty} b); }}"),
                _ => {
                    let deep = (0..n).map(|i| format!("record A{i} {{ A{} a; }}", i + 1)).collect::<Vec<_>>().join(" ");
                    format!("protocol P {{ {deep} record A{n} {{ {ty} a; }} }}")
                }
            }
        }
        _ => {
            let mut s = FIXED[t.usize(FIXED.len())].to_string();
            let k = 1 + t.usize(4);
            mutate::text(t, &mut s, k);
            ctx.label("corner");
            s
        }
    }
}

fn json_text(t: &mut Tape, ctx: &mut Ctx, proto: bool) -> String {
    let o = Opts { max_types: 4, mode: Some(0), ..Opts::default() };
    let mut m = model(t, &o);
    tame_model(&mut m);
    let mut v = if proto || m.defs.is_empty() {
        let p = Proto { name: "I".into(), ..m.proto.clone() };
        JsonR::new(t, m.defs.iter().collect()).protocol(&p)
    } else {
        let d = t.pick(&m.defs).clone();
        JsonR::new(t, m.defs.iter().collect()).def(&d, None)
    };
    for _ in 0..t.weighted(&[20, 40, 25, 15]) {
        crate::jsonr::mutate(t, &mut v);
    }
    let mut s = if t.chance(1, 12) {
        let n = 1 + t.usize(200);
        ctx.label("nested-json");
        format!("{}\"int\"{}", "{\"type\":\"array\",\"items\":".repeat(n), "}".repeat(n))
    } else {
        text(t, &v, Lay::Free, true)
    };
    let n = t.weighted(&[45, 30, 15, 10]);
    mutate::text(t, &mut s, n);
    s
}

fn bytes(t: &mut Tape, s: String) -> Vec<u8> {
    let mut b = s.into_bytes();
    if t.chance(1, 8) && !b.is_empty() {
        for _ in 0..1 + t.usize(4) {
            let i = t.usize(b.len());
            match t.below(3) {
                0 => b[i] = t.below(256) as u8,
                1 => b.insert(i, *t.pick(&[0xff, 0xc3, 0x80, 0xed, 0, 0xfe])),
                _ => {
                    b.remove(i);
                    if b.is_empty() {
                        break;
                    }
                }
            }
        }
    }
    b
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    match t.weighted(&[58, 27, 15]) {
        0 => {
            let s = idl_text(t, ctx);
            ctx.show(&s);
            text_case(&s, ctx)
        }
        1 => {
            let d = ctx.dir();
            let (kw, name, b) = match t.below(3) {
                0 => {
                    let s = idl_text(t, ctx);
                    ("idl", "i.avdl", bytes(t, s))
                }
                1 => {
                    let s = json_text(t, ctx, true);
                    ("protocol", "i.avpr", bytes(t, s))
                }
                _ => {
                    let s = json_text(t, ctx, false);
                    ("schema", "i.avsc", bytes(t, s))
                }
            };
            ctx.label(format!("import-{kw}"));
            ctx.show(format!("--- {name}\n{}", String::from_utf8_lossy(&b)));
            std::fs::write(d.join(name), &b).unwrap();
            // sometimes read as the wrong kind of file
            let kw = if t.chance(1, 12) { *t.pick(&["idl", "protocol", "schema"]) } else { kw };
            let pre = *t.pick(&["", "/* é😀 */ ", "@namespace(\"a.b\") "]);
            let main = match t.below(3) {
                0 => format!("{pre}protocol Main {{ import {kw} \"{name}\"; record Own {{ A a; }} }}"),
                1 => format!("import {kw} \"{name}\"; schema A;"),
                _ => format!("{pre}protocol Main {{ record A {{ int a; }} import {kw} \"{name}\"; void m(A a); }}"),
            };
            ctx.show(format!("--- m.avdl\n{main}"));
            std::fs::write(d.join("m.avdl"), main).unwrap();
            path_case(&d.join("m.avdl"), &[], ctx)
        }
        _ => {
            let d = ctx.dir();
            ctx.label("paths");
            let mut names = vec![];
            for i in 0..1 + t.usize(3) {
                let s = idl_text(t, ctx);
                let s = if t.chance(1, 3) { format!("import idl \"x{}.avdl\"; {s}", t.below(4)) } else { s };
                let b = bytes(t, s);
                let n = format!("{}x{i}.{}", t.pick(&["", "é", "sub/", "sub/日/"]), t.pick(&["avdl", "avdl", "avdl", "avpr", "txt", "AVDL"]));
                let p = d.join(&n);
                std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                ctx.show(format!("--- {n}\n{}", String::from_utf8_lossy(&b)));
                std::fs::write(&p, &b).unwrap();
                names.push(p);
            }
            if t.chance(1, 6) {
                std::fs::create_dir_all(d.join("dir.avdl")).unwrap();
            }
            if t.chance(1, 6) {
                let _ = std::os::unix::fs::symlink("nowhere", d.join("link.avdl"));
            }
            let p = match t.below(5) {
                0 | 1 => d.clone(),
                2 => t.pick(&names).clone(),
                3 => d.join("missing.avdl"),
                _ => d.join("sub"),
            };
            let dirs = if t.coin() { vec![d.join("sub"), d.join("none")] } else { vec![] };
            ctx.show(format!("path: {}", p.strip_prefix(&d).unwrap().display()));
            path_case(&p, &dirs, ctx)
        }
    }
}
