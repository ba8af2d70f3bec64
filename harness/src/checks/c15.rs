use super::c12::base;
use super::c14::idl_text;
use super::common::*;
use crate::api::*;
use crate::faults::*;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use avdl::{Idl, Idl2Schemata};
use std::path::PathBuf;

pub static C15: Check = Check {
    id: "C15",
    rule: "random sets of sources: valid programs of all forms, programs with one planted fault, several undefined names (also in \
           imported JSON), several invalid defaults, several warnings (stray docs, dropped annotations, odd aliases), damaged texts, \
           file graphs, directories and missing files. Each is compiled and extracted repeatedly by fresh builders (results, \
           warnings, errors and their rendering must be equal) and then in random histories of 2-8 calls on one builder, with \
           import directories added and warnings drained in between; each call must equal the same call on a fresh builder. A file and its three imports \
           are rewritten 1-3 times between calls: the result must be that of the same files in a new directory. \
           Non-trivial: some call fails or warns",
    quick: 15_000,
    thorough: 400_000,
    run,
    fixed: None,
    known: &[],
    budget: 120_000_000,
    assumptions: &["runs are repeated within one process; every hash map of the standard library is seeded differently there"],
};

#[derive(Clone, Debug)]
enum Input {
    Text(&'static str),
    Named(&'static str, &'static str),
    Path(PathBuf),
}

/// A text that gives several reports at once.
pub fn many(t: &mut Tape) -> String {
    let n = 2 + t.usize(4);
    let one = |t: &mut Tape, i: usize| -> String {
        match t.below(9) {
            0 => format!("record Zd{i} {{ int a = \"x\"; string b = 1; boolean c = {{}}; }}"),
            1 => format!("record Zr{i} {{ Za{i} a = 3; Zb b; Zc c; array<Zd> d; }}"),
            2 => format!("record Zu{i} {{ @a(1) @b(2) @c(3) @d(4) union {{ null, int }} a; }}"),
            3 => format!("@aliases([\"a-b\", \"c d\", \"\"]) record Zl{i} {{ int @aliases([\"x-y\"]) a; }}"),
            4 => format!("/** stray */ /** stray 2 */ enum Ze{i} {{ A, B /** stray 3 */ }}"),
            5 => format!("void zm{i}(Zx{i} a, Zy b, union {{ Zz, null }} c) throws Zw, Zq{i};"),
            6 => format!("record Zc{i} {{ int # a; string ~ b; }}"),
            // as near to one as to another
            7 => format!("fixed Account{i}a(1); fixed Account{i}b(2); fixed Account{i}c(3); record Zk{i} {{ Account{i} a; Accaunt{i}d b; strinf c; }}"),
            _ => format!("enum Zf{i} {{ A }} record Zg{i} {{ Zf{i} a = 1; Zf{i} b = []; union {{ null, Zf{i} }} c = 3; }}"),
        }
    };
    let body: Vec<String> = (0..n).map(|i| one(t, i)).collect();
    format!("protocol P {{ {} }}", body.join("\n"))
}

/// Sources up to 6 kB: each is compiled some twenty times, and the reports on it rendered (a message
/// that quotes a name of 20 000 characters takes a second to lay out).
pub fn source(t: &mut Tape, ctx: &mut Ctx) -> String {
    let s = any_source(t, ctx);
    if s.len() <= 6000 { s } else { many(t) }
}

fn any_source(t: &mut Tape, ctx: &mut Ctx) -> String {
    let style = if t.coin() { Style::Wild } else { Style::Spelled };
    match t.weighted(&[20, 18, 18, 22, 22]) {
        0 => {
            let m = base(t, true);
            render(t, &m, style)
        }
        1 => {
            let m = base(t, true);
            inject(t, &m, style, &[]).map(|f| f.text).unwrap_or_default()
        }
        2 => {
            let m = base(t, false);
            inject_undefined(t, &m, style, "A").map(|f| f.0).unwrap_or_default()
        }
        3 => many(t),
        _ => idl_text(t, ctx),
    }
}

fn inputs(t: &mut Tape, ctx: &mut Ctx) -> Vec<Input> {
    let d = ctx.dir();
    let mut v = vec![];
    for i in 0..1 + t.usize(3) {
        let s = source(t, ctx);
        match t.below(6) {
            0 => {
                ctx.show(format!("--- text\n{s}"));
                v.push(Input::Text(leak(&s)));
            }
            1 => {
                ctx.show(format!("--- text named x{i}\n{s}"));
                v.push(Input::Named(leak(&s), leak(&format!("x{i}"))));
            }
            k => {
                // a file, perhaps importing JSON with dangling names and a sibling
                let mut s = s;
                if k > 2 {
                    let mut imps = String::new();
                    let o = Opts { max_types: 3, mode: Some(0), odd_names: false, ..Opts::default() };
                    for j in 0..1 + t.usize(2) {
                        let mut m = model(t, &o);
                        tame_model(&mut m);
                        let proto = t.coin();
                        let mut r = JsonR::new(t, m.defs.iter().collect());
                        let valid = r.protocol(&Proto { name: "Other".into(), ..m.proto.clone() });
                        let mut js = valid.clone();
                        if t.chance(2, 3) {
                            for _ in 0..1 + t.usize(3) {
                                let (_, bad, _) = json_fault(t, &js, true);
                                js = bad;
                            }
                        }
                        let name = format!("i{i}{j}.{}", if proto { "avpr" } else { "avsc" });
                        let txt = if proto { js.to_string() } else { json_fault(t, &js, false).1.to_string() };
                        ctx.show(format!("--- {name}\n{txt}"));
                        std::fs::write(d.join(&name), txt).unwrap();
                        imps.push_str(&format!("import {} \"{name}\"; ", if proto { "protocol" } else { "schema" }));
                    }
                    if i > 0 && t.coin() {
                        imps.push_str(&format!("import idl \"m{}.avdl\"; ", t.usize(i)));
                    }
                    if t.chance(1, 3) {
                        imps.push_str("import idl \"only-in-dir.avdl\"; ");
                    }
                    s = match s.rfind('}') {
                        Some(p) if s.contains("protocol") => format!("{} {imps} {}", &s[..p], &s[p..]),
                        _ => format!("{imps} {s}"),
                    };
                }
                let p = d.join(format!("m{i}.avdl"));
                ctx.show(format!("--- m{i}.avdl\n{s}"));
                std::fs::write(&p, s).unwrap();
                v.push(Input::Path(p));
            }
        }
    }
    if t.chance(1, 3) {
        v.push(Input::Path(d.join("missing.avdl")));
    }
    if t.chance(1, 3) {
        v.push(Input::Path(d.clone()));
    }
    if t.chance(1, 4) {
        let e = d.join("empty");
        std::fs::create_dir_all(&e).unwrap();
        v.push(Input::Path(e));
    }
    v
}

fn conv(b: &mut Idl, i: &Input) -> miette::Result<avdl::IdlOutput> {
    match i {
        Input::Text(s) => b.convert_str(s),
        Input::Named(s, n) => b.convert_str_named(s, n),
        Input::Path(p) => b.convert(p),
    }
}
fn extr(b: &mut Idl2Schemata, i: &Input) -> miette::Result<avdl::SchemataOutput> {
    match i {
        Input::Text(s) => b.extract_str(s),
        Input::Named(s, n) => b.extract_str_named(s, n),
        Input::Path(p) => b.extract(p),
    }
}

/// A builder of either kind behind one interface.
enum B {
    C(Idl),
    X(Idl2Schemata),
}
#[derive(PartialEq, Debug, Clone)]
enum Out {
    C(Conv),
    X(Extr),
}
impl B {
    fn new(c: bool, dirs: &[PathBuf]) -> B {
        if c {
            let mut i = Idl::new();
            for d in dirs {
                i.import_dir(d);
            }
            B::C(i)
        } else {
            let mut i = Idl2Schemata::new();
            for d in dirs {
                i.import_dir(d);
            }
            B::X(i)
        }
    }
    fn add(&mut self, d: &PathBuf) {
        match self {
            B::C(b) => {
                b.import_dir(d);
            }
            B::X(b) => {
                b.import_dir(d);
            }
        }
    }
    fn call(&mut self, i: &Input, drain: bool) -> Out {
        match self {
            B::C(b) => {
                let r = conv(b, i);
                let w = if drain { b.drain_warnings() } else { vec![] };
                Out::C(fin_conv(r, w))
            }
            B::X(b) => {
                let r = extr(b, i);
                let w = if drain { b.drain_warnings() } else { vec![] };
                Out::X(fin_extr(r, w))
            }
        }
    }
}
impl Out {
    fn undrained(&self) -> Out {
        match self {
            Out::C(c) => Out::C(Conv { drained: vec![], ..c.clone() }),
            Out::X(c) => Out::X(Extr { drained: vec![], ..c.clone() }),
        }
    }
    fn show(&self) -> String {
        let part = |e: Option<&Diag>, ok: String, w: &[Diag], d: &[Diag]| {
            let mut s = match e {
                Some(e) => format!("error: {}", e.rendered),
                None => ok,
            };
            for x in w {
                s.push_str(&format!("\nwarning: {}", x.rendered));
            }
            for x in d {
                s.push_str(&format!("\ndrained: {}", x.rendered));
            }
            s
        };
        match self {
            Out::C(c) => part(c.res.as_ref().err(), c.res.as_ref().map(pretty).unwrap_or_default(), &c.warnings, &c.drained),
            Out::X(c) => part(c.res.as_ref().err(), format!("{:?}", c.res.as_ref().ok()), &c.warnings, &c.drained),
        }
    }
    fn quiet(&self) -> bool {
        match self {
            Out::C(c) => c.res.is_ok() && c.warnings.is_empty(),
            Out::X(c) => c.res.is_ok() && c.warnings.is_empty(),
        }
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let ins = inputs(t, ctx);
    let d = ctx.dir();
    let extra = d.join("extra");
    std::fs::create_dir_all(&extra).unwrap();
    std::fs::write(extra.join("only-in-dir.avdl"), "protocol X { record ZqExtra { int a; } /** stray */ }").unwrap();
    // repeated runs
    let mut fresh: Vec<[Out; 2]> = vec![];
    for (k, i) in ins.iter().enumerate() {
        let mut pair = vec![];
        for c in [true, false] {
            let first = B::new(c, &[]).call(i, true);
            for _ in 0..3 {
                let again = B::new(c, &[]).call(i, true);
                if again != first {
                    return fail(format!("input {k}: two runs differ\n--- first\n{}\n--- again\n{}", first.show(), again.show()));
                }
            }
            ctx.nontrivial |= !first.quiet();
            pair.push(first);
        }
        let [a, b] = <[Out; 2]>::try_from(pair).unwrap();
        fresh.push([a, b]);
    }
    // histories
    for c in [true, false] {
        let mut b = B::new(c, &[]);
        let mut dirs: Vec<PathBuf> = vec![];
        let mut log = vec![];
        for _ in 0..2 + t.usize(7) {
            if dirs.is_empty() && t.chance(1, 8) {
                b.add(&extra);
                dirs.push(extra.clone());
                log.push("add import directory".to_string());
                ctx.label("directory-added");
            }
            let k = t.usize(ins.len());
            let drain = t.chance(2, 3);
            log.push(format!("{} input {k}{}", if c { "convert" } else { "extract" }, if drain { ", drain" } else { "" }));
            let got = b.call(&ins[k], drain);
            let want = if dirs.is_empty() { fresh[k][!c as usize].clone() } else { B::new(c, &dirs).call(&ins[k], true) };
            let want = if drain { want } else { want.undrained() };
            if got != want {
                return fail(format!(
                    "history [{}]: the last call differs from the same call on a fresh builder\n--- fresh\n{}\n--- here\n{}",
                    log.join("; "),
                    want.show(),
                    got.show()
                ));
            }
            if drain {
                // a second drain is empty
                let w = match &mut b {
                    B::C(b) => b.drain_warnings(),
                    B::X(b) => b.drain_warnings(),
                };
                if !w.is_empty() {
                    return fail("draining twice gives warnings twice");
                }
            }
        }
        ctx.show(format!("history: {}", log.join("; ")));
    }
    // imported files change between runs
    if t.coin() {
        changed_files(t, ctx)?;
    }
    Ok(())
}

/// One process compiles a file, the files it imports (or it itself) change, and it compiles it
/// again: the result must be that of the same files elsewhere, never compiled before.
fn changed_files(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let d = ctx.dir();
    let (here, there) = (d.join("here"), d.join("there"));
    let mut texts: Vec<String> = vec![];
    let shared = t.coin();
    let (mut c, mut x) = (Idl::new(), Idl2Schemata::new());
    for round in 0..2 + t.usize(2) {
        for e in [&here, &there] {
            let _ = std::fs::remove_dir_all(e);
            std::fs::create_dir_all(e).unwrap();
        }
        if round == 0 {
            texts = vec![String::new(); 4];
        }
        let fresh = |t: &mut Tape, i: usize| -> String {
            let n = t.below(4);
            let warn = *t.pick(&["", "/** stray */"]);
            let bad = if t.chance(1, 6) { "Missing" } else { "int" };
            match i {
                0 => format!(
                    "protocol P {{ import idl \"a.avdl\"; import schema \"b.avsc\"; import protocol \"c.avpr\"; {warn} record Main{n} {{ {bad} f{n}; }} }}"
                ),
                1 => format!("protocol A {{ {warn} record InA{n} {{ {bad} f; }} void ma{n}(); }}"),
                2 => format!("{{\"type\":\"fixed\",\"name\":\"InB{n}\",\"size\":{n}}}"),
                _ => format!(
                    "{{\"protocol\":\"C\",\"types\":[{{\"type\":\"enum\",\"name\":\"InC\",\"symbols\":[\"S{n}\"]}}],\"messages\":{{\"mc{n}\":{{\"request\":[],\"response\":\"null\"}}}}}}"
                ),
            }
        };
        let all = round == 0;
        for i in 0..4 {
            if all || t.coin() {
                texts[i] = fresh(t, i);
            }
        }
        ctx.show(format!("--- round {round}\n{}", texts.join("\n")));
        for e in [&here, &there] {
            for (n, s) in ["m.avdl", "a.avdl", "b.avsc", "c.avpr"].iter().zip(&texts) {
                std::fs::write(e.join(n), s).unwrap();
            }
        }
        // a directory of another name for every round, so that nothing of it has been seen before
        let other = d.join(format!("there{round}"));
        std::fs::rename(&there, &other).unwrap();
        let blank = |s: String, p: &std::path::Path| s.replace(&p.display().to_string(), "<dir>");
        let one = |p: &std::path::Path, c: &mut Idl, x: &mut Idl2Schemata| -> (String, String) {
            let i = Input::Path(p.join("m.avdl"));
            let (rc, wc) = (conv(c, &i), c.drain_warnings());
            let (rx, wx) = (extr(x, &i), x.drain_warnings());
            let (a, b) = (fin_conv(rc, wc), fin_extr(rx, wx));
            let say = |d: &Diag| blank(format!("{} {:?} {:?}", d.message, d.chain, d.all_labels()), p);
            let show = |e: Result<String, Diag>, w: &[Diag], v: &[Diag]| {
                let mut s = match e {
                    Ok(s) => s,
                    Err(d) => format!("error {}", say(&d)),
                };
                for y in w.iter().chain(v) {
                    s.push_str(&format!("\nwarning {}", say(y)));
                }
                s
            };
            (show(a.res.map(|v| pretty(&v)), &a.warnings, &a.drained), show(b.res.map(|v| format!("{v:?}")), &b.warnings, &b.drained))
        };
        let got = if shared { one(&here, &mut c, &mut x) } else { one(&here, &mut Idl::new(), &mut Idl2Schemata::new()) };
        let want = one(&other, &mut Idl::new(), &mut Idl2Schemata::new());
        if got != want {
            return fail(format!("round {round}: the result is not that of the files as they are now\n--- elsewhere\n{}\n{}\n--- here\n{}\n{}", want.0, want.1, got.0, got.1));
        }
    }
    ctx.label("files-changed");
    Ok(())
}
