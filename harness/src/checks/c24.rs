use super::common::*;
use crate::alloc;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::tape::Tape;
use avdl::{Idl, Idl2Schemata};
use std::path::Path;

pub static C24: Check = Check {
    id: "C24",
    rule: "random program families with a size parameter n, compiled and extracted at n and 2n: a random program repeated n times with \
           links between the copies; chains, trees and lattices of references (forward or backward, with defaults, in IDL, .avpr or .avsc); \
           import chains, stars and lattices; long unions, enums, messages, docs, literals, annotations; nested types and JSON; nested defaults \
           against unions of mutually recursive records; many errors and warnings. The number and total size of allocations at 2n must be at most 6 times those at n (cubic growth would give 8), \
           and processor time must stay below 5 s. Non-trivial: at least 2000 allocations at n",
    quick: 4_500,
    thorough: 30_000,
    run,
    fixed: None,
    known: &[],
    budget: 400_000_000,
    assumptions: &["allocations are taken as a measure of work; loops that allocate nothing are only bounded by processor time"],
};

type Files = Vec<(String, String)>;

fn ladder(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    // records each referring k times to earlier or later ones
    let k = 1 + t.usize(3);
    let form = t.below(4);
    let backward = t.coin();
    let default = t.below(4);
    let wrap = t.below(4);
    let spread = 1 + t.usize(3);
    let root = t.coin();
    let main_schema = t.chance(1, 4);
    move |n| {
        let mut recs = vec![];
        for i in 0..n {
            let mut fs = vec![];
            let mut js = vec![];
            for j in 0..k {
                let to = i + 1 + j % spread;
                if to >= n {
                    continue;
                }
                let (ty, jt) = match wrap {
                    1 => (format!("array<R{to}>"), format!("{{\"type\":\"array\",\"items\":\"R{to}\"}}")),
                    2 => (format!("union {{ null, R{to} }}"), format!("[\"null\",\"R{to}\"]")),
                    3 => (format!("map<union {{ R{to}, null }}>"), format!("{{\"type\":\"map\",\"values\":[\"R{to}\",\"null\"]}}")),
                    _ => (format!("R{to}"), format!("\"R{to}\"")),
                };
                let d = match (default, wrap) {
                    (0, _) => None,
                    (_, 0) => Some("{}"),
                    (_, 1) => Some("[]"),
                    (_, 2) => Some("null"),
                    _ => Some("{}"),
                };
                fs.push(format!("{ty} f{j}{};", d.map(|d| format!(" = {d}")).unwrap_or_default()));
                js.push(format!("{{\"name\":\"f{j}\",\"type\":{jt}{}}}", d.map(|d| format!(",\"default\":{d}")).unwrap_or_default()));
            }
            if root {
                fs.push("int z = 0;".into());
                js.push("{\"name\":\"z\",\"type\":\"int\",\"default\":0}".into());
            }
            recs.push((
                format!("record R{i} {{ {} }}", fs.join(" ")),
                format!("{{\"type\":\"record\",\"name\":\"R{i}\",\"fields\":[{}]}}", js.join(",")),
            ));
        }
        if backward {
            recs.reverse();
        }
        let idl: Vec<&str> = recs.iter().map(|r| r.0.as_str()).collect();
        let json: Vec<&str> = recs.iter().map(|r| r.1.as_str()).collect();
        match form {
            0 | 1 if main_schema => vec![("m.avdl".into(), format!("schema R0;\n{}", idl.join("\n")))],
            0 | 1 => vec![("m.avdl".into(), format!("protocol P {{\n{}\nR0 m(R0 a, array<R0> b); }}", idl.join("\n")))],
            2 => vec![
                ("m.avdl".into(), "protocol P { import protocol \"i.avpr\"; record M { R0 a; } }".into()),
                ("i.avpr".into(), format!("{{\"protocol\":\"Q\",\"types\":[{}],\"messages\":{{}}}}", json.join(",\n"))),
            ],
            _ => vec![
                ("m.avdl".into(), "schema R0; import schema \"i.avsc\";".into()),
                ("i.avsc".into(), format!("[{}]", json.join(",\n"))),
            ],
        }
    }
}

fn imports(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    // files each importing k others
    let k = 1 + t.usize(3);
    let shape = t.below(3);
    let json = t.chance(1, 3);
    let msgs = t.coin();
    let warn = t.coin();
    let back = t.chance(1, 3);
    let types = 1 + t.usize(3);
    move |n| {
        let mut out = vec![];
        for i in 0..n {
            let mut s = String::new();
            let mut imp = |j: usize| {
                if j < n {
                    s.push_str(&format!("import idl \"f{j}.avdl\";\n"));
                }
            };
            match shape {
                0 => (1..=k).for_each(|j| imp(i + j)),
                1 if i == 0 => (1..n).for_each(&mut imp),
                1 => imp(0),
                _ => (1..=k).for_each(|j| imp(i * k + j)),
            }
            if back && i > 0 {
                imp(i - 1);
                imp(0);
            }
            if json {
                s.push_str(&format!("import schema \"j{i}.avsc\";\n"));
                out.push((format!("j{i}.avsc"), format!("{{\"type\":\"enum\",\"name\":\"J{i}\",\"symbols\":[\"A\"]}}")));
            }
            for j in 0..types {
                s.push_str(&format!("record T{i}x{j} {{ int a; {} }}\n", if warn { "/** stray */" } else { "" }));
            }
            if msgs {
                s.push_str(&format!("void m{i}(T{i}x0 a, int b = 3);\n"));
            }
            out.push((format!("f{i}.avdl"), format!("protocol P{i} {{ {s} }}")));
        }
        out.push(("m.avdl".into(), "schema T0x0; import idl \"f0.avdl\";".into()));
        out
    }
}

fn long(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    let kind = t.below(24);
    let c = *t.pick(&["a", "é", "x ", "\\n", "* "]);
    move |n| {
        let each = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>();
        let p = |s: String| vec![("m.avdl".to_string(), format!("protocol P {{ {s} }}"))];
        match kind {
            0 => p(format!(
                "{} record U {{ union {{ null, {} }} a = null; }}",
                each(&|i| format!("record B{i} {{ }}")).join("\n"),
                each(&|i| format!("B{i}")).join(", ")
            )),
            1 => p(format!("enum E {{ {} }} = S0; record R {{ E e = \"S{}\"; }}", each(&|i| format!("S{i}")).join(", "), n - 1)),
            2 => p(format!("record R {{ {} }}", each(&|i| format!("int f{i} = {i};")).join("\n"))),
            3 => p(format!("record R {{ int {}; }}", each(&|i| format!("f{i} = {i}")).join(", "))),
            4 => p(format!("error X {{ }} {}", each(&|i| format!("int m{i}(int a, X b) throws X;")).join("\n"))),
            5 => p(format!("error X {{ }} void m({}) throws {};", each(&|i| format!("int a{i}")).join(", "), vec!["X"; n].join(", "))),
            6 => p(format!("/** {} */ record R {{ }}", each(&|i| format!("\n * {c} line {i}")).concat())),
            7 => p(format!("/** {} */ record R {{ }}", each(&|i| format!("\n     {c} line {i}")).concat())),
            8 => p(format!("{} record R {{ }}", each(&|i| format!("/** stray {i} */")).join("\n"))),
            9 => p(format!("{} record R {{ }}", each(&|i| format!("@p{i}(\"{}\")", c.replace('*', ""))).join(" "))),
            10 => p(format!("@p([{}]) record R {{ }}", each(&|i| format!("{{\"k{i}\": [{i}, 0.5]}}")).join(","))),
            11 => p(format!("@p(\"{}\") record R {{ string s = \"{}\"; }}", c.repeat(20 * n), c.repeat(20 * n))),
            12 => p(format!("record R{} {{ int f{}; }}", "a".repeat(10 * n), "b".repeat(10 * n))),
            13 => p(format!("record {}.R {{ }}", vec!["a"; 4 * n].join("."))),
            14 => p(format!("// {}\n/* {} */ record R {{ }}", c.repeat(20 * n), "* ".repeat(10 * n))),
            15 => p(each(&|i| format!("record R{i} {{ Missing{i} a; }}")).join("\n")),
            16 => p(each(&|i| format!("record R{i} {{ int a = \"x\"; string b = 1; }}")).join("\n")),
            17 => p(each(&|i| format!("record R{i} {{ int # a; }}")).join("\n")),
            18 => p(format!("record R {{ {}", each(&|i| format!("{{ int a{i} ;")).join("\n"))),
            19 => p(each(&|i| format!("recrod R{i} {{ int a; }}")).join("\n")),
            20 => p(each(&|i| format!("record R{i} {{ @a(1) @b(2) union {{ null, int }} a; @aliases([\"x-{i}\"]) int b; }}")).concat()),
            21 => p(format!("@aliases([{}]) record R {{ }}", each(&|i| format!("\"A{i}\"")).join(","))),
            22 => p(format!("record R {{ array<R> a = [{}]; map<int> b = {{ {} }}; }}", vec!["{\"a\": [], \"b\": {}}"; n].join(","), each(&|i| format!("\"k{i}\": {i}")).join(","))),
            _ => p(format!("{} record R {{ }}", ";".repeat(n))),
        }
    }
}

fn nested(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    let kind = t.below(8);
    let leaf = *t.pick(&["int", "R", "union { null, R }", "date", "decimal(5,2)"]);
    let leaf = if kind == 4 { "R" } else { leaf };
    move |n| {
        let p = |s: String| vec![("m.avdl".to_string(), format!("protocol P {{ record R {{ int z = 0; }} {s} }}"))];
        let wrap = |a: &str, x: &str, b: &str| format!("{}{x}{}", a.repeat(n), b.repeat(n));
        match kind {
            0 => p(format!("record N {{ {} f; }}", wrap("array<", leaf, ">"))),
            1 => p(format!("record N {{ {} f; }}", wrap("map<", leaf, ">"))),
            2 => p(format!("record N {{ {} f; }}", wrap("array<union { null, ", leaf, " }>"))),
            3 => p(format!("@p({}) record N {{ }}", wrap("[", "1", "]"))),
            4 => p(format!("record N {{ {} f = {}; }}", wrap("array<", leaf, ">"), wrap("[", "{}", "]"))),
            5 => p(format!("@p({}) record N {{ }}", wrap("{\"a\": ", "1", "}"))),
            6 => vec![
                ("m.avdl".into(), "protocol P { import schema \"i.avsc\"; }".into()),
                ("i.avsc".into(), wrap("{\"type\":\"array\",\"items\":", "\"int\"", "}")),
            ],
            _ => {
                let mut s = "\"int\"".to_string();
                for i in 0..n.min(40) {
                    s = format!(
                        "{{\"type\":\"record\",\"name\":\"N{i}\",\"fields\":[{{\"name\":\"a\",\"type\":{s}}},{{\"name\":\"b\",\"type\":[\"null\",\"N{i}\"],\"default\":null}}]}}"
                    );
                }
                vec![("m.avdl".into(), "schema N1; import schema \"i.avsc\";".into()), ("i.avsc".into(), s)]
            }
        }
    }
}

/// One default value nested n deep, to be held against unions of records whose
/// fields are again unions of those records.
fn defaults(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    let k = 2 + t.usize(3);
    let alt: Vec<bool> = (0..k).map(|_| t.coin()).collect();
    let leaf = *t.pick(&["{\"z\": 1}", "{}", "{\"a\": 1}", "null", "\"x\"", "{\"a\": {}}"]);
    let wrap = t.below(4);
    let place = t.below(3);
    let null = t.coin();
    let two = t.chance(1, 3);
    move |n| {
        let mut u: Vec<String> = (0..k).map(|i| format!("R{i}")).collect();
        if null {
            u.insert(0, "null".into());
        }
        let u = format!("union {{ {} }}", u.join(", "));
        let (ty, open, close) = match wrap {
            1 => (format!("array<{u}>"), "[", "]"),
            2 => (format!("map<{u}>"), "{\"k\": ", "}"),
            _ => (u.clone(), "", ""),
        };
        let mut s = String::new();
        for (i, a) in alt.iter().enumerate() {
            // the records differ in a field the value may lack
            s.push_str(&format!("record R{i} {{ {ty} a; int z{}; }}\n", if *a { " = 0" } else { "" }));
        }
        let n = if two { n / 2 } else { n };
        let mut v = leaf.to_string();
        for i in 0..n {
            v = if two && i < 3 {
                format!("{{\"a\": {open}{v}{close}, \"z\": 1}}")
            } else {
                format!("{{\"a\": {open}{v}{close}}}")
            };
        }
        s.push_str(&match place {
            0 => format!("record M {{ {u} f = {v}; }}"),
            1 => format!("void m(R0 f = {v});"),
            _ => format!("record M {{ R0 f = {v}; array<{u}> g = [{v}]; }}"),
        });
        vec![("m.avdl".to_string(), format!("protocol P {{ {s} }}"))]
    }
}

/// A random protocol body repeated, each copy linked to the one before.
fn copies(t: &mut Tape) -> impl Fn(usize) -> Files + use<> {
    let o = Opts { max_types: 4, prefix: "Q7Z".into(), msg_prefix: "q7z".into(), odd_names: false, ..Opts::default() };
    let mut m = model(t, &o);
    m.proto.doc = None;
    m.proto.props.clear();
    m.proto.ns = None;
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&m, &[]);
    let toks = std::mem::take(&mut r.toks);
    drop(r);
    let from = toks.iter().position(|k| k.text == "{").unwrap();
    let body: Vec<String> = toks[from + 1..toks.len() - 1].iter().map(|k| k.text.clone()).collect();
    let body = body.join(" ").replace("// ", "//").replace("\r", "\n");
    let links: Vec<(String, bool)> = m.defs.iter().map(|d| (d.full.clone(), t.coin())).collect();
    let twice = t.coin();
    let default = t.coin();
    move |n| {
        let mut s = String::new();
        for i in 0..n {
            s.push_str(&body.replace("Q7Z", &format!("Q{i}Z")).replace("q7z", &format!("q{i}z")));
            let mut fs = vec![];
            if i > 0 {
                let d = if default { " = null" } else { "" };
                for (j, (l, used)) in links.iter().enumerate() {
                    if *used {
                        fs.push(format!("union {{ null, {} }} l{j}{d};", l.replace("Q7Z", &format!("Q{}Z", i - 1))));
                    }
                }
                fs.push(format!("Link{} a;", i - 1));
                if twice {
                    fs.push(format!("union {{ null, Link{} }} b{d};", i - 1));
                }
            }
            s.push_str(&format!("\nrecord Link{i} {{ {} }}\n", fs.join(" ")));
        }
        vec![("m.avdl".into(), format!("protocol P {{ {s} }}"))]
    }
}

struct Cost {
    count: u64,
    bytes: u64,
    cpu: f64,
    ok: bool,
}
fn measure(dir: &Path, f: &Files, extract: bool) -> Cost {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir).unwrap();
    for (n, s) in f {
        std::fs::write(dir.join(n), s).unwrap();
    }
    let p = dir.join("m.avdl");
    let (c0, b0, t0) = (alloc::count(), alloc::bytes(), alloc::cpu());
    let ok = if extract {
        let mut x = Idl2Schemata::new();
        let r = x.extract(&p);
        let ok = r.is_ok();
        let _ = r.map_err(|e| format!("{e:?}"));
        drop(x.drain_warnings());
        ok
    } else {
        let mut x = Idl::new();
        let r = x.convert(&p);
        let ok = r.is_ok();
        let _ = r.map_err(|e| format!("{e:?}"));
        drop(x.drain_warnings());
        ok
    };
    Cost { count: alloc::count() - c0, bytes: alloc::bytes() - b0, cpu: alloc::cpu() - t0, ok }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    t.narrow();
    let (name, lo, hi): (&str, usize, usize) = *t.pick(&[("ladder", 20, 70), ("imports", 8, 30), ("long", 60, 400), ("nested", 15, 55), ("copies", 5, 25), ("defaults", 8, 40)]);
    let fam: Box<dyn Fn(usize) -> Files> = match name {
        "ladder" => Box::new(ladder(t)),
        "imports" => Box::new(imports(t)),
        "long" => Box::new(long(t)),
        "nested" => Box::new(nested(t)),
        "defaults" => Box::new(defaults(t)),
        _ => Box::new(copies(t)),
    };
    let n = lo + t.usize(hi - lo);
    let dir = ctx.dir();
    let (a, b) = (fam(n), fam(2 * n));
    let small = fam(2);
    ctx.show(format!("family {name}, n = {n}; at n = 2:"));
    for (f, s) in &small {
        ctx.show(format!("--- {f}\n{}", s.chars().take(3000).collect::<String>()));
    }
    ctx.label(name);
    for extract in [false, true] {
        let mut x = measure(&dir.join("w"), &a, extract);
        let mut y = measure(&dir.join("w"), &b, extract);
        let grows = |x: &Cost, y: &Cost| x.ok == y.ok && (y.count > 6 * x.count + 20_000 || y.bytes > 6 * x.bytes + 2_000_000);
        if grows(&x, &y) {
            // once more, now that what the parser caches is there for both
            x = measure(&dir.join("w"), &a, extract);
            y = measure(&dir.join("w"), &b, extract);
        }
        let how = if extract { "extract" } else { "compile" };
        ctx.nontrivial |= x.count >= 2000;
        ctx.label(format!("{name}:{how}:{}", if x.ok && y.ok { "ok" } else if x.ok != y.ok { "mixed" } else { "fails" }));
        if let Ok(f) = std::env::var("VH_C24") {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(f).unwrap();
            let l = format!("{:.2} {:.2} {:.3} {} {name} {how} n={n} ok={} {}", y.count as f64 / x.count as f64, y.bytes as f64 / x.bytes as f64, y.cpu, x.count, x.ok, small[0].1.replace('\n', " ").chars().take(200).collect::<String>());
            let _ = f.write_all((l + "\n").as_bytes());
        }
        let show = || {
            format!(
                "{name}, {how}: n = {n} takes {} allocations of {} bytes, 2n takes {} of {} bytes, {:.2} s",
                x.count, x.bytes, y.count, y.bytes, y.cpu
            )
        };
        if grows(&x, &y) {
            return fail(format!("work grows too fast: {}", show()));
        }
        if y.cpu > 5.0 {
            return fail(format!("too much time: {}", show()));
        }
    }
    Ok(())
}
