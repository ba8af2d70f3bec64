use super::c06::mentions_null_ns;
use super::c12::base;
use super::common::*;
use crate::api::{self, Diag};
use crate::faults::*;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::path::Path;

pub static C13: Check = Check {
    id: "C13",
    rule: "a random valid program without defaults (random spelling and layout with multi-byte comments, mixed line ends, long lines) \
           with one planted fault of about 20 kinds in the main file, an IDL file imported in one or two steps, or imported JSON; the \
           report must have a highlighted region, every region must lie in the right file's text on the faulty construct (in the \
           faulty statement, for declaration-level faults), and the name or value at fault must be mentioned; faults in JSON must \
           name the JSON file and highlight its import. Further, 2 to 6 undefined names at random places of one or two files: each \
           must be reported exactly once, at its first place, in source order; and 1 to 4 JSON imports with some undefined names each, \
           with or without undefined names in the IDL text: every one must be reported with the import that brings it in; 2 to 8 variables of one record or message with fitting and other \
           defaults for declared types: each that does not fit must be reported once, on the value, in order. Non-trivial: the program has named types",
    quick: 150_000,
    thorough: 800_000,
    run,
    fixed: None,
    known: &[],
    budget: 30_000_000,
    assumptions: &[],
};

/// Kinds for which the report may highlight any part of the faulty statement.
const WIDE: &[&str] = &["duplicate-type", "illegal-type-name"];

/// The compiler may drop the ignored text after an end-of-input character.
fn is_text(shown: &str, file: &str) -> bool {
    shown == file || file.split('\u{1a}').next() == Some(shown)
}

fn show_label(text: &str, o: usize, l: usize) -> String {
    format!("{o}+{l} {:?}", text.get(o..o + l).unwrap_or("<out of bounds>"))
}

/// Labels of `d` lie on the fault and in the file.
pub fn points(d: &Diag, name: &str, f: &Faulty) -> Res {
    let ls = d.all_labels();
    if ls.is_empty() {
        return fail(format!("{}: no highlighted region\n{}", f.kind, d.rendered));
    }
    let area = if WIDE.contains(&f.kind) { f.wide } else { f.region };
    for (l, src) in &ls {
        let Some((n, text)) = src else { return fail(format!("{}: no source text\n{}", f.kind, d.rendered)) };
        if n != name {
            return fail(format!("{}: reported in `{n}`, but the fault is in `{name}`\n{}", f.kind, d.rendered));
        }
        if !is_text(text, &f.text) {
            return fail(format!("{}: the source text of the report is not the file's text", f.kind));
        }
        let (a, b) = (l.offset, l.offset + l.len);
        if a < area.0 || b > area.1 || a >= b {
            return fail(format!(
                "{}: highlights {} outside the fault at {}\n{}",
                f.kind,
                show_label(text, l.offset, l.len),
                show_label(text, area.0, area.1 - area.0),
                d.rendered
            ));
        }
    }
    let all = d.all_text();
    for n in &f.needles {
        let lit = ls.iter().any(|(l, s)| s.as_ref().and_then(|s| s.1.get(l.offset..l.offset + l.len)).is_some_and(|x| x.contains(n.as_str())));
        if !all.contains(n.as_str()) && !lit {
            return fail(format!("{}: `{n}` is mentioned nowhere\n{}", f.kind, d.rendered));
        }
    }
    Ok(())
}

pub fn reject(main: &Path, what: &str) -> Result<Diag, String> {
    let c = api::convert_file(main, &[]);
    let Err(d) = c.res else { return fail(format!("{what}: compiled")) };
    let e = api::extract_path(main, &[]);
    match e.res {
        Ok(_) => return fail(format!("{what}: extracted")),
        Err(x) if x != d => {
            return fail(format!("{what}: compiling and extracting report different errors\n{}\n{}", d.rendered, x.rendered));
        }
        Err(_) => {}
    }
    Ok(d)
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let style = if t.chance(1, 2) { Style::Wild } else { Style::Spelled };
    match t.weighted(&[40, 15, 15, 16, 9, 5]) {
        k @ (0 | 1) => {
            let m = base(t, false);
            ctx.nontrivial = !m.defs.is_empty();
            let Some(f) = inject(t, &m, style, &[]) else {
                ctx.label("no-room");
                return Ok(());
            };
            ctx.label(format!("kind:{}", f.kind));
            ctx.label(format!("place:{}", f.place));
            let d = std::fs::canonicalize(ctx.dir()).unwrap();
            let main = d.join("m.avdl");
            let mut faulty = main.clone();
            if k == 0 {
                ctx.label("in:main");
                std::fs::write(&main, &f.text).unwrap();
                ctx.show(&f.text);
            } else {
                ctx.label("in:imported-idl");
                faulty = d.join("i.avdl");
                std::fs::write(&faulty, &f.text).unwrap();
                ctx.show(format!("--- i.avdl\n{}", f.text));
                let mut imp = "i.avdl";
                if t.coin() {
                    std::fs::write(d.join("j.avdl"), "protocol J { import idl \"i.avdl\"; }").unwrap();
                    imp = "j.avdl";
                    ctx.label("two-steps");
                }
                let txt = importer(t, &format!("import idl \"{imp}\";"), m.proto.messages.keys());
                ctx.show(format!("--- m.avdl\n{txt}"));
                std::fs::write(&main, txt).unwrap();
            }
            let r = reject(&main, f.kind)?;
            points(&r, &faulty.display().to_string(), &f)
        }
        2 => json_case(t, ctx),
        4 => several_json(t, ctx),
        5 => several_defaults(t, ctx, style),
        _ => several(t, ctx, style),
    }
}

fn json_case(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: 4, mode: Some(0), odd_names: false, ..Opts::default() };
    let mut m = model(t, &o);
    tame_model(&mut m);
    ctx.nontrivial = !m.defs.is_empty();
    let proto = t.coin();
    let d = std::fs::canonicalize(ctx.dir()).unwrap();
    let other = Proto {
        name: "Other".into(),
        ns: m.proto.ns.clone(),
        messages: if mentions_null_ns(&m) { Default::default() } else { m.proto.messages.clone() },
        ..Proto::default()
    };
    let mut r = JsonR::new(t, m.defs.iter().collect());
    let valid = r.protocol(&other);
    let (kind, v, needles) = json_fault(t, &valid, proto);
    let mut txt = text(t, &v, Lay::Free, true);
    let mut kind = kind;
    let mut needles = needles;
    if t.chance(1, 8) {
        kind = "unreadable";
        needles.clear();
        let cut = valid.to_string();
        txt = match t.below(3) {
            0 => cut[..cut.len() - 1].to_string(),
            1 => format!("{cut} x"),
            _ => String::new(),
        };
    }
    let (ext, kw) = if proto { ("avpr", "protocol") } else { ("avsc", "schema") };
    let file = format!("zq-i.{ext}");
    std::fs::write(d.join(&file), &txt).unwrap();
    ctx.label(format!("kind:{kind}"));
    ctx.label(format!("in:imported-{ext}"));
    ctx.show(format!("--- {file}\n{txt}"));
    // an unrelated import before or after, and text in front
    std::fs::write(d.join("ok.avsc"), "{\"type\":\"fixed\",\"name\":\"ZqOk\",\"namespace\":\"zq.ok\",\"size\":1}").unwrap();
    let pre = *t.pick(&["", "/* é日😀 */ ", "\r\n\r\n// x\u{2003}日\n", "record ZqA { string `日本` = \"é\"; } "]);
    let imp = format!("import {kw} \"{file}\";");
    let ok = "import schema \"ok.avsc\";";
    let (head, tail) = match t.below(3) {
        0 => (format!("{ok} {pre}"), String::new()),
        1 => (format!("{pre} "), ok.to_string()),
        _ => (pre.to_string(), String::new()),
    };
    let (start, end) = *t.pick(&[("protocol Main {\n ", " }"), ("schema int;\n", ""), ("protocol Main {\n ", "void ping(); }")]);
    let main = format!("{start}{head}{imp}\n{tail} record ZqMain {{ int a; }}{end}");
    let at = start.len() + head.len();
    ctx.show(format!("--- m.avdl\n{main}"));
    let mut name = d.join("m.avdl");
    std::fs::write(&name, &main).unwrap();
    let stating = name.clone();
    if t.chance(1, 3) {
        name = d.join("n.avdl");
        std::fs::write(&name, "protocol N { import idl \"m.avdl\"; }").unwrap();
        ctx.label("two-steps");
    }
    let r = reject(&name, kind)?;
    let f = Faulty { text: main, kind, region: (at, at + imp.len()), wide: (at, at + imp.len()), needles: vec![], place: "import" };
    points(&r, &stating.display().to_string(), &f)?;
    let all = r.all_text();
    for n in needles.iter().chain([&file]) {
        if !all.contains(n.as_str()) {
            return fail(format!("{kind}: `{n}` is mentioned nowhere\n{}", r.rendered));
        }
    }
    Ok(())
}

/// All reports of an undefined-name error, the first one first.
fn flat(d: &Diag) -> Vec<Diag> {
    let mut v = vec![Diag { related: vec![], ..d.clone() }];
    for r in &d.related {
        v.extend(flat(r));
    }
    v
}

fn several(t: &mut Tape, ctx: &mut Ctx, style: Style) -> Res {
    let m = base(t, false);
    let Some((txt, want)) = inject_undefined(t, &m, style, "A") else {
        ctx.label("no-room");
        return Ok(());
    };
    ctx.label("several-undefined");
    ctx.nontrivial = want.len() > 1;
    if want.is_empty() {
        return Ok(());
    }
    let d = std::fs::canonicalize(ctx.dir()).unwrap();
    let main = d.join("m.avdl");
    ctx.show(&txt);
    let mut files = vec![(main.display().to_string(), txt.clone(), want)];
    if t.chance(1, 3) {
        // the file above is imported by another one with undefined names of its own
        let imp = d.join("i.avdl");
        let empty = Model { mode: Mode::Protocol, proto: Proto { name: "Main".into(), ..Proto::default() }, defs: vec![] };
        let Some((txt2, want2)) = inject_undefined(t, &empty, style, "B") else { return Ok(()) };
        if want2.is_empty() {
            return Ok(());
        }
        let brace = txt2.find('{').unwrap_or(0);
        let _ = brace;
        let txt2 = txt2.trim_end_matches(|c| c != '}');
        let Some(body) = txt2.strip_suffix('}') else { return Ok(()) };
        if style == Style::Wild {
            // the last brace may belong to a comment
            ctx.label("two-files-skipped");
        } else {
            let txt2 = format!("{body}import idl \"i.avdl\"; }}");
            std::fs::write(&imp, &txt).unwrap();
            files[0].0 = imp.display().to_string();
            files.push((main.display().to_string(), txt2.clone(), want2));
            ctx.label("two-files");
            ctx.show(format!("--- m.avdl\n{txt2}"));
        }
    }
    let last = files.last().unwrap();
    std::fs::write(&main, &last.1).unwrap();
    let r = reject(&main, "several undefined names")?;
    let got = flat(&r);
    let total: usize = files.iter().map(|f| f.2.len()).sum();
    if got.len() != total {
        let names: Vec<&str> = files.iter().flat_map(|f| f.2.iter().map(|w| w.0.as_str())).collect();
        return fail(format!("{total} undefined names {names:?}, {} reported\n{}", got.len(), r.rendered));
    }
    for (name, text, want) in &files {
        let mine: Vec<&Diag> = got.iter().filter(|g| g.source.as_ref().is_some_and(|s| s.0 == *name)).collect();
        if mine.len() != want.len() {
            return fail(format!("{} undefined names in {name}, {} reported there\n{}", want.len(), mine.len(), r.rendered));
        }
        for (g, (full, (a, b))) in mine.iter().zip(want) {
            if !is_text(&g.source.as_ref().unwrap().1, text) {
                return fail(format!("the source text of the report is not the file's text: {:?} instead of {text:?}", g.source));
            }
            if !g.all_text().contains(full.as_str()) {
                return fail(format!("expected a report of `{full}` here, got {:?}\n{}", g.message, r.rendered));
            }
            for l in &g.labels {
                if l.offset < *a || l.offset + l.len > *b || l.len == 0 {
                    return fail(format!("`{full}`: highlights {} instead of {}\n{}", show_label(text, l.offset, l.len), show_label(text, *a, b - a), r.rendered));
                }
            }
            if g.labels.is_empty() {
                return fail(format!("`{full}`: nothing highlighted\n{}", r.rendered));
            }
        }
    }
    Ok(())
}

/// Undefined names in several JSON imports, some shared, next to undefined names
/// in the IDL text.
fn several_json(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut pool: Vec<String> = vec![];
    for i in 0..5 {
        let n = if t.coin() { format!("zq.u.Miss{i}") } else { format!("Miss{i}") };
        // some differ from another one in case only
        let twin = if i > 0 && t.chance(1, 4) { t.pick(&pool).replace("Miss", "MISS") } else { n.clone() };
        pool.push(if pool.contains(&twin) { n } else { twin });
    }
    let defined: Vec<bool> = pool.iter().map(|_| t.chance(1, 4)).collect();
    let d = std::fs::canonicalize(ctx.dir()).unwrap();
    let k = 1 + t.usize(4);
    let mut items: Vec<(String, Option<usize>)> = vec![];
    let mut uses: Vec<Vec<usize>> = vec![];
    for i in 0..k {
        let u: Vec<usize> = (0..pool.len()).filter(|_| t.chance(1, 3)).collect();
        let fs: Vec<String> = u
            .iter()
            .enumerate()
            .map(|(j, &x)| {
                let ty = format!("\"{}\"", pool[x]);
                let ty = match t.below(4) {
                    0 => format!("[\"null\",{ty}]"),
                    1 => format!("{{\"type\":\"array\",\"items\":{ty}}}"),
                    2 => format!("{{\"type\":\"record\",\"name\":\"In{i}x{j}\",\"fields\":[{{\"name\":\"b\",\"type\":{ty}}}]}}"),
                    _ => ty,
                };
                format!("{{\"name\":\"f{j}\",\"type\":{ty}}}")
            })
            .collect();
        let rec = format!("{{\"type\":\"record\",\"name\":\"J{i}\",\"fields\":[{}]}}", fs.join(","));
        let (file, kw, text) = match t.below(3) {
            0 => (format!("zq-{i}.avsc"), "schema", rec),
            1 => (format!("zq-{i}.avpr"), "protocol", format!("{{\"protocol\":\"Q{i}\",\"types\":[{rec}]}}")),
            _ => (
                format!("zq-{i}.avpr"),
                "protocol",
                if t.coin() {
                    format!(
                        "{{\"protocol\":\"Q{i}\",\"types\":[],\"messages\":{{\"q{i}\":{{\"request\":[{}],\"response\":\"null\"}}}}}}",
                        fs.join(",")
                    )
                } else {
                    // in errors and results
                    let errors: Vec<String> = u.iter().map(|&x| format!("\"{}\"", pool[x])).collect();
                    let (last, rest) = match errors.split_last() {
                        Some((l, r)) if t.coin() => (l.clone(), r),
                        _ => ("\"null\"".to_string(), &errors[..]),
                    };
                    format!(
                        "{{\"protocol\":\"Q{i}\",\"types\":[],\"messages\":{{\"q{i}\":{{\"request\":[],\"response\":{last},\"errors\":[{}]}}}}}}",
                        rest.join(",")
                    )
                },
            ),
        };
        ctx.show(format!("--- {file}\n{text}"));
        std::fs::write(d.join(&file), text).unwrap();
        items.push((format!("import {kw} \"{file}\";"), Some(i)));
        uses.push(u);
    }
    // what the IDL text itself lacks or provides
    let mut idl_uses: Vec<usize> = vec![];
    for x in 0..pool.len() {
        if defined[x] {
            let ns = pool[x].rsplit_once('.').map(|p| p.0);
            let simple = pool[x].rsplit('.').next().unwrap();
            let at = t.usize(items.len() + 1);
            let a = ns.map(|n| format!("@namespace(\"{n}\") ")).unwrap_or_default();
            items.insert(at, (format!("{a}record {simple} {{ }}"), None));
        }
        if t.chance(1, 6) {
            idl_uses.push(x);
            let at = t.usize(items.len() + 1);
            items.insert(at, (format!("record Uses{x} {{ {} a; }}", pool[x]), None));
        }
    }
    let mut main = "protocol Main {\n".to_string();
    let mut import_at: Vec<(usize, usize)> = vec![(0, 0); k];
    let mut use_at = vec![(0, 0); pool.len()];
    for (s, i) in &items {
        main.push_str(*t.pick(&["", "  ", "/* é😀 */ ", "\r\n"]));
        let a = main.len();
        main.push_str(s);
        if let Some(i) = i {
            import_at[*i] = (a, main.len());
        } else if let Some(r) = s.strip_prefix("record Uses") {
            let x: usize = r[..1].parse().unwrap();
            use_at[x] = (a + "record Uses0 { ".len(), a + "record Uses0 { ".len() + pool[x].len());
        }
        main.push('\n');
    }
    main.push('}');
    ctx.show(format!("--- m.avdl\n{main}"));
    let name = d.join("m.avdl");
    std::fs::write(&name, &main).unwrap();
    let in_idl: Vec<usize> = (0..pool.len()).filter(|x| !defined[*x] && idl_uses.contains(x)).collect();
    let users = |x: usize| -> Vec<usize> { (0..k).filter(|i| uses[*i].contains(&x)).collect() };
    let in_json: Vec<usize> = (0..pool.len()).filter(|x| !defined[*x] && !idl_uses.contains(x) && !users(*x).is_empty()).collect();
    ctx.label(format!("several-json:{}:{}", if in_idl.is_empty() { "json-only" } else { "idl-too" }, in_json.len().min(2)));
    ctx.nontrivial = in_json.len() > 1;
    if in_idl.is_empty() && in_json.is_empty() {
        return match api::convert_file(&name, &[]).res {
            Ok(_) => Ok(()),
            Err(e) => fail(format!("nothing is undefined, but rejected:\n{}", e.rendered)),
        };
    }
    let r = reject(&name, "undefined names in JSON")?;
    let at_import = |g: &Diag, allowed: &[usize], what: &str| -> Res {
        let Some((n, text)) = &g.source else { return fail(format!("{what}: no source text\n{}", r.rendered)) };
        if *n != name.display().to_string() || *text != main {
            return fail(format!("{what}: reported in the wrong file `{n}`\n{}", r.rendered));
        }
        for l in &g.labels {
            let ok = allowed.iter().any(|i| l.offset >= import_at[*i].0 && l.offset + l.len <= import_at[*i].1 && l.len > 0);
            if !ok {
                return fail(format!("{what}: highlights {}, no import which brings it in\n{}", show_label(text, l.offset, l.len), r.rendered));
            }
        }
        if g.labels.is_empty() {
            return fail(format!("{what}: nothing highlighted\n{}", r.rendered));
        }
        Ok(())
    };
    let file_of = |i: usize| items.iter().find(|x| x.1 == Some(i)).unwrap().0.split('"').nth(1).unwrap().to_string();
    let names_files = |g: &Diag, allowed: &[usize], what: &str| -> Res {
        let text = g.all_text();
        for i in 0..k {
            let f = file_of(i);
            if text.contains(&f) != allowed.contains(&i) {
                let w = if allowed.contains(&i) { "is not mentioned" } else { "is mentioned without reason" };
                return fail(format!("{what}: file {f} {w}\n{}", r.rendered));
            }
        }
        Ok(())
    };
    let got = flat(&r);
    let mentioned = |g: &Diag, x: usize| g.message.split([' ', ',']).any(|w| w == pool[x]);
    if in_idl.is_empty() {
        let all: Vec<usize> = (0..k).filter(|i| in_json.iter().any(|x| uses[*i].contains(x))).collect();
        if got.len() != 1 {
            return fail(format!("expected one report for all names in JSON\n{}", r.rendered));
        }
        for x in 0..pool.len() {
            if mentioned(&r, x) != in_json.contains(&x) {
                return fail(format!("`{}`: {}\n{}", pool[x], if in_json.contains(&x) { "undefined but not reported" } else { "reported without reason" }, r.rendered));
            }
        }
        at_import(&r, &all, "undefined names")?;
        return names_files(&r, &all, "undefined names");
    }
    if got.len() != in_idl.len() + in_json.len() {
        return fail(format!("{} undefined names, {} reported\n{}", in_idl.len() + in_json.len(), got.len(), r.rendered));
    }
    for &x in in_idl.iter().chain(&in_json) {
        let g: Vec<&Diag> = got.iter().filter(|g| mentioned(g, x)).collect();
        let what = format!("`{}`", pool[x]);
        if g.len() != 1 {
            return fail(format!("{what} is reported {} times\n{}", g.len(), r.rendered));
        }
        if in_json.contains(&x) {
            at_import(g[0], &users(x), &what)?;
            names_files(g[0], &users(x), &what)?;
        } else {
            let (a, b) = use_at[x];
            for l in &g[0].labels {
                if l.offset < a || l.offset + l.len > b || l.len == 0 {
                    return fail(format!("{what}: highlights {} instead of {}\n{}", show_label(&main, l.offset, l.len), show_label(&main, a, b - a), r.rendered));
                }
            }
            if g[0].labels.is_empty() {
                return fail(format!("{what}: nothing highlighted\n{}", r.rendered));
            }
        }
    }
    Ok(())
}

/// Several defaults of one record or message that do not fit the types they
/// refer to.
fn several_defaults(t: &mut Tape, ctx: &mut Ctx, style: Style) -> Res {
    let ns = t.coin();
    let decls = ["enum E { A , B }", "fixed F ( 2 ) ;", "record R { int a ; }", "error X { string s = \"é\" ; }"];
    // (type, fitting values, others)
    let types: [(&str, [&str; 2], [&str; 3]); 6] = [
        ("E", ["\"A\"", "\"B\""], ["{ }", "1", "null"]),
        ("F", ["\"ab\"", "\"\""], ["12", "[ ]", "true"]),
        ("R", ["{ \"a\" : 1 }", "{ \"a\" : -7 }"], ["{ \"a\" : \"x\" }", "[ 1 ]", "\"R\""]),
        ("array < E >", ["[ ]", "[ \"A\" ]"], ["[ null ]", "[ \"A\" , 2 ]", "[ [ ] ]"]),
        ("map < R >", ["{ }", "{ \"k\" : { \"a\" : 0 } }"], ["{ \"k\" : { \"a\" : null } }", "{ \"k\" : 3 }", "{ \"k\" : [ ] }"]),
        ("X", ["{ }", "{ \"s\" : \"y\" }"], ["{ \"s\" : 1 }", "0", "\"x\""]),
    ];
    let mut toks: Vec<FTok> = vec![];
    let put = |toks: &mut Vec<FTok>, s: &str, hot: bool| toks.extend(s.split_whitespace().map(|w| (w.to_string(), hot)));
    if ns {
        put(&mut toks, "@ namespace ( \"org.a\" )", false);
    }
    put(&mut toks, "protocol P {", false);
    for d in decls {
        put(&mut toks, d, false);
    }
    let message = t.chance(1, 3);
    put(&mut toks, if message { "void owner (" } else { *t.pick(&["record Owner {", "error Owner {"]) }, false);
    let n = 2 + t.usize(7);
    let mut want: Vec<String> = vec![];
    let mut marks: Vec<(usize, usize)> = vec![];
    let mut same: Option<usize> = None;
    for i in 0..n {
        let k = match same {
            Some(k) => k,
            None => {
                let k = t.usize(types.len());
                let q = if ns && t.coin() { types[k].0.replace(['E', 'F', 'R', 'X'], &format!("org.a.{}", types[k].0.chars().find(|c| c.is_uppercase()).unwrap())) } else { types[k].0.to_string() };
                put(&mut toks, &q, false);
                k
            }
        };
        let name = format!("v{i}{}", t.pick(&["", "é", "_"]));
        put(&mut toks, &name, false);
        let bad = t.chance(3, 5);
        if bad || t.coin() {
            put(&mut toks, "=", false);
            let from = toks.len();
            let v = if bad { *t.pick(&types[k].2) } else { *t.pick(&types[k].1) };
            put(&mut toks, v, true);
            if bad {
                marks.push((from, toks.len()));
                want.push(name);
            }
        }
        let last = i + 1 == n;
        same = None;
        if message {
            if !last {
                put(&mut toks, ",", false);
            }
        } else if !last && t.chance(1, 3) {
            same = Some(k);
            put(&mut toks, ",", false);
        } else {
            put(&mut toks, ";", false);
        }
    }
    put(&mut toks, if message { ") ;" } else { "}" }, false);
    put(&mut toks, "record After { int z = 1 ; } }", false);
    let toks: Vec<Tok> = toks
        .iter()
        .enumerate()
        .map(|(i, (s, _))| Tok {
            text: s.clone(),
            mark: marks.iter().position(|m| (m.0..m.1).contains(&i)).map(|k| format!("D{k}:{i}")),
            doc: false,
            glue: false,
            lex: Lex::Plain,
        })
        .collect();
    let (text, at) = layout(t, &toks, style);
    let spans: Vec<(usize, usize)> = (0..want.len())
        .map(|k| {
            let p = format!("D{k}:");
            let v: Vec<(usize, usize)> = at.iter().filter(|(m, _)| m.starts_with(&p)).map(|(_, (s, l))| (*s, s + l)).collect();
            (v.iter().map(|x| x.0).min().unwrap(), v.iter().map(|x| x.1).max().unwrap())
        })
        .collect();
    ctx.label("several-defaults");
    ctx.nontrivial = want.len() > 1;
    ctx.show(&text);
    let d = std::fs::canonicalize(ctx.dir()).unwrap();
    let main = d.join("m.avdl");
    std::fs::write(&main, &text).unwrap();
    if want.is_empty() {
        return match api::convert_file(&main, &[]).res {
            Ok(_) => Ok(()),
            Err(e) => fail(format!("every default fits, but rejected:\n{}", e.rendered)),
        };
    }
    let r = reject(&main, "several bad defaults")?;
    let got = flat(&r);
    if got.len() != want.len() {
        return fail(format!("{} bad defaults {want:?}, {} reported\n{}", want.len(), got.len(), r.rendered));
    }
    for (i, g) in got.iter().enumerate() {
        let f = Faulty { text: text.clone(), kind: "bad-default", region: spans[i], wide: spans[i], needles: vec![want[i].clone()], place: "several" };
        points(g, &main.display().to_string(), &f)?;
    }
    Ok(())
}
