use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub static C21: Check = Check {
    id: "C21",
    rule: "random graphs of 1-4 IDL files (cycles, diamonds, repeated and self imports, JSON imports) get stray doc comments, \
           unrecognised characters, illegal aliases and annotations on unions at random places; a third also gets a late fault \
           (undefined name, missing import, duplicate type, nothing to compile, a broken imported file). The warnings of compiling and of \
           extracting must be exactly those planted: file by file in the order the files are read, each naming its file and marking \
           its construct; without faults the result equals that of the same files without the planted constructs, with one, what \
           is drained afterwards is what was found before. Non-trivial: warnings in two files, or a fault after a warning",
    quick: 37_500,
    thorough: 250_000,
    run,
    fixed: None,
    known: &[],
    budget: 40_000_000,
    assumptions: &[
        "within one file, the order of warnings of different kinds, and of those about unions, is not compared",
        "warnings found in a file that itself cannot be read to its end need not be kept",
        "after a success, draining may give nothing or the warnings once more",
    ],
};

const JUNK: &[&str] = &["#", "$", "~", "%", "^", "!", "|", "\\", "&", "€", "😀", "\u{0}", "\u{a0}"];
const ODD_ALIASES: &[&str] = &["a-b", "", "1x", "a..b", "x y", ".a", "é!", "a.1"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Doc,
    Junk,
    Alias,
    Union,
}
const KINDS: &[What] = &[What::Doc, What::Junk, What::Alias, What::Union];

/// A construct that deserves a warning: marks of its first and last token, and what must be mentioned.
#[derive(Clone, Debug)]
struct Exp {
    what: What,
    from: String,
    to: String,
    needle: String,
}

struct File {
    path: PathBuf,
    text: String,
    /// (kind, start, end, needle), in source order for each kind.
    exp: Vec<(What, usize, usize, String)>,
}

/// Tokens of a file, expected warnings in token order.
fn tokens(t: &mut Tape, m: &Model, style: Style, imports: &[(usize, String, String)], plants: bool) -> (Vec<Tok>, Vec<Exp>) {
    let mut r = Rend::new(t, style);
    r.warn = plants && r.t.chance(2, 3);
    r.file(m, imports);
    let (mut toks, anchors, warned) = (std::mem::take(&mut r.toks), std::mem::take(&mut r.anchors), std::mem::take(&mut r.warned));
    drop(r);
    let mut exp = vec![];
    for (a, b, k, needle) in warned {
        let name = |toks: &mut Vec<Tok>, i: usize| toks[i].mark.get_or_insert_with(|| format!("tok{i}")).clone();
        let from = name(&mut toks, a);
        let to = name(&mut toks, b);
        exp.push(Exp { what: if k == "alias" { What::Alias } else { What::Union }, from, to, needle });
    }
    if !plants {
        return (toks, exp);
    }
    let mut at: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut n = 0;
    while t.more(n, 8, 3, 4) {
        n += 1;
        let i = if t.chance(1, 3) && !anchors.is_empty() { anchors[t.usize(anchors.len())].0 } else { t.usize(toks.len() + 1) };
        if i < toks.len() && toks[i].glue {
            continue;
        }
        let s = if t.coin() {
            (*t.pick(&["/** x */", "/***/", "/** é\n * 😀 */", "/**\r\n\r\n*/"])).to_string()
        } else {
            (*t.pick(JUNK)).to_string()
        };
        at.entry(i).or_default().push(s);
    }
    let len = toks.len();
    let mut old = toks.into_iter();
    let mut new: Vec<Tok> = vec![];
    let mut k = 0;
    for i in 0..=len {
        let here = at.remove(&i).unwrap_or_default();
        let docs = here.iter().filter(|s| s.starts_with('/')).count();
        let mut d = 0;
        for s in here {
            let doc = s.starts_with('/');
            d += doc as usize;
            let mut tok = Tok::new(s.clone());
            tok.doc = doc;
            if doc && d == docs && anchors.iter().any(|a| a.0 == i) {
                new.push(tok);
                continue;
            }
            tok.lex = Lex::Planted;
            let mark = format!("plant{k:05}");
            k += 1;
            tok.mark = Some(mark.clone());
            exp.push(Exp { what: if doc { What::Doc } else { What::Junk }, from: mark.clone(), to: mark, needle: String::new() });
            new.push(tok);
        }
        if i < len {
            new.push(old.next().unwrap());
        }
    }
    (new, exp)
}

fn what(d: &Diag) -> Option<What> {
    let s = d.all_text();
    if s.contains("token recognition error") {
        Some(What::Junk)
    } else if s.contains("out-of-place documentation comment") {
        Some(What::Doc)
    } else if s.contains("Annotations on union") {
        Some(What::Union)
    } else if s.contains("not a valid Avro name") {
        Some(What::Alias)
    } else {
        None
    }
}

fn one(d: &Diag, f: &File, e: &(What, usize, usize, String)) -> Res {
    let (what, a, b, needle) = e;
    let name = f.path.to_string_lossy();
    let ls = d.all_labels();
    if ls.is_empty() {
        return fail(format!("the warning marks no place: {}", d.all_text()));
    }
    for (l, src) in &ls {
        let Some((n, s)) = src else { return fail(format!("the warning names no file: {}", d.all_text())) };
        if *n != name {
            return fail(format!("the warning names {n} instead of {name}"));
        }
        let exact = matches!(what, What::Doc | What::Junk);
        let (x, y) = (l.offset, l.offset + l.len);
        if l.len == 0 || x < *a || y > *b || exact && (x, y) != (*a, *b) {
            return fail(format!("{name}: the {what:?} construct is at {a}..{b}, the warning marks {x}..{y}"));
        }
        if s.get(*a..*b) != f.text.get(*a..*b) {
            return fail(format!("{name}: the warning shows another text"));
        }
    }
    if !d.all_text().contains(needle.as_str()) {
        return fail(format!("{name}: the warning does not mention {needle:?}: {}", d.all_text()));
    }
    if d.severity.as_deref() != Some("Warning") {
        return fail(format!("the warning has severity {:?}", d.severity));
    }
    Ok(())
}

/// `ws` are the warnings of `files`, each file read once, in this order.
fn same(ws: &[Diag], files: &[&File]) -> Res {
    let list = || ws.iter().map(|w| w.rendered.clone()).collect::<Vec<_>>().join("\n");
    let n: usize = files.iter().map(|f| f.exp.len()).sum();
    if n != ws.len() {
        return fail(format!("{n} constructs deserve a warning, there are {}:\n{}", ws.len(), list()));
    }
    let mut at = 0;
    for f in files {
        let own = &ws[at..at + f.exp.len()];
        at += f.exp.len();
        for k in KINDS {
            let got: Vec<&Diag> = own.iter().filter(|w| what(w) == Some(*k)).collect();
            let want: Vec<_> = f.exp.iter().filter(|e| e.0 == *k).collect();
            if got.len() != want.len() {
                return fail(format!("{}: {} {k:?} constructs, {} warnings in:\n{}", f.path.display(), want.len(), got.len(), list()));
            }
            if *k != What::Union {
                for (w, e) in got.iter().zip(want) {
                    one(w, f, e)?;
                }
                continue;
            }
            // unions may nest, and a main schema may be looked at last: any order will do
            let mut place: Vec<Option<usize>> = vec![None; want.len()];
            let mut inner: Vec<usize> = (0..want.len()).collect();
            inner.sort_by_key(|i| want[*i].2 - want[*i].1);
            for i in inner {
                let mut why = String::new();
                place[i] = (0..got.len()).filter(|j| !place.contains(&Some(*j))).find(|j| match one(got[*j], f, want[i]) {
                    Ok(()) => true,
                    Err(e) => {
                        why = e;
                        false
                    }
                });
                if place[i].is_none() {
                    return Err(why);
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Undefined,
    Missing,
    Duplicate,
    Broken,
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let root = std::fs::canonicalize(ctx.dir()).unwrap();
    let (good, bad) = (root.join("plain"), root.join("planted"));
    std::fs::create_dir_all(&good).unwrap();
    std::fs::create_dir_all(&bad).unwrap();
    let n = 1 + t.weighted(&[30, 30, 25, 15]);
    let plants = !t.chance(1, 10);
    let mut fault = [Fault::None, Fault::Undefined, Fault::Missing, Fault::Duplicate, Fault::Broken][t.weighted(&[60, 10, 10, 10, 10])];
    let broken = if n > 1 { 1 + t.usize(n - 1) } else { 0 };
    if fault == Fault::Broken && n == 1 {
        fault = Fault::None;
    }
    // JSON import
    let json = t.chance(1, 3);
    if json {
        let mut m = model(t, &Opts { max_types: 3, messages: false, prefix: "J".into(), ..Opts::default() });
        tame_model(&mut m);
        let v = JsonR::new(t, m.defs.iter().collect()).protocol(&Proto { name: "Json".into(), ..Proto::default() });
        for d in [&good, &bad] {
            std::fs::write(d.join("j.avpr"), v.to_string()).unwrap();
        }
    }
    let mut files: Vec<File> = vec![];
    let mut graph: Vec<Vec<usize>> = vec![];
    let mut main_bare = false;
    for i in 0..n {
        let o = Opts {
            max_types: 4,
            mode: None,
            docs: false,
            prefix: format!("F{i}"),
            msg_prefix: format!("f{i}"),
            ..Opts::default()
        };
        let mut m = model(t, &o);
        // there, it is an ordinary property
        m.proto.props.remove("aliases");
        m.proto.messages.values_mut().for_each(|x| drop(x.props.remove("aliases")));
        if plants {
            odd_aliases(t, &mut m);
        }
        if i == 0 {
            main_bare = m.mode == Mode::Bare;
        }
        let mut imports = vec![];
        let mut edges = vec![];
        while t.few(edges.len(), 4, if i == 0 { 3 } else { 2 }, 4) {
            let j = if i == 0 && edges.len() < n - 1 { edges.len() + 1 } else { t.usize(n) };
            edges.push(j);
            imports.push((t.usize(m.defs.len() + 1), "idl".to_string(), format!("f{j}.avdl")));
        }
        if json && t.chance(1, 2) {
            imports.push((t.usize(m.defs.len() + 1), "protocol".to_string(), "j.avpr".to_string()));
        }
        // imports are written by position, in the order of this list
        let mut order: Vec<usize> = (0..edges.len()).collect();
        order.sort_by_key(|k| imports[*k].0);
        graph.push(order.iter().map(|k| edges[*k]).collect());
        if i == 0 {
            match fault {
                Fault::Undefined => {
                    let ns = m.proto.ns.clone();
                    m.defs.push(Def {
                        full: join(ns.as_deref(), "ZzLate"),
                        kind: Kind::Record {
                            error: false,
                            fields: vec![Fld {
                                name: "z".into(),
                                ty: Sch::Named("zz.Nope".into()),
                                default: None,
                                order: "ascending".into(),
                                aliases: vec![],
                                doc: None,
                                props: Props::new(),
                            }],
                        },
                        doc: None,
                        aliases: vec![],
                        props: Props::new(),
                    });
                }
                Fault::Missing => imports.push((usize::MAX, "idl".into(), "missing.avdl".into())),
                Fault::Duplicate => match m.defs.last().cloned() {
                    Some(d) => m.defs.push(d),
                    None => fault = Fault::None,
                },
                _ => {}
            }
        }
        let style = [Style::Spelled, Style::Plain, Style::Wild][t.weighted(&[40, 10, 50])];
        let (mut toks, exp) = tokens(t, &m, style, &imports, plants);
        if fault == Fault::Broken && i == broken {
            toks.push(Tok::new("record"));
            toks.push(Tok::new("{"));
        }
        let plain: Vec<Tok> = toks.iter().filter(|k| k.lex != Lex::Planted).cloned().collect();
        let (text, marks) = layout(t, &toks, style);
        let (base, _) = layout(t, &plain, style);
        let name = format!("f{i}.avdl");
        ctx.show(format!("--- {name}\n{text}"));
        std::fs::write(good.join(&name), base).unwrap();
        std::fs::write(bad.join(&name), &text).unwrap();
        let mut exp: Vec<_> = exp.iter().map(|e| (e.what, marks[&e.from].0, marks[&e.to].0 + marks[&e.to].1, e.needle.clone())).collect();
        // a stable sort keeps several aliases of one annotation in their order
        exp.sort_by_key(|e| e.1);
        files.push(File { path: bad.join(&name), text, exp });
    }
    // files in the order they are read
    let mut read: Vec<usize> = vec![];
    fn visit(i: usize, graph: &[Vec<usize>], read: &mut Vec<usize>) {
        if !read.contains(&i) {
            read.push(i);
            graph[i].iter().for_each(|j| visit(*j, graph, read));
        }
    }
    visit(0, &graph, &mut read);
    if fault == Fault::Broken && !read.contains(&broken) {
        fault = Fault::None;
    }
    let order: Vec<&File> = read.iter().map(|i| &files[*i]).collect();
    let total: usize = order.iter().map(|f| f.exp.len()).sum();
    let with = order.iter().filter(|f| !f.exp.is_empty()).count();
    ctx.nontrivial = with >= 2 || fault != Fault::None && total > 0;
    ctx.label(format!("fault:{fault:?}"));
    ctx.label(format!("files-read:{}", read.len()));
    ctx.label_if(total == 0, "no-warnings");
    for k in KINDS {
        ctx.label_if(order.iter().any(|f| f.exp.iter().any(|e| e.0 == *k)), &format!("{k:?}"));
    }
    let p = bad.join("f0.avdl");
    for convert in [true, false] {
        let how = if convert { "compiling" } else { "extracting" };
        let go = |p: &Path| -> (Result<String, Diag>, Vec<Diag>, Vec<Diag>) {
            if convert {
                let c = convert_file(p, &[]);
                (c.res.map(|v| pretty(&v)), c.warnings, c.drained)
            } else {
                let x = extract_path(p, &[]);
                (x.res.map(|v| format!("{v:#?}")), x.warnings, x.drained)
            }
        };
        let fails = fault != Fault::None || convert && main_bare;
        let (res, warnings, drained) = go(&p);
        match res {
            Err(e) if !fails => return fail(format!("{how}: a program with warnings is rejected: {}", e.all_text())),
            Ok(_) if fails => return harness(format!("{how}: the fault was not found")),
            Err(_) => {
                if fault == Fault::Broken {
                    // all files before the broken one, which may have added something
                    let k = read.iter().position(|i| *i == broken).unwrap();
                    let before: usize = order[..k].iter().map(|f| f.exp.len()).sum();
                    if drained.len() < before {
                        return fail(format!("{how}: {before} warnings deserved before the broken file, {} drained", drained.len()));
                    }
                    same(&drained[..before], &order[..k]).map_err(|e| format!("{how}, drained after a fault: {e}"))?;
                    for w in &drained[before..] {
                        let names = w.all_labels().iter().all(|l| l.1.as_ref().is_some_and(|s| s.0 == order[k].path.to_string_lossy()));
                        if !names {
                            return fail(format!("{how}: a warning from nowhere:\n{}", w.rendered));
                        }
                    }
                } else {
                    same(&drained, &order).map_err(|e| format!("{how}, drained after a fault: {e}"))?;
                }
            }
            Ok(v) => {
                same(&warnings, &order).map_err(|e| format!("{how}: {e}"))?;
                if !drained.is_empty() && drained != warnings {
                    return fail(format!("{how}: {} warnings with the result, {} others drained", warnings.len(), drained.len()));
                }
                let (base, _, _) = go(&good.join("f0.avdl"));
                match base {
                    Ok(w) if w == v => {}
                    Ok(w) => return fail(format!("{how}: warnings changed the result\n--- without\n{w}\n--- with\n{v}")),
                    Err(e) => return fail(format!("{how}: the program without planted constructs is rejected: {}", e.all_text())),
                }
            }
        }
    }
    Ok(())
}

fn odd_aliases(t: &mut Tape, m: &mut Model) {
    let mut add = |v: &mut Vec<String>| {
        while t.chance(1, 8) {
            let s = (*t.pick(ODD_ALIASES)).to_string();
            if !v.contains(&s) || t.chance(1, 4) {
                let i = t.usize(v.len() + 1);
                v.insert(i, s);
            }
        }
    };
    for d in &mut m.defs {
        add(&mut d.aliases);
        if let Kind::Record { fields, .. } = &mut d.kind {
            fields.iter_mut().for_each(|f| add(&mut f.aliases));
        }
    }
    for x in m.proto.messages.values_mut() {
        x.request.iter_mut().for_each(|f| add(&mut f.aliases));
    }
}
