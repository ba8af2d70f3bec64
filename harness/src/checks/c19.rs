use super::c15::source;
use super::c16;
use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::tape::Tape;
use std::path::{Path, PathBuf};

pub static C19: Check = Check {
    id: "C19",
    rule: "random directory trees (nested, empty and hidden directories, directories named like IDL files, names whose order by \
           component differs from their order as text, links to files, other and almost matching extensions, unimported JSON) with IDL files \
           of all forms that repeat each other's type names, import each other or files outside, warn or fail. Extraction of the \
           directory (given as an absolute, detouring or linked path) must give exactly what extraction of the files one by \
           one in component-wise path order gives, warnings included; if one fails, the error is that file's and the drained \
           warnings are those of the files up to it. Non-trivial: at least two IDL files in different directories",
    quick: 66_000,
    thorough: 200_000,
    run,
    fixed: Some((1, fixed)),
    known: &[],
    budget: 60_000_000,
    assumptions: &["path order is the order of the paths' components as byte strings"],
};

fn fixed(_: u64, ctx: &mut Ctx) -> Res {
    let d = ctx.dir();
    std::fs::create_dir_all(d.join("a.avdl")).unwrap();
    std::fs::write(d.join("a.avdl/b.avdl"), "protocol P { record R {} }").unwrap();
    ctx.nontrivial = true;
    let x = extract_path(&d, &[]).res.map_err(|e| format!("a directory named like an IDL file: {}", e.all_text()))?;
    diff("entries", &1, &x.len())
}

fn files(d: &Path) -> Vec<PathBuf> {
    let mut out = vec![];
    for e in std::fs::read_dir(d).unwrap() {
        let e = e.unwrap();
        if e.file_type().unwrap().is_dir() {
            out.extend(files(&e.path()));
        } else if e.path().extension().is_some_and(|x| x == "avdl") {
            out.push(e.path());
        }
    }
    out
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let base = ctx.dir();
    let root = base.join("root");
    let clean = t.chance(3, 5);
    let dirs = ["", "a", "a.avdl", "a-b", "a/b", "B", "z/deep/er", ".hidden", "a b", "é", "a.avdl/x", "a/b/c/d/e", "z/1/2/3/4/5/6/7/8/9"];
    let names = [
        "a.avdl", "b.avdl", "A.avdl", "a-b.avdl", "a b.avdl", "ab.avdl", "z.avdl", "é.avdl", "x.AVDL", "x.avdl.bak", "avdl", ".avdl", "x.avpr",
        "x.avsc", "x.txt", "a.b.avdl", "a.avdl~", "10.avdl", "9.avdl", "_.avdl",
    ];
    std::fs::create_dir_all(&root).unwrap();
    std::fs::write(base.join("out.avdl"), "protocol O { record ZOut { int a; } /** stray */ }").unwrap();
    std::fs::write(base.join("out.avsc"), "{\"type\":\"enum\",\"name\":\"ZJ\",\"symbols\":[\"A\"]}").unwrap();
    let mut made: Vec<PathBuf> = vec![];
    let n = 1 + t.usize(7);
    for _ in 0..n {
        let dir = root.join(*t.pick(&dirs));
        let name = *t.pick(&names);
        let p = dir.join(name);
        if p.exists() || std::fs::create_dir_all(&dir).is_err() {
            continue;
        }
        let mut s = if clean || t.chance(2, 3) {
            let m = model(t, &Opts { max_types: 3, mode: None, docs: false, ..Opts::default() });
            if t.chance(1, 3) {
                c16::plant(t, &m, Style::Spelled, &[]).text
            } else {
                render(t, &m, Style::Spelled)
            }
        } else {
            source(t, ctx)
        };
        // sometimes an import of another file of the tree, or of one outside
        if t.chance(1, 3) {
            let target = match t.below(4) {
                0 => base.join("out.avdl"),
                1 => base.join("out.avsc"),
                _ if !made.is_empty() => made[t.usize(made.len())].clone(),
                _ => p.clone(),
            };
            let kind = if target.extension().is_some_and(|x| x == "avsc") { "schema" } else { "idl" };
            let path = if t.coin() || target.parent() != p.parent() {
                target.to_string_lossy().into_owned()
            } else {
                target.file_name().unwrap().to_string_lossy().into_owned()
            };
            let imp = format!("import {kind} \"{path}\";");
            if s.trim_start().starts_with("protocol") {
                s = s.replacen('{', &format!("{{ {imp}"), 1);
                ctx.label("imports");
            } else if !s.contains("protocol") && !s.contains("namespace") && !s.contains("schema") {
                s = format!("{imp} {s}");
                ctx.label("imports");
            }
        }
        std::fs::write(&p, &s).unwrap();
        ctx.show(format!("--- {}\n{s}", p.strip_prefix(&base).unwrap().display()));
        made.push(p);
    }
    if t.chance(1, 4) {
        std::fs::create_dir_all(root.join("empty.avdl/inner")).unwrap();
    }
    // links to files
    for _ in 0..t.weighted(&[70, 20, 10]) {
        let p = root.join(*t.pick(&dirs)).join(*t.pick(&names));
        let target = if made.is_empty() || t.chance(1, 3) { base.join("out.avdl") } else { made[t.usize(made.len())].clone() };
        if !p.exists() && p.parent().unwrap().is_dir() && target.exists() {
            std::os::unix::fs::symlink(&target, &p).unwrap();
            ctx.show(format!("--- {} -> {}", p.strip_prefix(&base).unwrap().display(), target.strip_prefix(&base).unwrap().display()));
            ctx.label("linked-file");
        }
    }
    let mut want = files(&root);
    want.sort_by(|a, b| {
        let c = |p: &Path| p.components().map(|x| x.as_os_str().as_encoded_bytes().to_vec()).collect::<Vec<_>>();
        c(a).cmp(&c(b))
    });
    let parents: std::collections::BTreeSet<_> = want.iter().map(|p| p.parent().unwrap().to_path_buf()).collect();
    ctx.nontrivial = parents.len() >= 2;
    ctx.label(format!("files:{}", want.len().min(6)));
    let given = match t.below(4) {
        0 => root.join("../root/."),
        1 => {
            let l = base.join("link");
            std::os::unix::fs::symlink(&root, &l).unwrap();
            l
        }
        _ => root.clone(),
    };
    // one by one
    let mut schemata = vec![];
    let mut warnings = vec![];
    let mut error = None;
    for p in &want {
        let x = extract_path(&given.join(p.strip_prefix(&root).unwrap()), &[]);
        match x.res {
            Ok(v) => {
                schemata.extend(v);
                warnings.extend(x.warnings);
            }
            Err(e) => {
                warnings.extend(x.drained);
                error = Some((p.clone(), e));
                break;
            }
        }
    }
    let x = extract_path(&given, &[]);
    ctx.label_if(!warnings.is_empty(), "warnings");
    let show = |w: &[Diag]| w.iter().map(|x| x.rendered.clone()).collect::<Vec<_>>().join("\n");
    match (error, x.res) {
        (None, Ok(v)) => {
            ctx.label("all-good");
            if v != schemata {
                let k = |v: &[(String, serde_json::Value)]| v.iter().map(|e| e.0.clone()).collect::<Vec<_>>();
                return fail(format!("the directory gives {:?}, its files one by one {:?}", k(&v), k(&schemata)));
            }
            if x.warnings != warnings {
                return fail(format!("warnings differ\n--- files\n{}\n--- directory\n{}", show(&warnings), show(&x.warnings)));
            }
            Ok(())
        }
        (Some((p, _)), Ok(_)) => fail(format!("{} cannot be extracted, but its directory can", p.display())),
        (None, Err(_)) if want.is_empty() => Ok(()),
        (None, Err(e)) => fail(format!("every file can be extracted, but the directory cannot: {}", e.all_text())),
        (Some((p, a)), Err(e)) => {
            ctx.label("a-file-fails");
            ctx.label_if(p != want[0], "a-later-file-fails");
            if !e.all_text().contains(&a.message) {
                return fail(format!("{} fails with `{}`, the directory with `{}`", p.display(), a.all_text(), e.all_text()));
            }
            if x.drained != warnings {
                return fail(format!("warnings differ\n--- files\n{}\n--- directory\n{}", show(&warnings), show(&x.drained)));
            }
            Ok(())
        }
    }
}
