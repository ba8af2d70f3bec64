use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

pub static C07: Check = Check {
    id: "C07",
    rule: "1-7 IDL and JSON files spread over directories (equal file names in several of them, symbolic links, a random list \
           of import directories) import each other by bare, relative, detouring, absolute or linked paths, in cycles and \
           diamonds or in vain; the types of one random model are dealt out to the files in the reading order, unreachable \
           files hold conflicting types. Oracle: a reference depth-first reading with its own path lookup. Output and \
           extraction must hold exactly the reachable types in reading order, a message a file defines beats the same \
           message it imports, a missing import must be reported by its path. Non-trivial: at least three files reached, or a missing import",
    quick: 66_000,
    thorough: 600_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &[
        "the independent Avro reader (spec.rs) and the renderers are right",
        "which of several same-named messages of different imports wins is not decided by the property: any is accepted",
    ],
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum F {
    Idl,
    Avpr,
    Avsc,
}
struct File {
    path: PathBuf,
    kind: F,
    mode: u8,
    ns: Option<String>,
    /// Paths as spelled, with the import kind of the file they are meant to reach.
    imports: Vec<String>,
    /// Types per gap between imports.
    gaps: Vec<Vec<Def>>,
    msgs: BTreeMap<String, Msg>,
}
const DIRS: &[&str] = &["d0", "d1", "d0/s", "d1/s"];

struct Walk<'a> {
    files: &'a [File],
    dirs: &'a [PathBuf],
    visited: BTreeSet<PathBuf>,
    /// (file, gap) in reading order.
    slots: Vec<(usize, usize)>,
    missing: Option<String>,
    searched_dirs: bool,
    again: bool,
}
impl Walk<'_> {
    fn go(&mut self, f: usize) {
        for g in 0..=self.files[f].imports.len() {
            self.slots.push((f, g));
            let Some(p) = self.files[f].imports.get(g) else { break };
            match lookup(self.files[f].path.parent().unwrap(), self.dirs, p) {
                None => {
                    self.missing = Some(p.clone());
                    return;
                }
                Some((q, from)) => {
                    self.searched_dirs |= from > 0;
                    if !self.visited.insert(q.clone()) {
                        self.again = true;
                        continue;
                    }
                    let i = self.files.iter().position(|x| x.path == q).expect("file of the graph");
                    self.go(i);
                    if self.missing.is_some() {
                        return;
                    }
                }
            }
        }
    }
}

/// The file a path denotes: beside the importing file, else in the first
/// import directory that has it.
fn lookup(here: &Path, dirs: &[PathBuf], p: &str) -> Option<(PathBuf, usize)> {
    for (i, d) in std::iter::once(here).chain(dirs.iter().map(|d| d.as_path())).enumerate() {
        if let Ok(q) = std::fs::canonicalize(d.join(p)) {
            return Some((q, i));
        }
    }
    None
}

fn rel(from: &str, to: &str) -> String {
    let a: Vec<&str> = from.split('/').collect();
    let b: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let mut s = "../".repeat(a.len() - k);
    s.push_str(&b[k..].join("/"));
    s
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let root = ctx.dir();
    for d in DIRS {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    std::os::unix::fs::symlink(root.join("d1"), root.join("ln")).unwrap();
    // files
    let mut files: Vec<File> = vec![];
    let max = if ctx.thorough { 9 } else { 7 };
    while t.more(files.len(), max, 6, 7) || files.is_empty() {
        let kind = if files.is_empty() { F::Idl } else { [F::Idl, F::Avpr, F::Avsc][t.weighted(&[70, 15, 15])] };
        let base = (*t.pick(&["f", "g", "h", "F"])).to_string();
        let dir = *t.pick(DIRS);
        let ext = match kind {
            F::Idl => "avdl",
            F::Avpr => "avpr",
            F::Avsc => "avsc",
        };
        let mut path = root.join(dir).join(format!("{base}.{ext}"));
        let mut n = 1;
        while files.iter().any(|f| f.path == path) {
            path = root.join(dir).join(format!("{base}{n}.{ext}"));
            n += 1;
        }
        let ns = namespace(t);
        let mode = if kind == F::Idl { t.weighted(&[60, 15, 25]) as u8 } else { 2 };
        files.push(File { path, kind, mode, ns, imports: vec![], gaps: vec![], msgs: BTreeMap::new() });
    }
    // import directories
    let mut dirs: Vec<PathBuf> = vec![];
    while t.more(dirs.len(), 4, 1, 2) {
        let d = *t.pick(&["d0", "d1", "d0/s", "d1/s", "ln", "", "nowhere"]);
        dirs.push(root.join(d));
    }
    // links beside files
    let rels: Vec<String> = files.iter().map(|f| f.path.strip_prefix(&root).unwrap().to_str().unwrap().to_string()).collect();
    for f in &files {
        std::fs::write(&f.path, "").unwrap();
        let name = f.path.file_name().unwrap().to_str().unwrap();
        let l = f.path.with_file_name(format!("l_{name}"));
        let _ = std::os::unix::fs::symlink(name, l);
    }
    let n = files.len();
    let mut has_missing = false;
    for i in 0..n {
        let mut imports = vec![];
        if files[i].kind == F::Idl {
            let here = files[i].path.parent().unwrap().strip_prefix(&root).unwrap().to_str().unwrap().to_string();
            while t.more(imports.len(), 4, if i == 0 { 9 } else { 8 }, if i == 0 { 10 } else { 11 }) {
                let j = if i + 1 < n && t.chance(2, 3) { i + 1 + t.usize(n - i - 1) } else { t.usize(n) };
                let target = &rels[j];
                let name = target.rsplit('/').next().unwrap();
                let straight = rel(&here, target);
                let p = match t.weighted(&[40, 25, 8, 8, 8, 5, 4, 2, 8]) {
                    0 => straight,
                    1 => name.to_string(),
                    2 => format!("./{straight}"),
                    3 => format!("../{}/{straight}", here.rsplit('/').next().unwrap()),
                    4 => rel(&here, &target.replace(name, &format!("l_{name}"))),
                    5 => root.join(target).to_str().unwrap().to_string(),
                    6 => target.split_once('/').unwrap().1.to_string(),
                    8 if !dirs.is_empty() => {
                        // as seen from an import directory
                        let d = t.pick(&dirs).strip_prefix(&root).unwrap().to_str().unwrap().replace("ln", "d1").replace("nowhere", "");
                        let r = if d.is_empty() { target.clone() } else { rel(&d, target) };
                        if t.chance(1, 3) { format!("../{}/{r}", d.rsplit('/').next().unwrap()).replace("..//", "") } else { r }
                    }
                    _ => format!("no_{name}"),
                };
                let p = if !p.starts_with('/') && t.chance(1, 7) { format!("{}{p}", t.pick(&["./", "././", ".//"])) } else { p };
                // reach a d1 file through the link to its directory
                let p = if p.starts_with("../d1/") && here == "d0" && t.chance(1, 6) { p.replacen("d1", "ln", 1) } else { p };
                // the kind of import must fit the file found
                imports.push(p);
            }
        }
        imports.retain(|p| {
            let miss = lookup(files[i].path.parent().unwrap(), &dirs, p).is_none();
            has_missing |= miss;
            true
        });
        files[i].gaps = vec![vec![]; imports.len() + 1];
        files[i].imports = imports;
    }
    if has_missing && !t.chance(1, 3) {
        for i in 0..n {
            let here = files[i].path.parent().unwrap().to_path_buf();
            files[i].imports.retain(|p| lookup(&here, &dirs, p).is_some());
            let k = files[i].imports.len() + 1;
            files[i].gaps.truncate(k);
        }
    }
    let start = files[0].path.clone();
    let mut w = Walk {
        files: &files,
        dirs: &dirs,
        visited: BTreeSet::from([start]),
        slots: vec![],
        missing: None,
        searched_dirs: false,
        again: false,
    };
    w.go(0);
    let (slots, missing, searched, again) = (w.slots, w.missing, w.searched_dirs, w.again);
    let reached: BTreeSet<usize> = slots.iter().map(|s| s.0).collect();
    ctx.label(format!("files-reached:{}", reached.len()));
    ctx.label_if(missing.is_some(), "missing-import");
    ctx.label_if(searched, "found-in-import-directory");
    ctx.label_if(again, "reached-again");
    ctx.nontrivial = reached.len() >= 3 || missing.is_some();

    // types
    let o = Opts {
        max_types: 9,
        docs: false,
        props: false,
        force_ns: Some(files[0].ns.clone()),
        mode: Some(files[0].mode),
        prefix: if t.coin() { "T".into() } else { String::new() },
        ..Opts::default()
    };
    let mut m = model(t, &o);
    tame_model(&mut m);
    if matches!(m.mode, Mode::Schema(_)) && files[0].mode != 1 {
        return harness("mode");
    }
    let mut at = 0;
    let mut order: Vec<Def> = vec![];
    for d in &m.defs {
        while at + 1 < slots.len() && t.chance(2, 5) {
            at += 1;
        }
        let (f, g) = slots[at];
        files[f].gaps[g].push(d.clone());
        order.push(d.clone());
    }
    for i in 0..n {
        if !reached.contains(&i) {
            // never read: may contradict everything
            files[i].gaps[0] = m.defs.iter().take(2).cloned().collect();
        }
    }
    // messages of imported files: void, told apart by their text
    for i in 0..n {
        if files[i].kind == F::Avsc || (files[i].kind == F::Idl && files[i].mode != 0) {
            continue;
        }
        for k in ["alpha", "beta", "gamma"] {
            if t.chance(1, 3) {
                files[i].msgs.insert(
                    k.to_string(),
                    Msg {
                        request: vec![],
                        response: Sch::Prim("null".into(), Props::new()),
                        errors: None,
                        oneway: t.coin(),
                        doc: Some(format!("of {}", rels[i])),
                        props: Props::new(),
                    },
                );
            }
        }
    }
    // write the files
    for i in (0..n).rev() {
        let f = &files[i];
        let txt = match f.kind {
            F::Idl => {
                let defs: Vec<Def> = f.gaps.iter().flatten().cloned().collect();
                let mut imps = vec![];
                let mut pos = 0;
                for (g, p) in f.imports.iter().enumerate() {
                    pos += f.gaps[g].len();
                    let ext = p.rsplit('.').next().unwrap();
                    let kind = match ext {
                        "avpr" => "protocol",
                        "avsc" => "schema",
                        _ => "idl",
                    };
                    imps.push((pos, kind.to_string(), p.clone()));
                }
                let (mode, proto) = if i == 0 {
                    let mut proto = m.proto.clone();
                    proto.messages.extend(f.msgs.clone());
                    (m.mode.clone(), proto)
                } else {
                    let mode = match f.mode {
                        0 => Mode::Protocol,
                        1 => Mode::Schema(Sch::Prim("int".into(), Props::new())),
                        _ => Mode::Bare,
                    };
                    (mode, Proto { name: format!("P{i}"), ns: f.ns.clone(), messages: f.msgs.clone(), ..Proto::default() })
                };
                let style = if t.chance(1, 4) { Style::Spelled } else { Style::Plain };
                let mut r = Rend::new(t, style);
                r.file(&Model { mode, proto, defs }, &imps);
                r.finish().0
            }
            F::Avpr => {
                let mut r = JsonR::new(t, vec![]);
                r.free = false;
                let mut v = r.protocol(&Proto { name: format!("P{i}"), ns: f.ns.clone(), messages: f.msgs.clone(), ..Proto::default() });
                r.done.extend(order.iter().map(|d| d.full.clone()));
                v["types"] = f.gaps[0].iter().map(|d| r.def(d, f.ns.as_deref())).collect();
                v.to_string()
            }
            F::Avsc => {
                let mut r = JsonR::new(t, vec![]);
                r.free = false;
                r.done.extend(order.iter().map(|d| d.full.clone()));
                let mut ds: Vec<serde_json::Value> = f.gaps[0].iter().map(|d| r.def(d, None)).collect();
                match ds.len() {
                    0 => "\"int\"".to_string(),
                    1 => ds.remove(0).to_string(),
                    _ => serde_json::Value::Array(ds).to_string(),
                }
            }
        };
        std::fs::write(&f.path, &txt).unwrap();
        ctx.show(format!("--- {}{}\n{txt}", rels[i], if reached.contains(&i) { "" } else { " (not reached)" }));
    }
    let shown: Vec<String> = dirs.iter().map(|d| d.strip_prefix(&root).unwrap().display().to_string()).collect();
    ctx.show(format!("--- import directories: {shown:?}"));

    let main = match t.weighted(&[70, 15, 15]) {
        0 => files[0].path.clone(),
        1 => files[0].path.with_file_name(format!("l_{}", files[0].path.file_name().unwrap().to_str().unwrap())),
        _ => root.join("d1/../d0/..").join(&rels[0]),
    };
    let conv = api::convert_file(&main, &dirs);
    let extr = api::extract_path(&main, &dirs);
    if let Some(p) = missing {
        for (what, e) in [("compilation", conv.res.err()), ("extraction", extr.res.err())] {
            let Some(e) = e else { return fail(format!("{what} succeeded although import `{p}` is nowhere to be found")) };
            if !e.all_text().contains(&p) {
                return fail(format!("{what} failed without naming the missing import `{p}`: {}", e.all_text()));
            }
        }
        return Ok(());
    }
    let x = extr.res.map_err(|e| format!("extraction failed: {}", e.all_text()))?;
    let mut got = vec![];
    for (n, v) in &x {
        let doc = read_schema(v).map_err(|e| format!("entry `{n}`: {e}\n{}", pretty(v)))?;
        match doc.root {
            Sch::Named(f) => got.push(f),
            _ => return fail(format!("entry `{n}` is no named type")),
        }
    }
    let names: Vec<String> = order.iter().map(|d| d.full.clone()).collect();
    diff("extracted types in reading order", &names, &got)?;
    match &m.mode {
        Mode::Bare => {
            if conv.res.is_ok() {
                return fail("a file without a main schema was compiled to one document");
            }
            return Ok(());
        }
        Mode::Schema(main) => {
            let v = conv.res.map_err(|e| format!("compilation failed: {}", e.all_text()))?;
            let doc = read_schema(&v).map_err(|e| format!("output: {e}\n{}", pretty(&v)))?;
            diff("main schema", main, &doc.root)?;
            return same_defs(&emission_order(&m, &[]), &order.iter().collect::<Vec<_>>(), &doc.defs);
        }
        Mode::Protocol => {}
    }
    let v = conv.res.map_err(|e| format!("compilation failed: {}", e.all_text()))?;
    (|| {
        let doc = read_protocol(&v).map_err(|e| format!("output: {e}"))?;
        let all: Vec<&Def> = order.iter().collect();
        diff("entries of types", &top_level(&all), &doc.top)?;
        same_defs(&emission_names(&all), &all, &doc.defs)?;
        // messages
        let mut want: BTreeMap<String, Vec<Msg>> = BTreeMap::new();
        let mut seen = BTreeSet::from([0usize]);
        merge(&files, &dirs, 0, &mut seen, &mut want);
        for (k, x) in &m.proto.messages {
            if !files[0].msgs.contains_key(k) {
                want.insert(k.clone(), vec![x.clone()]);
            }
        }
        let a: Vec<&String> = want.keys().collect();
        let b: Vec<&String> = doc.proto.messages.keys().collect();
        diff("names of messages", &a, &b)?;
        for (k, c) in &want {
            let g = &doc.proto.messages[k];
            if !c.contains(g) {
                return fail(format!("message `{k}` is {g:?}, expected one of {c:?}"));
            }
        }
        Ok(())
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&v)))
}

/// Acceptable meanings of each message file `f` contributes.
fn merge(files: &[File], dirs: &[PathBuf], f: usize, seen: &mut BTreeSet<usize>, out: &mut BTreeMap<String, Vec<Msg>>) {
    let mut mine: BTreeMap<String, Vec<Msg>> = BTreeMap::new();
    for p in &files[f].imports {
        let Some((q, _)) = lookup(files[f].path.parent().unwrap(), dirs, p) else { continue };
        let Some(j) = files.iter().position(|x| x.path == q) else { continue };
        if !seen.insert(j) {
            continue;
        }
        let mut sub = BTreeMap::new();
        merge(files, dirs, j, seen, &mut sub);
        for (k, v) in sub {
            mine.entry(k).or_default().extend(v);
        }
    }
    for (k, m) in &files[f].msgs {
        mine.insert(k.clone(), vec![m.clone()]);
    }
    for (k, v) in mine {
        out.entry(k).or_default().extend(v);
    }
}
