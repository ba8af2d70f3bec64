use super::c15::source;
use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::tape::Tape;
use avdl::{Idl, Idl2Schemata};
use serde_json::Value;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub static C18: Check = Check {
    id: "C18",
    rule: "a random file tree (programs of all forms, valid, warning or faulty, with imports found next to the file or only \
           through import directories; directories of programs) and a random command line (both commands, paths relative or \
           absolute, dashes, omitted arguments, options in all places, missing files and directories, occupied outputs, full \
           devices, closed pipes, unusable arguments, requests for help) for the built tool. Exit status, standard output, standard error and the difference \
           between the file trees before and after must be what the library's result demands; in a third of the successful runs \
           with output files these are damaged (also at equal size) or removed and the command run again, which must restore \
           them. Non-trivial: a command that reaches \
           the compiler",
    quick: 10_000,
    thorough: 80_000,
    run,
    fixed: Some((4, fixed)),
    known: &[("same-simple-name", same_simple_name)],
    budget: 200_000_000,
    assumptions: &["messages are compared after dropping everything but letters and digits (the renderer wraps lines)"],
};

fn binary() -> PathBuf {
    verif_root().join("harness/target/cli/debug/avdl")
}

struct Ran {
    code: Option<i32>,
    out: Vec<u8>,
    err: String,
}

/// Where standard output goes.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sink {
    Read,
    /// a full device
    Full,
    /// a pipe nobody reads any more
    Closed,
}

fn tool(cwd: &Path, args: &[String], stdin: &[u8], sink: Sink) -> Result<Ran, String> {
    let mut c = Command::new(binary());
    c.args(args).current_dir(cwd).env_clear().env("LANG", "C.UTF-8").env("NO_COLOR", "1");
    c.stdin(Stdio::piped()).stderr(Stdio::piped());
    match sink {
        Sink::Full => c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| format!("HARNESS: {e}"))?),
        Sink::Closed => c.stdout(std::io::pipe().map_err(|e| format!("HARNESS: {e}"))?.1),
        Sink::Read => c.stdout(Stdio::piped()),
    };
    let mut ch = c.spawn().map_err(|e| format!("HARNESS: cannot run the tool: {e}"))?;
    let mut si = ch.stdin.take().unwrap();
    let text = stdin.to_vec();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(&text);
    });
    let o = ch.wait_with_output().map_err(|e| format!("HARNESS: {e}"))?;
    let _ = h.join();
    Ok(Ran { code: o.status.code(), out: o.stdout, err: String::from_utf8_lossy(&o.stderr).into_owned() })
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| c.is_alphanumeric()).collect()
}

type Tree = BTreeMap<String, Option<Vec<u8>>>;
fn tree(d: &Path) -> Tree {
    fn go(d: &Path, pre: &str, out: &mut Tree) {
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            let name = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().unwrap().is_dir() {
                out.insert(format!("{name}/"), None);
                go(&e.path(), &format!("{name}/"), out);
            } else {
                out.insert(name, Some(std::fs::read(e.path()).unwrap()));
            }
        }
    }
    let mut t = Tree::new();
    go(d, "", &mut t);
    t
}
fn tree_diff(before: &Tree, after: &Tree) -> Vec<String> {
    let mut v: Vec<String> = after.iter().filter(|(k, x)| before.get(*k) != Some(x)).map(|(k, _)| k.clone()).collect();
    v.extend(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("removed {k}")));
    v.sort();
    v
}

/// Two schemata of one simple name end up in one file (recorded finding).
fn same_simple_name(ctx: &mut Ctx) -> bool {
    let d = ctx.dir();
    std::fs::write(d.join("m.avdl"), "@namespace(\"a\") protocol P { record R { int x; } @namespace(\"b\") record R { string y; } }").unwrap();
    let args: Vec<String> = ["idl2schemata", "m.avdl", "out"].iter().map(|s| s.to_string()).collect();
    match tool(&d, &args, b"", Sink::Read) {
        Ok(r) => r.code == Some(0) && tree(&d.join("out")).len() == 1,
        Err(_) => true,
    }
}

fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    // a full device, with outputs of one and of several lines
    let d = ctx.dir();
    let src = ["schema int;", "protocol P {}", "schema array<string>;", "schema Foo; record Foo {}"][i as usize];
    std::fs::write(d.join("m.avdl"), src).unwrap();
    ctx.nontrivial = true;
    let r = tool(&d, &["idl".into(), "m.avdl".into()], b"", Sink::Full)?;
    if r.code == Some(0) || r.code.is_none() || r.err.trim().is_empty() {
        return fail(format!("`{src}` compiled to a full device: status {:?}, standard error: {}", r.code, r.err));
    }
    Ok(())
}

fn program(t: &mut Tape, ctx: &mut Ctx) -> String {
    match t.weighted(&[50, 50]) {
        0 => {
            let m = model(t, &Opts { max_types: 4, mode: None, ..Opts::default() });
            let style = [Style::Spelled, Style::Wild][t.usize(2)];
            render(t, &m, style)
        }
        _ => source(t, ctx),
    }
}

/// Adds import statements to a program (where it is easily possible).
fn with_imports(s: String, imps: &str) -> String {
    if imps.is_empty() {
        return s;
    }
    match s.find('{') {
        Some(p) if s.contains("protocol") => format!("{} {imps} {}", &s[..=p], &s[p + 1..]),
        _ => format!("{imps} {s}"),
    }
}

struct Chdir(PathBuf);
impl Drop for Chdir {
    fn drop(&mut self) {
        let _ = std::env::set_current_dir(&self.0);
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if !binary().exists() {
        return harness("the avdl binary has not been built");
    }
    let d = ctx.dir();
    let w = |p: &str, s: &str| {
        let f = d.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, s).unwrap();
    };
    // the file tree
    let names = ["main.avdl", "a b.avdl", "sub/m.avdl", "é.avdl", "sub/deep/x.avdl", "noext", "-dash.avdl"];
    let mut files: Vec<&str> = vec![];
    for _ in 0..1 + t.usize(2) {
        let n = *t.pick(&names);
        let mut s = program(t, ctx);
        let mut imps = String::new();
        if t.chance(1, 3) {
            let target = *t.pick(&["lib1.avdl", "lib2.avdl", "lib.avsc", "gone.avdl"]);
            imps = format!("import {} \"{target}\"; ", if target.ends_with("avsc") { "schema" } else { "idl" });
        }
        s = with_imports(s, &imps);
        if !files.contains(&n) {
            files.push(n);
            w(n, &s);
        }
    }
    w("inc/lib1.avdl", "protocol L { record ZLib1 { int a; } /** stray */ }");
    w("inc two/lib2.avdl", "@namespace(\"q\") protocol L { enum ZLib2 { A, B } }");
    w("inc two/lib1.avdl", "protocol L { fixed ZLibTwo(3); }");
    w("inc/lib.avsc", "[{\"type\":\"fixed\",\"name\":\"ZJ\",\"size\":1}]");
    if t.chance(1, 3) {
        w("lib1.avdl", "protocol L { record ZHere {} }");
    }
    w("keep.txt", "keep me");
    w("old.json", "{\"old\": true}                                                                   ");
    if t.coin() {
        w("out/ZOld.avsc", "\"old\"");
    }
    if t.chance(1, 4) {
        w("bytes.avdl", "x");
        std::fs::write(d.join("bytes.avdl"), b"schema int; \xff\xfe").unwrap();
        files.push("bytes.avdl");
    }
    // the command line
    let idl = t.chance(3, 5);
    let mut opts: Vec<(PathBuf, Vec<String>)> = vec![];
    for _ in 0..t.weighted(&[50, 35, 15]) {
        let dir = *t.pick(&["inc", "inc two", "nowhere", "./inc", "sub/../inc", "."]);
        let dir = if t.chance(1, 4) { d.join(dir).to_string_lossy().into_owned() } else { dir.to_string() };
        let a = if t.coin() { vec![format!("--import-dir={dir}")] } else { vec!["--import-dir".to_string(), dir.clone()] };
        opts.push((PathBuf::from(dir), a));
    }
    let file = *t.pick(&files);
    let path_of = |t: &mut Tape, p: &str| -> String {
        match t.below(4) {
            0 => d.join(p).to_string_lossy().into_owned(),
            1 => format!("./{p}"),
            _ => p.to_string(),
        }
    };
    #[derive(PartialEq, Debug)]
    enum In {
        File(String),
        Stdin(Vec<u8>, &'static str),
    }
    let mut input_args: Vec<String> = vec![];
    let mut omitted = false;
    let input = match t.weighted(&[55, if idl { 25 } else { 0 }, 8, 6, if idl { 4 } else { 25 }]) {
        0 => {
            let p = path_of(t, file);
            input_args.push(p.clone());
            In::File(p)
        }
        1 => {
            let text = std::fs::read(d.join(file)).unwrap();
            if t.coin() {
                input_args.push("-".into());
                In::Stdin(text, "-")
            } else {
                omitted = true;
                In::Stdin(text, "<stdin>")
            }
        }
        2 => {
            input_args.push("missing.avdl".into());
            In::File("missing.avdl".into())
        }
        3 => {
            input_args.push("keep.txt".into());
            In::File("keep.txt".into())
        }
        _ => {
            let p = (*t.pick(&[".", "sub", "inc", "inc two", "sub/"])).to_string();
            input_args.push(p.clone());
            In::File(p)
        }
    };
    // output argument
    let mut sink = Sink::Read;
    let out = if idl {
        if omitted {
            None
        } else {
            match t.weighted(&[25, 20, 18, 15, 6, 6, 4, 12, 5]) {
                0 => None,
                1 => Some("-".to_string()),
                2 => Some(path_of(t, "new.json")),
                3 => Some(path_of(t, "old.json")),
                4 => Some("nodir/new.json".to_string()),
                5 => Some("inc".to_string()),
                6 => Some("/dev/full".to_string()),
                8 => Some("-new.json".to_string()),
                _ => {
                    sink = if t.coin() { Sink::Full } else { Sink::Closed };
                    t.coin().then(|| "-".to_string())
                }
            }
        }
    } else {
        match t.weighted(&[20, 28, 23, 8, 8, 8, 5]) {
            0 => None,
            1 => Some(path_of(t, "out")),
            2 => Some(path_of(t, "new/dir")),
            3 => Some("keep.txt".to_string()),
            4 => Some("keep.txt/x".to_string()),
            6 => Some("-new/dir".to_string()),
            _ => Some("out/".to_string()),
        }
    };
    let mut args: Vec<String> = vec![];
    let mut pos: Vec<String> = input_args.clone();
    pos.extend(out.clone());
    // options before, between and after; `--` before dashed names
    let mut dirs: Vec<PathBuf> = vec![];
    let mut queue = opts.clone();
    let mut dashed = false;
    for (i, p) in pos.iter().enumerate() {
        while !queue.is_empty() && (t.coin() || pos[i..].iter().any(|p| p.starts_with('-') && p.len() > 1)) && !dashed {
            let (dir, a) = queue.remove(0);
            dirs.push(dir);
            args.extend(a);
        }
        if p.starts_with('-') && p.len() > 1 && !dashed {
            args.push("--".into());
            dashed = true;
        }
        args.push(p.clone());
    }
    if !dashed {
        for (dir, a) in queue {
            dirs.push(dir);
            args.extend(a);
        }
    }
    args.insert(0, if idl { "idl" } else { "idl2schemata" }.into());
    // unusable command lines
    let mut usage = false;
    if t.chance(1, 12) {
        usage = true;
        match t.below(6) {
            0 => args = vec![],
            1 => args[0] = (*t.pick(&["compile", "IDL", "idl2", ""])).to_string(),
            2 => args.insert(1, "--unknown".into()),
            3 => {
                if args.contains(&"--".to_string()) {
                    args.insert(1, "--unknown=3".into());
                } else {
                    args.push("--import-dir".into());
                }
            }
            4 => args = vec!["idl2schemata".into()],
            _ => args.insert(1, "-x".into()),
        }
        sink = Sink::Read;
    }
    if !usage && t.chance(1, 25) {
        return help(t, ctx, &d, args);
    }
    ctx.show(format!("avdl {args:?}"));
    for (k, v) in tree(&d) {
        if let Some(v) = v {
            if files.contains(&k.as_str()) {
                ctx.show(format!("--- {k}\n{}", String::from_utf8_lossy(&v)));
            }
        }
    }
    ctx.label(if usage { "usage" } else if idl { "idl" } else { "idl2schemata" });
    let stdin: Vec<u8> = match &input {
        In::Stdin(x, _) => x.clone(),
        _ => b"protocol ZWrong {}".to_vec(),
    };
    // what the library says
    let back = Chdir(std::env::current_dir().map_err(|e| format!("HARNESS: {e}"))?);
    std::env::set_current_dir(&d).map_err(|e| format!("HARNESS: {e}"))?;
    let (res, warnings): (Result<Vec<(Option<String>, Value)>, Diag>, Vec<Diag>) = if usage {
        (Ok(vec![]), vec![])
    } else if idl {
        let mut b = Idl::new();
        for x in &dirs {
            b.import_dir(x);
        }
        let r = match &input {
            In::File(p) => Some(b.convert(p)),
            In::Stdin(s, n) => std::str::from_utf8(s).ok().map(|s| b.convert_str_named(leak(s), n)),
        };
        match r {
            Some(r) => {
                let w = b.drain_warnings();
                let c = fin_conv(r, w);
                let w = if c.res.is_ok() { c.warnings } else { c.drained };
                (c.res.map(|v| vec![(None, v)]), w)
            }
            None => (Err(unreadable()), vec![]),
        }
    } else {
        let mut b = Idl2Schemata::new();
        for x in &dirs {
            b.import_dir(x);
        }
        let In::File(p) = &input else { return harness("input") };
        let r = b.extract(p);
        let w = b.drain_warnings();
        let c = fin_extr(r, w);
        let w = if c.res.is_ok() { c.warnings } else { c.drained };
        (c.res.map(|v| v.into_iter().map(|(n, v)| (Some(n), v)).collect()), w)
    };
    drop(back);
    ctx.nontrivial = !usage;
    ctx.label(match &res {
        Ok(_) if usage => "bad-usage",
        Ok(_) => "compiles",
        Err(_) => "fails",
    });
    ctx.label_if(!warnings.is_empty(), "warnings");
    ctx.label_if(sink == Sink::Full, "full-device");
    ctx.label_if(sink == Sink::Closed, "closed-pipe");
    let before = tree(&d);
    let r = tool(&d, &args, &stdin, sink)?;
    let after = tree(&d);
    ctx.show(format!("status {:?}\nstdout: {}\nstderr: {}", r.code, String::from_utf8_lossy(&r.out), r.err));
    let changes = tree_diff(&before, &after);
    if r.err.contains("panicked at") || r.code.is_none() {
        return fail(format!("the tool crashed: {:?} {}", r.code, r.err));
    }
    if usage || res.is_err() {
        if r.code == Some(0) {
            return fail("a failure ended with status 0");
        }
        if r.err.trim().is_empty() {
            return fail("a failure was not reported on standard error");
        }
        if !r.out.is_empty() {
            return fail("a failure wrote to standard output");
        }
        if !changes.is_empty() {
            return fail(format!("a failure changed files: {changes:?}"));
        }
    }
    if usage {
        return Ok(());
    }
    // standard error
    let err = squeeze(&r.err);
    let mut at = 0;
    for x in &warnings {
        let m = squeeze(&x.message);
        match err[at..].find(&m) {
            Some(p) => at += p + m.len(),
            None => return fail(format!("standard error lacks (or misplaces) the warning `{}`", x.message)),
        }
    }
    let marks = r.err.lines().filter(|l| l.trim_start().starts_with('⚠')).count();
    diff("warnings on standard error", &warnings.len(), &marks)?;
    if let Err(e) = &res {
        for m in std::iter::once(&e.message).chain(&e.chain) {
            if !err[at..].contains(&squeeze(m)) {
                return fail(format!("standard error lacks `{m}`"));
            }
        }
        return Ok(());
    }
    // the reader of JSON rounds some numbers: read the expected value the same way
    let want: Vec<(Option<String>, Value)> =
        res.unwrap_or_default().into_iter().map(|(n, v)| (n, serde_json::from_str(&v.to_string()).unwrap_or(v))).collect();
    let read = |b: &[u8]| -> Result<Value, String> { serde_json::from_slice(b).map_err(|e| format!("the output is not JSON: {e}")) };
    if want.iter().any(|(_, v)| serde_json::from_str::<Value>(&v.to_string()).is_err()) {
        // nested too deeply for the reader used here
        ctx.label("too-deep");
        return Ok(());
    }
    let bad_output = match out.as_deref() {
        Some("nodir/new.json" | "inc" | "/dev/full" | "keep.txt" | "keep.txt/x") => true,
        None | Some("-") => sink == Sink::Full,
        _ => false,
    };
    if bad_output {
        ctx.label("unwritable-output");
        if r.code == Some(0) || r.err.trim().is_empty() {
            return fail(format!("the output could not be written, but the status is {:?}", r.code));
        }
        if !changes.is_empty() || !r.out.is_empty() {
            return fail(format!("output in a wrong place: {changes:?}"));
        }
        return Ok(());
    }
    if !idl && want.iter().any(|(n, _)| n.as_ref().unwrap().len() + 5 > 255) {
        // no file can have such a name
        ctx.label("name-too-long");
        if r.code == Some(0) || r.err.trim().is_empty() {
            return fail(format!("a file could not be written, but the status is {:?}", r.code));
        }
        return Ok(());
    }
    diff("exit status", &Some(0), &r.code)?;
    if warnings.is_empty() && !r.err.is_empty() {
        return fail("a run without warnings wrote to standard error");
    }
    if idl {
        match out.as_deref() {
            None | Some("-") => {
                // whoever stops reading does not want the rest: no error
                if sink != Sink::Closed {
                    diff("standard output", &want[0].1, &read(&r.out)?)?;
                    if r.out.ends_with(b"\n") {
                        return fail("standard output ends with a line end");
                    }
                }
                if !changes.is_empty() {
                    return fail(format!("files changed: {changes:?}"));
                }
            }
            Some(p) => {
                if !r.out.is_empty() {
                    return fail("standard output is not empty although a file was named");
                }
                let name = if p == "-new.json" {
                    p
                } else if p.ends_with("new.json") { "new.json" } else { "old.json" };
                let text = after.get(name).cloned().flatten().unwrap_or_default();
                diff("output file", &want[0].1, &read(&text)?)?;
                one_line_end(name, &text)?;
                if changes.iter().any(|c| c != name) {
                    return fail(format!("other files changed: {changes:?}"));
                }
                again(t, ctx, &d, &args, &stdin, &[name.to_string()], &after)?;
            }
        }
        return Ok(());
    }
    if !r.out.is_empty() {
        return fail("extraction wrote to standard output");
    }
    let prefix = match out.as_deref() {
        None => "",
        Some("-new/dir") => "-new/dir/",
        Some(p) if p.contains("new") => "new/dir/",
        Some(_) => "out/",
    };
    let mut files: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for (n, v) in want {
        files.entry(format!("{prefix}{}.avsc", n.unwrap())).or_default().push(v);
    }
    for (n, vs) in &files {
        let Some(Some(b)) = after.get(n) else { return fail(format!("{n} was not written")) };
        let v = read(b)?;
        one_line_end(n, b)?;
        // several schemata of one simple name share a file: see known_findings.json
        if !vs.contains(&v) {
            return fail(format!("{n} holds {}", pretty(&v)));
        }
    }
    for c in &changes {
        let dir_of_out = c.ends_with('/') && prefix.starts_with(c.as_str());
        if !files.contains_key(c) && !dir_of_out {
            return fail(format!("unexpected change: {c}"));
        }
    }
    if let Some(p) = prefix.strip_suffix('/') {
        if !after.contains_key(&format!("{p}/")) {
            return fail("the output directory was not created");
        }
    }
    let names: Vec<String> = files.keys().cloned().collect();
    again(t, ctx, &d, &args, &stdin, &names, &after)
}

/// Disturbs the output files and runs the same command again: the result must be the same.
fn again(t: &mut Tape, ctx: &mut Ctx, d: &Path, args: &[String], stdin: &[u8], files: &[String], after: &Tree) -> Res {
    if !t.chance(1, 3) {
        return Ok(());
    }
    ctx.label("again");
    for f in files {
        let p = d.join(f);
        let mut b = std::fs::read(&p).map_err(|e| format!("HARNESS: {e}"))?;
        match t.below(6) {
            0 => {}
            1 | 2 => {
                // same size
                let i = t.usize(b.len());
                b[i] = if b[i] == b'x' { b'y' } else { b'x' };
            }
            3 => b.truncate(t.usize(b.len())),
            4 => b.extend(b"{\"more\": true}   \n\n"),
            _ => {
                std::fs::remove_file(&p).map_err(|e| format!("HARNESS: {e}"))?;
                continue;
            }
        }
        std::fs::write(&p, b).map_err(|e| format!("HARNESS: {e}"))?;
    }
    let r = tool(d, args, stdin, Sink::Read)?;
    diff("exit status of the second run", &Some(0), &r.code)?;
    let now = tree(d);
    let changes = tree_diff(after, &now);
    if !changes.is_empty() {
        let at = |t: &Tree| changes.iter().map(|c| t.get(c).cloned().flatten().map(|b| String::from_utf8_lossy(&b).into_owned())).collect::<Vec<_>>();
        return fail(format!("run again over disturbed outputs, the command leaves other files: {changes:?}\n{:?}\n{:?}", at(after), at(&now)));
    }
    Ok(())
}

/// A request for help or the version, somewhere in a usable command line.
fn help(t: &mut Tape, ctx: &mut Ctx, d: &Path, mut args: Vec<String>) -> Res {
    ctx.label("help");
    let version = t.chance(1, 4);
    let ask = if version { *t.pick(&["-V", "--version"]) } else { *t.pick(&["-h", "--help"]) };
    let main = version || t.chance(1, 4);
    let words: Vec<&str> = if version {
        vec!["avdl"]
    } else if main {
        vec!["idl", "idl2schemata", "version"]
    } else {
        vec![if args[0] == "idl" { "avdl idl " } else { "avdl idl2schemata " }, "import-dir"]
    };
    if main {
        args = vec![ask.to_string()];
        if t.coin() {
            args.push("idl".into());
        }
    } else {
        // before a `--`, and not where an option wants its value
        let end = args.iter().position(|a| a == "--").unwrap_or(args.len());
        let at = 1 + t.usize(end);
        let at = if at < args.len() && args[at - 1] == "--import-dir" { at - 1 } else { at };
        args.insert(at, ask.to_string());
    }
    ctx.show(format!("avdl {args:?}"));
    let before = tree(d);
    let r = tool(d, &args, b"protocol ZWrong {}", Sink::Read)?;
    let changes = tree_diff(&before, &tree(d));
    let out = String::from_utf8_lossy(&r.out).into_owned();
    ctx.show(format!("status {:?}\nstdout: {out}\nstderr: {}", r.code, r.err));
    if r.code != Some(0) || !r.err.is_empty() {
        return fail(format!("asking for help failed: {:?} {}", r.code, r.err));
    }
    if !changes.is_empty() {
        return fail(format!("asking for help changed files: {changes:?}"));
    }
    for w in words {
        if !out.contains(w) {
            return fail(format!("the help does not mention `{w}`: {out}"));
        }
    }
    if version && !out.chars().any(|c| c.is_ascii_digit()) {
        return fail(format!("no version number: {out}"));
    }
    Ok(())
}

/// Files end with one line end (as the reference tool's do), standard output with none.
fn one_line_end(name: &str, b: &[u8]) -> Res {
    if b.ends_with(b"\n") && !b.ends_with(b"\n\n") {
        return Ok(());
    }
    fail(format!("{name} does not end with one line end"))
}

fn unreadable() -> Diag {
    Diag {
        message: String::new(),
        chain: vec![],
        labels: vec![],
        source: None,
        help: None,
        severity: None,
        related: vec![],
        rendered: String::new(),
    }
}
