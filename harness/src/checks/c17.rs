use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::tape::Tape;

pub static C17: Check = Check {
    id: "C17",
    rule: "the token sequence of a random program (protocol, schema or bare form, perhaps importing another; in a third of the \
           cases damaged by 1-2 token edits) is written twice, with independent layout (spaces, tabs, form feeds, all line ends, \
           line and block comments, `/**/`), optional backticks, integer radix and suffix, string escapes, and an end-of-input \
           character followed by garbage. Results (or failure) of compiling and of extraction and the number of warnings must be \
           equal. Non-trivial: the second text differs in tokens, not only in layout, and the program has a type or message",
    quick: 63_000,
    thorough: 900_000,
    run,
    fixed: Some((3, fixed)),
    known: &[],
    budget: 10_000_000,
    assumptions: &["line ends inside doc comments and strings are content and are not changed"],
};

fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    let (a, b) = [
        ("protocol P { /**/ record A { int a; } /* x */ }", "protocol P { record A { int a; } }"),
        ("protocol P { /**/ record A { string s = \"/**/\"; } // */\n }", "protocol P { record A { string s = \"/\\u002a*\\57\"; } }"),
        ("protocol P { @a(-0x8000000000000000) record A {} }", "protocol P { @a(-9223372036854775808L) record `A` {} }\u{1a} {{{ /*"),
    ][i as usize];
    ctx.show(format!("{a}\n=======\n{b}"));
    ctx.nontrivial = true;
    same(&api::convert(a), &api::convert(b))
}

fn same(a: &api::Conv, b: &api::Conv) -> Res {
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => diff("compiled output", x, y)?,
        (Err(_), Err(_)) => return Ok(()),
        (Ok(_), Err(e)) => return fail(format!("only the first spelling compiles; the second: {}", e.all_text())),
        (Err(e), Ok(_)) => return fail(format!("only the second spelling compiles; the first: {}", e.all_text())),
    }
    diff("number of warnings", &a.warnings.len(), &b.warnings.len())
}

fn same_x(a: &api::Extr, b: &api::Extr) -> Res {
    match (&a.res, &b.res) {
        (Ok(x), Ok(y)) => diff("extracted schemata", x, y)?,
        (Err(_), Err(_)) => return Ok(()),
        (Ok(_), Err(e)) => return fail(format!("only the first spelling can be extracted; the second: {}", e.all_text())),
        (Err(e), Ok(_)) => return fail(format!("only the second spelling can be extracted; the first: {}", e.all_text())),
    }
    diff("number of warnings", &a.warnings.len(), &b.warnings.len())
}

/// Token edits that keep every token well-formed.
fn edit(t: &mut Tape, toks: &mut Vec<Tok>) {
    let clean = |k: &Tok| Tok { mark: None, ..k.clone() };
    if toks.len() < 2 {
        return;
    }
    let i = t.usize(toks.len());
    let j = t.usize(toks.len());
    match t.below(6) {
        0 => {
            toks.remove(i);
        }
        1 => {
            let k = clean(&toks[i]);
            toks.insert(i, k);
        }
        2 => toks.swap(i, j),
        3 => toks[i] = clean(&toks[j]),
        4 => {
            let k = clean(&toks[j]);
            toks.insert(i, k);
        }
        _ => {
            const WORDS: &[&str] = &["record", "enum", "int", "string", "A", "B", "org.a.A", "x", "null", "union", "void", "5", "\"A\"", ",", ";", "{", "}", "?", "=", "@", "(", ")"];
            let k = Tok::new(*t.pick(WORDS));
            if t.coin() {
                toks[i] = k;
            } else {
                toks.insert(i, k);
            }
        }
    }
}

fn write(t: &mut Tape, toks: &[Tok], junk: bool) -> String {
    let style = if t.chance(3, 4) { Style::Wild } else { Style::Spelled };
    let mut s = layout(t, toks, style).0;
    if junk && t.chance(1, 3) {
        s.push('\u{1a}');
        let mut n = 0;
        while t.more(n, 6, 3, 4) {
            s.push_str(*t.pick(&["}", "{", "\"", "/*", "*/", "/** x */", "// c\n", "protocol Z {}", "\u{1a}", "é", "\u{0}", "`", ";", "record A {}"]));
            n += 1;
        }
    }
    s
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: 5, mode: None, ..Opts::default() };
    let m = model(t, &o);
    let imported = t.chance(1, 5).then(|| {
        model(t, &Opts { max_types: 3, mode: None, prefix: "I".into(), msg_prefix: "i".into(), ..Opts::default() })
    });
    let broken = t.chance(1, 3);
    let mut imports = vec![];
    if imported.is_some() {
        imports.push((t.usize(m.defs.len() + 1), "idl".to_string(), "i.avdl".to_string()));
    }
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&m, &imports);
    let mut toks = std::mem::take(&mut r.toks);
    drop(r);
    if broken {
        for _ in 0..1 + t.usize(2) {
            edit(t, &mut toks);
        }
    }
    let again = respell(t, &toks, !broken);
    let (a, b) = (write(t, &toks, false), write(t, &again, true));
    let changed = toks.iter().filter(|k| !k.doc).map(|k| &k.text).ne(again.iter().filter(|k| !k.doc).map(|k| &k.text));
    ctx.nontrivial = changed && (!m.defs.is_empty() || !m.proto.messages.is_empty());
    ctx.label_if(broken, "damaged");
    ctx.label_if(changed, "tokens-respelled");
    ctx.show(format!("{a}\n=======\n{b}"));
    if let Some(im) = &imported {
        ctx.label("with-import");
        let mut r = Rend::new(t, Style::Spelled);
        r.file(im, &[]);
        let itoks = std::mem::take(&mut r.toks);
        drop(r);
        let iagain = respell(t, &itoks, true);
        let (ia, ib) = (write(t, &itoks, false), write(t, &iagain, true));
        ctx.show(format!("--- i.avdl\n{ia}\n=======\n{ib}"));
        let d = ctx.dir();
        let mut paths = vec![];
        for (n, main, imp) in [("a", &a, &ia), ("b", &b, &ib)] {
            let dir = d.join(n);
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("i.avdl"), imp).unwrap();
            std::fs::write(dir.join("main.avdl"), main).unwrap();
            paths.push(dir.join("main.avdl"));
        }
        let (ca, cb) = (api::convert_file(&paths[0], &[]), api::convert_file(&paths[1], &[]));
        ctx.label(if ca.res.is_ok() { "compiles" } else { "fails" });
        if !broken && m.mode != Mode::Bare {
            if let Err(e) = &ca.res {
                return fail(format!("valid IDL was rejected: {}", e.all_text()));
            }
        }
        same(&ca, &cb)?;
        return same_x(&api::extract_path(&paths[0], &[]), &api::extract_path(&paths[1], &[]));
    }
    let (ca, cb) = (api::convert(&a), api::convert(&b));
    ctx.label(if ca.res.is_ok() { "compiles" } else { "fails" });
    if !broken && m.mode != Mode::Bare {
        if let Err(e) = &ca.res {
            return fail(format!("valid IDL was rejected: {}", e.all_text()));
        }
    }
    same(&ca, &cb)?;
    same_x(&api::extract(&a), &api::extract(&b))
}
