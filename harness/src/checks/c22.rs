use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use std::collections::BTreeSet;

pub static C22: Check = Check {
    id: "C22",
    rule: "1-8 types whose names are random edits of a common word or of a primitive's name (ASCII, accented, Cyrillic, CJK), in up to \
           three namespaces, some in an imported IDL or JSON file; 1-4 references to undeclared names, 0-3 edits away from a type or \
           primitive, dotted or not, as field, parameter, response or main schema. Each undefined name must be reported once, with a \
           suggestion or none: it must be a primitive or declared type, at most two edits away, none strictly closer (naive edit \
           distance on characters, of full or simple names); a name of 5 or more characters within one edit of exactly one must get \
           it; a note on case must come with a primitive just when only the case differs; `void` and `decimal` \
           taken for types must be explained instead. An eighth misspells a keyword instead: what a syntax error suggests for a word is a keyword, and none is closer. Non-trivial: two candidates within two edits of one undefined name",
    quick: 250_000,
    thorough: 1_000_000,
    run,
    fixed: None,
    known: &[],
    budget: 10_000_000,
    assumptions: &[],
};

const PRIMS: &[&str] = &["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

/// Edit distance in characters, by the definition.
fn dist(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 || j == 0 {
                i + j
            } else if a[i - 1] == b[j - 1] {
                d[i - 1][j - 1]
            } else {
                1 + d[i - 1][j - 1].min(d[i - 1][j]).min(d[i][j - 1])
            };
        }
    }
    d[a.len()][b.len()]
}

fn edit(t: &mut Tape, s: &str, letters: &[char]) -> String {
    let mut c: Vec<char> = s.chars().collect();
    let i = t.usize(c.len() + 1);
    let x = *t.pick(letters);
    match t.below(5) {
        0 => c.insert(i, x),
        1 if i < c.len() => drop(c.remove(i)),
        2 if i < c.len() => c[i] = if c[i].is_lowercase() { c[i].to_ascii_uppercase() } else { c[i].to_ascii_lowercase() },
        3 if i + 1 < c.len() => c.swap(i, i + 1),
        _ if i < c.len() => c[i] = x,
        _ => c.push(x),
    }
    c.into_iter().collect()
}

fn good(s: &str) -> bool {
    valid_name(s) && !RESERVED_WORDS.contains(&s)
}

const KEYWORDS: &[&str] = &[
    "protocol", "record", "error", "enum", "fixed", "import", "schema", "namespace", "boolean", "int", "long", "float", "double", "string",
    "bytes", "null", "array", "map", "union", "void", "oneway", "throws", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid",
];

/// A misspelt keyword: what is suggested for a word is the keyword nearest to it.
fn keyword(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let m = model(t, &Opts { max_types: 2, mode: None, docs: false, ..Opts::default() });
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&m, &[]);
    let mut toks = std::mem::take(&mut r.toks);
    drop(r);
    let at: Vec<usize> = (0..toks.len()).filter(|i| KEYWORDS.contains(&toks[*i].text.as_str())).collect();
    if at.is_empty() {
        return Ok(());
    }
    let i = *t.pick(&at);
    for _ in 0..1 + t.usize(2) {
        toks[i].text = edit(t, &toks[i].text, &['a', 'e', 'o', 'r', 'E', '_', 's', 'é']);
    }
    let src = layout(t, &toks, Style::Spelled).0;
    ctx.show(format!("--- misspelt keyword `{}`\n{src}", toks[i].text));
    let Err(e) = extract(&src).res else { return Ok(()) };
    let all = e.all_text();
    for (j, _) in all.match_indices("` -- did you mean `") {
        let word = all[..j].rsplit('`').next().unwrap().to_ascii_lowercase();
        let got = all[j + 19..].split('`').next().unwrap();
        // the other advice of this form is to quote the word
        if got.starts_with('"') {
            continue;
        }
        ctx.label("keyword-suggested");
        if !KEYWORDS.contains(&got) {
            return fail(format!("`{got}`, suggested for `{word}`, is not a keyword"));
        }
        if let Some(b) = KEYWORDS.iter().find(|k| dist(&word, k) < dist(&word, got)) {
            return fail(format!("`{got}` is suggested for `{word}`, `{b}` is closer"));
        }
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    if t.chance(1, 8) {
        return keyword(t, ctx);
    }
    let (word, letters): (&str, &[char]) = *t.pick(&[
        ("Account", &['A', 'c', 'n', 't', 'x', '_', '1', 'é'][..]),
        ("Größe", &['G', 'r', 'ö', 'ß', 'o', 'e', 'ø']),
        ("Пользователь", &['П', 'о', 'л', 'ь', 'O', 'o', 'x']),
        ("名前空間", &['名', '前', '空', '間', 'x']),
        ("Ab", &['A', 'b', 'c', 'é']),
        ("string", &['s', 't', 'r', 'i', 'n', 'g', 'S', 'ı', 'ñ']),
        ("CustomerRecord", &['C', 'r', 'e', 'R', 'ё', 'o', 'd']),
        ("naïveÜser1", &['n', 'ï', 'i', 'Ü', 'U', '1']),
    ]);
    let nss: &[Option<&str>] = *t.pick(&[&[None][..], &[Some("org")], &[Some("org"), None], &[Some("org"), Some("orga"), Some("org.é")]]);
    let mut names: Vec<String> = vec![];
    let n = 1 + t.usize(8);
    for _ in 0..n {
        let mut s = if t.chance(1, 6) { (*t.pick(PRIMS)).to_string() } else { word.to_string() };
        for _ in 0..t.weighted(&[20, 30, 30, 15, 5]) {
            s = edit(t, &s, letters);
        }
        let full = join(*t.pick(nss), &s);
        if good(&s) && !names.contains(&full) {
            names.push(full);
        }
    }
    let ns = nss[0].map(|s| s.to_string());
    let ns = if ns.is_some() && t.chance(1, 4) { None } else { ns };
    // undeclared names
    let mut refs: Vec<String> = vec![];
    let near: BTreeSet<String> = names.iter().cloned().collect();
    let want = 1 + t.usize(4);
    for _ in 0..want {
        let full = match t.below(5) {
            0 => join(ns.as_deref(), t.pick(PRIMS)),
            1 => join(ns.as_deref(), word),
            2 if t.chance(1, 6) => {
                // keywords which are no types by themselves
                let full = join(ns.as_deref(), t.pick(&["void", "decimal"]));
                if !refs.contains(&full) {
                    refs.push(full);
                }
                continue;
            }
            _ if !names.is_empty() => t.pick(&names).clone(),
            _ => join(ns.as_deref(), "Lost"),
        };
        let (mut space, mut s) = (ns_of(&full).map(|s| s.to_string()), simple_of(&full).to_string());
        for _ in 0..t.weighted(&[10, 50, 25, 15]) {
            s = edit(t, &s, letters);
        }
        match t.below(6) {
            0 => space = t.pick(nss).map(|s| s.to_string()),
            1 => space = space.map(|x| edit(t, &x, letters)),
            2 => space = ns.clone(),
            _ => {}
        }
        let full = join(space.as_deref(), &s);
        let ok = good(&s) && space.as_deref().is_none_or(|x| x.split('.').all(good)) && spellable(&full, ns.as_deref());
        if ok && !near.contains(&full) && !refs.contains(&full) {
            refs.push(full);
        }
    }
    if refs.is_empty() {
        return Ok(());
    }
    // program
    let rec = |full: &str, t: &mut Tape| Def {
        full: full.to_string(),
        kind: match t.below(3) {
            0 => Kind::Record { error: false, fields: vec![] },
            1 => Kind::Enum { symbols: vec!["A".into()], default: None },
            _ => Kind::Fixed { size: 3 },
        },
        doc: None,
        aliases: vec![],
        props: Props::new(),
    };
    let defs: Vec<Def> = names.iter().map(|n| rec(n, t)).collect();
    let imported = if t.chance(1, 3) { t.usize(defs.len() + 1) } else { 0 };
    let mut m = Model { mode: Mode::Protocol, proto: Proto { name: "P".into(), ns, ..Proto::default() }, defs: defs[imported..].to_vec() };
    if t.chance(1, 3) {
        m.mode = if t.coin() { Mode::Bare } else { Mode::Schema(Sch::Prim("int".into(), Props::new())) };
    }
    let mut fields = vec![];
    for (i, r) in refs.iter().enumerate() {
        let n = Sch::Named(r.clone());
        let ty = match t.below(4) {
            0 => Sch::Array(Box::new(n), Props::new()),
            1 => Sch::Union(vec![Sch::Prim("null".into(), Props::new()), n]),
            _ => n,
        };
        let f = |i: usize, ty: Sch| Fld {
            name: format!("f{i}"),
            ty,
            default: None,
            order: "ascending".into(),
            aliases: vec![],
            doc: None,
            props: Props::new(),
        };
        match (&mut m.mode, t.below(3)) {
            (Mode::Protocol, 0) => {
                // as a response, void is a type
                let (request, response) =
                    if t.coin() || simple_of(r) == "void" { (vec![f(0, ty)], Sch::Prim("null".into(), Props::new())) } else { (vec![], ty) };
                let x = Msg { request, response, errors: None, oneway: false, doc: None, props: Props::new() };
                m.proto.messages.insert(format!("m{i}"), x);
            }
            (Mode::Schema(s), 0) if *s == Sch::Prim("int".into(), Props::new()) => *s = ty,
            _ => fields.push(f(i, ty)),
        }
    }
    // the holder is far from every other name and in the file's namespace
    let holder = join(m.ns(), "HolderOfEverythingUndefined");
    if !fields.is_empty() {
        let at = t.usize(m.defs.len() + 1);
        let d = Def { full: holder, kind: Kind::Record { error: false, fields }, doc: None, aliases: vec![], props: Props::new() };
        m.defs.insert(at, d);
    }
    let dir = ctx.dir();
    let mut imports = vec![];
    if imported > 0 {
        let part = &defs[..imported];
        let other = Proto { name: "Other".into(), ..Proto::default() };
        let (kind, txt) = if t.coin() {
            let v = crate::jsonr::JsonR::new(t, part.iter().collect()).protocol(&other);
            ("protocol", v.to_string())
        } else {
            ("idl", render(t, &Model { mode: Mode::Bare, proto: other, defs: part.to_vec() }, Style::Spelled))
        };
        std::fs::write(dir.join("i"), &txt).unwrap();
        ctx.show(format!("--- i\n{txt}"));
        imports.push((t.usize(m.defs.len() + 1), kind.to_string(), "i".to_string()));
        ctx.label("imported-candidates");
    }
    let mut r = Rend::new(t, Style::Spelled);
    r.file(&m, &imports);
    let src = r.finish().0;
    ctx.show(format!("--- main\n{src}\n--- undefined: {refs:?}"));
    let p = dir.join("m.avdl");
    std::fs::write(&p, &src).unwrap();
    let e = if m.mode != Mode::Bare && t.coin() {
        match convert_file(&p, &[]).res {
            Ok(v) => return fail(format!("undefined names were accepted:\n{}", pretty(&v))),
            Err(e) => e,
        }
    } else {
        match extract_path(&p, &[]).res {
            Ok(v) => return fail(format!("undefined names were accepted by extraction:\n{v:#?}")),
            Err(e) => e,
        }
    };
    let mut all = vec![&e];
    all.extend(&e.related);
    let mut seen = vec![];
    for d in all {
        let own = format!("{}\n{}", d.message, d.chain.join("\n"));
        let Some(name) = own.split("Undefined name: ").nth(1).and_then(|s| s.lines().next()) else {
            return harness(format!("another report: {}", e.all_text()));
        };
        if !refs.iter().any(|r| r == name) {
            return fail(format!("`{name}` is reported as undefined, the undefined names are {refs:?}"));
        }
        seen.push(name.to_string());
        one(ctx, name, &names, d.help.as_deref())?;
    }
    seen.sort();
    let mut want = refs.clone();
    want.sort();
    diff("undefined names", &want, &seen)
}

fn one(ctx: &mut Ctx, name: &str, names: &[String], help: Option<&str>) -> Res {
    let simple = simple_of(name);
    let advice = [("void", "return type"), ("decimal", "precision")];
    for (word, what) in advice {
        let told = help.is_some_and(|h| h.contains(what));
        if told != (simple == word) {
            return fail(format!("`{name}` is undefined, and {}: {help:?}", if told { format!("`{word}` is explained") } else { "its use is not explained".into() }));
        }
    }
    if advice.iter().any(|a| a.0 == simple) {
        ctx.label("keyword-explained");
        return Ok(());
    }
    let mut cands: Vec<(usize, String)> = PRIMS.iter().map(|p| (dist(simple, p), p.to_string())).collect();
    for n in names {
        cands.push((dist(name, n).min(dist(simple, simple_of(n))), n.clone()));
    }
    let holder = cands.iter().map(|c| c.0).min().unwrap();
    let close: Vec<&(usize, String)> = cands.iter().filter(|c| c.0 <= 1).collect();
    ctx.nontrivial |= cands.iter().filter(|c| c.0 <= 2).count() >= 2;
    let got = help.and_then(|h| h.split("did you mean `").nth(1)).and_then(|h| h.split('`').next());
    ctx.label(format!("nearest:{}{}", holder.min(4), if got.is_some() { "" } else { "-none" }));
    ctx.label_if(!name.is_ascii(), "not-ascii");
    let note = help.is_some_and(|h| h.to_lowercase().contains("lowercase"));
    let case_only = got.is_some_and(|g| PRIMS.contains(&g) && simple.eq_ignore_ascii_case(g));
    ctx.label_if(case_only, "differs-in-case-only");
    if note != case_only {
        let w = if note { "without reason" } else { "not" };
        return fail(format!("for `{name}`, `{}` is suggested, and it is {w} noted that primitives are lowercase: {help:?}", got.unwrap_or("nothing")));
    }
    match got {
        Some(g) => {
            let Some(c) = cands.iter().find(|c| c.1 == g) else {
                return fail(format!("`{g}`, suggested for `{name}`, is neither a primitive nor declared"));
            };
            if let Some(b) = cands.iter().find(|x| x.0 < c.0) {
                return fail(format!("for `{name}`, `{g}` ({} edits away) is suggested, `{}` ({}) is closer", c.0, b.1, b.0));
            }
            if c.0 > 2 {
                return fail(format!("`{g}` is suggested for `{name}`, {} edits away", c.0));
            }
        }
        None => {
            if close.len() == 1 && simple.chars().count() >= 5 {
                return fail(format!("no suggestion for `{name}`, though `{}` is {} edits away", close[0].1, close[0].0));
            }
        }
    }
    Ok(())
}
