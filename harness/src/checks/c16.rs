use super::c03;
use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;
use std::collections::BTreeMap;

pub static C16: Check = Check {
    id: "C16",
    rule: "random programs of all three forms without docs get 1-5 groups of 1-3 doc comments of random text (star columns, \
           indentation, line ends, blank lines, odd characters) at random token boundaries, mixed with ordinary comments and \
           annotations. A group's last comment directly before a declaration documents it (text by an independent stripper); \
           all others must warn once, in order, exactly on the comment, with its line and column, and change nothing. Checked on \
           the compiled result and on extraction. Non-trivial: at least one attached doc and one stray",
    quick: 80_000,
    thorough: 800_000,
    run,
    fixed: None,
    known: &[],
    budget: 8_000_000,
    assumptions: &[
        "a doc made only of stars may be given as no doc or as an empty one",
        "texts with unusual whitespace at line edges or lone carriage returns are not generated",
    ],
};

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

/// The documented text of `/**body*/`.
pub fn stripped(body: &str) -> Option<String> {
    let s = body.trim_matches(is_ws);
    if s.is_empty() {
        return None;
    }
    // lines with their terminators
    let mut lines: Vec<(&str, &str)> = vec![];
    for l in s.split_inclusive('\n') {
        if let Some(x) = l.strip_suffix("\r\n") {
            lines.push((x, "\r\n"));
        } else if let Some(x) = l.strip_suffix('\n') {
            lines.push((x, "\n"));
        } else {
            lines.push((l, ""));
        }
    }
    let hor = |c: char| c == ' ' || c == '\t';
    for star in ["**", "*"] {
        let ok = lines[0].0.starts_with(star)
            && lines[1..].iter().all(|(l, _)| {
                let r = l.trim_start_matches(hor);
                r.is_empty() || r.starts_with(star)
            });
        if ok {
            let mut out = String::new();
            for (i, (l, e)) in lines.iter().enumerate() {
                let r = if i == 0 { l } else { l.trim_start_matches(hor) };
                match r.strip_prefix(star) {
                    Some(r) => out.push_str(r.strip_prefix(hor).unwrap_or(r)),
                    None => out.push_str(l),
                }
                out.push_str(e);
            }
            return Some(out);
        }
    }
    let mut common: Option<Vec<char>> = None;
    for (l, _) in &lines[1..] {
        if l.chars().all(hor) {
            continue;
        }
        let ind: Vec<char> = l.chars().take_while(|c| hor(*c)).collect();
        common = Some(match common {
            None => ind,
            Some(c) => c.iter().zip(&ind).take_while(|(a, b)| a == b).map(|(a, _)| *a).collect(),
        });
    }
    let ind: String = common.unwrap_or_default().into_iter().collect();
    let mut out = String::new();
    for (i, (l, e)) in lines.iter().enumerate() {
        out.push_str(if i > 0 { l.strip_prefix(&ind).unwrap_or(l) } else { l });
        out.push_str(e);
    }
    Some(out)
}

fn word(t: &mut Tape) -> String {
    let mut s = String::new();
    let mut n = 0;
    while t.more(n, 5, 3, 5) {
        s.push_str(*t.pick(&["a", "Text", " ", "*", "**", "é", "日本", "😀", "@x", "\"q\"", "\\u0041", "{", "//", "/*", "'", ";", "`", "\t", " * ", "e\u{301}"]));
        n += 1;
    }
    s
}
fn eol(t: &mut Tape) -> &'static str {
    if t.chance(1, 5) { "\r\n" } else { "\n" }
}

fn lines(t: &mut Tape) -> usize {
    if t.chance(1, 60) { 20 + t.usize(120) } else { 1 + t.usize(5) }
}

/// What stands between `/**` and `*/`.
fn body(t: &mut Tape) -> String {
    let indents = ["", " ", "  ", "    ", "\t", "\t ", " \t", "      "];
    let mut s = match t.below(7) {
        0 => format!(" {} ", word(t)),
        1 => (*t.pick(&["", " ", "\n", " * ", "*", "**", " ** ", "\r\n", "\n*\n", "\t", " *\n * ", "\n\n"])).to_string(),
        2 | 3 => {
            // star column, mostly consistent
            let star = *t.pick(&["*", "**"]);
            let base = *t.pick(&indents);
            let mut s = if t.coin() { eol(t).to_string() } else { format!(" {}", star) };
            let n = lines(t);
            for i in 0..n {
                if t.chance(1, 6) {
                    s.push_str(*t.pick(&["", " ", "\t"]));
                } else {
                    s.push_str(if t.chance(1, 8) { *t.pick(&indents) } else { base });
                    s.push_str(if t.chance(1, 12) { *t.pick(&["", "*", "**", "***"]) } else { star });
                    s.push_str(*t.pick(&[" ", "", "  ", "\t", " \t"]));
                    s.push_str(&word(t));
                }
                if i + 1 < n || t.coin() {
                    s.push_str(eol(t));
                }
            }
            s.push_str(*t.pick(&indents));
            s
        }
        4 | 5 => {
            // indentation
            let base = *t.pick(&indents);
            let mut s = String::new();
            let n = lines(t);
            for i in 0..n {
                if i > 0 || t.coin() {
                    s.push_str(eol(t));
                    if t.chance(1, 6) {
                        s.push_str(*t.pick(&["", " ", "\t", "        "]));
                        continue;
                    }
                    s.push_str(if t.chance(1, 8) { *t.pick(&indents) } else { base });
                    if t.chance(1, 4) {
                        s.push_str(*t.pick(&indents));
                    }
                }
                s.push_str(&word(t));
            }
            s.push_str(*t.pick(&["", " ", "\n ", "\r\n"]));
            s
        }
        _ => {
            let mut s = String::new();
            let mut n = 0;
            while t.more(n, 24, 11, 12) {
                s.push_str(*t.pick(&["*", " ", "\n", "\t", "a", "\r\n", "é", "**", "\n *", "\n  ", "x y"]));
                n += 1;
            }
            s
        }
    };
    while s.contains("*/") {
        s = s.replace("*/", "* /");
    }
    if s.starts_with('/') {
        s.insert(0, ' ');
    }
    s
}

fn set(m: &mut Model, a: &Anchor, doc: &Option<String>, groups: bool) {
    let vars = |m: &mut Model, owner: &str, f: &mut dyn FnMut(&mut Fld)| {
        let fs = match owner.strip_prefix("msg ") {
            Some(n) => &mut m.proto.messages.get_mut(n).unwrap().request,
            None => match &mut m.defs.iter_mut().find(|d| d.full == owner).unwrap().kind {
                Kind::Record { fields, .. } => fields,
                _ => unreachable!(),
            },
        };
        fs.iter_mut().for_each(f);
    };
    match a {
        Anchor::Proto => m.proto.doc = doc.clone(),
        Anchor::Def(n) => m.defs.iter_mut().find(|d| &d.full == n).unwrap().doc = doc.clone(),
        Anchor::Msg(n) => m.proto.messages.get_mut(n).unwrap().doc = doc.clone(),
        Anchor::Group(o, ns) if groups => vars(m, o, &mut |f| {
            if ns.contains(&f.name) {
                f.doc = doc.clone();
            }
        }),
        Anchor::Var(o, n) if !groups && doc.is_some() => vars(m, o, &mut |f| {
            if &f.name == n {
                f.doc = doc.clone();
            }
        }),
        _ => {}
    }
}

/// Docs made of stars only are empty; both readings of those are accepted.
fn no_empty_docs(v: &mut Value, protocol: bool) {
    fn doc(v: &mut Value) {
        if v.get("doc") == Some(&Value::String(String::new()))
            && let Some(o) = v.as_object_mut()
        {
            o.remove("doc");
        }
    }
    fn each(v: Option<&mut Value>, f: &dyn Fn(&mut Value)) {
        v.and_then(Value::as_array_mut).into_iter().flatten().for_each(f);
    }
    fn field(v: &mut Value) {
        doc(v);
        v.get_mut("type").into_iter().for_each(schema);
    }
    fn schema(v: &mut Value) {
        if let Value::Array(a) = v {
            return a.iter_mut().for_each(schema);
        }
        match v.get("type").and_then(Value::as_str) {
            Some("record" | "error") => {
                doc(v);
                each(v.get_mut("fields"), &field);
            }
            Some("enum" | "fixed") => doc(v),
            Some("array") => v.get_mut("items").into_iter().for_each(schema),
            Some("map") => v.get_mut("values").into_iter().for_each(schema),
            _ => {}
        }
    }
    if !protocol {
        return schema(v);
    }
    doc(v);
    each(v.get_mut("types"), &schema);
    for m in v.get_mut("messages").and_then(Value::as_object_mut).into_iter().flat_map(|m| m.values_mut()) {
        doc(m);
        each(m.get_mut("request"), &field);
        each(m.get_mut("errors"), &schema);
        m.get_mut("response").into_iter().for_each(schema);
    }
}

pub struct Planted {
    pub text: String,
    pub model: Model,
    /// Byte ranges of the comments that document nothing, in order.
    pub strays: Vec<(usize, usize)>,
    pub attached: Vec<Anchor>,
}

pub fn plant(t: &mut Tape, m: &Model, style: Style, imports: &[(usize, String, String)]) -> Planted {
    let mut r = Rend::new(t, style);
    r.file(m, imports);
    let (mut toks, anchors) = (std::mem::take(&mut r.toks), std::mem::take(&mut r.anchors));
    drop(r);
    // boundaries: before token i, or at the end
    let mut at: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    let mut n = 0;
    loop {
        let i = if t.chance(3, 5) && !anchors.is_empty() { anchors[t.usize(anchors.len())].0 } else { t.usize(toks.len() + 1) };
        if i == toks.len() || !toks[i].glue {
            let v = at.entry(i).or_default();
            for _ in 0..1 + t.weighted(&[70, 20, 10]) {
                v.push(body(t));
            }
        }
        n += 1;
        if !t.more(n, 5, 2, 3) {
            break;
        }
    }
    let mut model = m.clone();
    let mut docs: Vec<(Anchor, Option<String>)> = vec![];
    let mut stray_marks = vec![];
    let mut k = 0;
    let mut new: Vec<Tok> = vec![];
    let len = toks.len();
    let mut old = toks.drain(..);
    for i in 0..=len {
        if let Some(bodies) = at.get(&i) {
            let anchor = anchors.iter().find(|a| a.0 == i);
            for (j, b) in bodies.iter().enumerate() {
                let name = format!("doc{k:05}");
                k += 1;
                new.push(Tok { text: format!("/**{b}*/"), mark: Some(name.clone()), doc: true, glue: false, lex: Lex::Plain });
                if j + 1 == bodies.len() && anchor.is_some() {
                    docs.push((anchor.unwrap().1.clone(), stripped(b)));
                } else {
                    stray_marks.push(name);
                }
                if t.chance(1, 5) {
                    new.push(Tok { text: trivia_comment(t), mark: None, doc: true, glue: false, lex: Lex::Plain });
                }
            }
        }
        if i < len {
            new.push(old.next().unwrap());
        }
    }
    drop(old);
    let (text, marks) = layout(t, &new, style);
    for groups in [true, false] {
        for (a, d) in &docs {
            set(&mut model, a, d, groups);
        }
    }
    let strays = stray_marks.iter().map(|n| marks[n]).collect();
    Planted { text, model, strays, attached: docs.into_iter().map(|d| d.0).collect() }
}

pub fn line_col(text: &str, at: usize) -> (usize, usize) {
    let before = &text[..at];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap().chars().count() + 1;
    (line, col)
}

pub fn stray_warning(w: &api::Diag, text: &str, stray: (usize, usize)) -> Res {
    let labels = w.all_labels();
    if labels.is_empty() {
        return fail(format!("the warning marks no place: {}", w.message));
    }
    for (l, src) in &labels {
        diff("place of the warning", &stray, &(l.offset, l.len))?;
        let Some((_, s)) = src else { return fail("the warning has no source text") };
        // the text shown may end at an end-of-input character
        if s.get(stray.0..stray.0 + stray.1) != text.get(stray.0..stray.0 + stray.1) {
            return fail(format!("the warning shows another text: {s:?}"));
        }
    }
    let (line, col) = line_col(text, stray.0);
    let want = format!("Line {line}, char {col}: ");
    if !w.all_text().contains(&want) || !w.all_text().contains("out-of-place documentation comment") {
        return fail(format!("the warning for the comment at line {line}, column {col} reads: {}", w.all_text()));
    }
    Ok(())
}

fn warnings(ws: &[api::Diag], text: &str, strays: &[(usize, usize)]) -> Res {
    if ws.len() != strays.len() {
        let list: Vec<String> = ws.iter().map(|w| w.message.clone()).collect();
        return fail(format!("{} stray doc comments, {} warnings: {list:#?}", strays.len(), ws.len()));
    }
    for (w, s) in ws.iter().zip(strays) {
        stray_warning(w, text, *s)?;
    }
    Ok(())
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let o = Opts { max_types: 5, mode: None, docs: false, ..Opts::default() };
    let m = model(t, &o);
    let style = [Style::Spelled, Style::Plain, Style::Wild][t.weighted(&[40, 10, 50])];
    let p = plant(t, &m, style, &[]);
    ctx.show(&p.text);
    ctx.nontrivial = !p.attached.is_empty() && !p.strays.is_empty();
    for a in &p.attached {
        ctx.label(match a {
            Anchor::Proto => "on:protocol",
            Anchor::Def(_) => "on:type",
            Anchor::Group(o, _) if o.starts_with("msg ") => "on:parameter",
            Anchor::Group(..) => "on:field",
            Anchor::Var(o, _) if o.starts_with("msg ") => "on:parameter-variable",
            Anchor::Var(..) => "on:variable",
            Anchor::Msg(_) => "on:message",
        });
    }
    ctx.label(format!("strays:{}", p.strays.len().min(4)));
    if p.model.mode != Mode::Bare {
        let c = api::convert(&p.text);
        let mut v = c.res.map_err(|e| format!("doc comments made a valid program fail: {}", e.all_text()))?;
        no_empty_docs(&mut v, matches!(p.model.mode, Mode::Protocol));
        let mut want = p.model.clone();
        unempty(&mut want);
        let r = match &want.mode {
            Mode::Protocol => same_protocol(&want, &refs(&want), &v),
            Mode::Schema(main) => read_schema(&v).and_then(|doc| {
                diff("main schema", main, &doc.root)?;
                same_defs(&emission_order(&want, &[]), &refs(&want), &doc.defs)
            }),
            Mode::Bare => Ok(()),
        };
        r.map_err(|e| format!("{e}\n--- emitted ---\n{}", pretty(&v)))?;
        warnings(&c.warnings, &p.text, &p.strays).map_err(|e| format!("compiling: {e}"))?;
    }
    let x = api::extract(&p.text);
    let mut v = x.res.map_err(|e| format!("doc comments made extraction fail: {}", e.all_text()))?;
    let mut want = p.model.clone();
    unempty(&mut want);
    v.iter_mut().for_each(|e| no_empty_docs(&mut e.1, false));
    c03::check(&want, &v, true)?;
    warnings(&x.warnings, &p.text, &p.strays).map_err(|e| format!("extracting: {e}"))
}

fn unempty(m: &mut Model) {
    let f = |d: &mut Option<String>| {
        if d.as_deref() == Some("") {
            *d = None;
        }
    };
    f(&mut m.proto.doc);
    for d in &mut m.defs {
        f(&mut d.doc);
        if let Kind::Record { fields, .. } = &mut d.kind {
            fields.iter_mut().for_each(|x| f(&mut x.doc));
        }
    }
    for x in m.proto.messages.values_mut() {
        f(&mut x.doc);
        x.request.iter_mut().for_each(|y| f(&mut y.doc));
    }
}
