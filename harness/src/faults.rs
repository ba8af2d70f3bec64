//! Plants one semantic fault into a valid program.

use crate::gen_::*;
use crate::render::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::{Value, json};

/// A token and whether it belongs to the construct at fault.
pub type FTok = (String, bool);

pub struct Faulty {
    pub text: String,
    pub kind: &'static str,
    /// Byte range of the construct at fault.
    pub region: (usize, usize),
    /// Byte range of the statement around it.
    pub wide: (usize, usize),
    /// Texts the diagnostic must mention.
    pub needles: Vec<String>,
    /// Where the fault was put.
    pub place: &'static str,
}

fn ft(s: &str, hot: bool) -> Vec<FTok> {
    s.split_whitespace().map(|w| (w.to_string(), hot)).collect()
}
fn cold(s: &str) -> Vec<FTok> {
    ft(s, false)
}
fn hot(s: &str) -> Vec<FTok> {
    ft(s, true)
}

/// Annotation names that are never allowed on a construct.
fn structural(p: Place) -> Vec<&'static str> {
    reserved(p).iter().copied().filter(|k| !["namespace", "aliases", "order"].contains(k) || p == Place::Message || p == Place::Type).collect()
}

fn bare(name: &str) -> String {
    if !name.contains('.') && RESERVED_WORDS.contains(&name) { format!("`{name}`") } else { name.to_string() }
}

/// A declared type's name spelled for a scope.
fn known(t: &mut Tape, m: &Model, scope: Option<&str>) -> Option<(String, String)> {
    let c: Vec<&Def> = m.defs.iter().filter(|d| spellable(&d.full, scope)).collect();
    if c.is_empty() {
        return None;
    }
    let d = *t.pick(&c);
    let s = if ns_of(&d.full) == scope && t.coin() { simple_of(&d.full).to_string() } else { d.full.clone() };
    Some((bare(&s), d.full.clone()))
}

/// A name that denotes nothing in `scope`.
pub fn undefined(t: &mut Tape, m: &Model, scope: Option<&str>) -> String {
    let taken = |s: &str| {
        let full = if s.contains('.') { s.to_string() } else { join(scope, s) };
        m.get(&full).is_some() || is_prim(s)
    };
    let pick = |t: &mut Tape| -> Option<&Def> { if m.defs.is_empty() { None } else { Some(&m.defs[t.usize(m.defs.len())]) } };
    let s = match t.below(7) {
        0 => "ZqMissing".to_string(),
        1 => "zq.ns.Missing".to_string(),
        2 => match pick(t) {
            // the right simple name in the wrong namespace
            Some(d) => format!("{}.{}", ns_of(&d.full).map(|n| format!("{n}.zq")).unwrap_or("zq".into()), simple_of(&d.full)),
            None => "org.a.Zq".into(),
        },
        3 => match pick(t) {
            // undotted, although the type lives elsewhere
            Some(d) => simple_of(&d.full).to_string(),
            None => "Zq".into(),
        },
        4 => (*t.pick(&["Int", "String", "integer", "Null", "bool", "Date", "Uuid", "Decimal"])).to_string(),
        5 => match pick(t) {
            Some(d) => format!("{}Zq", d.full),
            None => "Zq2".into(),
        },
        _ => match pick(t) {
            Some(d) => format!("{}.{}", d.full, "Inner"),
            None => "A.Inner".into(),
        },
    };
    if taken(&s) || s.starts_with('.') { "zq.other.Missing".into() } else { s }
}

pub struct TypeFault {
    pub kind: &'static str,
    pub toks: Vec<FTok>,
    pub needles: Vec<String>,
    /// May stand where annotations are not allowed.
    pub plain: bool,
    pub is_union: bool,
}

fn type_fault(t: &mut Tape, m: &Model, scope: Option<&str>) -> TypeFault {
    let mk = |kind, toks: Vec<FTok>, needles: Vec<String>| TypeFault { kind, toks, needles, plain: true, is_union: false };
    match t.weighted(&[36, 12, 20, 10, 10, 8]) {
        1 => {
            let inner = *t.pick(&["union { null , int }", "union { string }", "int ?", "union { }", "union { boolean , array < int > }"]);
            let mut v = cold("union {");
            let before = t.below(3);
            v.extend(cold(["", "null ,", "long , double ,"][before as usize]));
            v.extend(hot(inner));
            if t.chance(1, 3) {
                v.extend(cold(", bytes"));
            }
            v.extend(cold("}"));
            TypeFault { is_union: true, ..mk("nested-union", v, vec![]) }
        }
        2 => {
            // a repeated branch: the repetition is at fault
            let (a, b, n): (String, String, String) = match t.below(6) {
                0 => {
                    let p = *t.pick(&["int", "null", "string", "double", "bytes"]);
                    (p.into(), p.into(), p.into())
                }
                1 => {
                    let (p, q) = *t.pick(&[("int", "date"), ("time_ms", "date"), ("uuid", "string"), ("timestamp_ms", "long"), ("decimal ( 4 , 2 )", "bytes")]);
                    (p.into(), q.into(), String::new())
                }
                2 => ("array < int >".into(), "array < string >".into(), "array".into()),
                3 => ("map < int >".into(), "map < map < int > >".into(), "map".into()),
                4 => ("@ foo ( 1 ) long".into(), "long".into(), "long".into()),
                _ => match known(t, m, scope) {
                    Some((s, full)) => {
                        let other = if t.coin() && ns_of(&full).is_some() { full.clone() } else { s.clone() };
                        (s, other, simple_of(&full).to_string())
                    }
                    None => ("float".into(), "float".into(), "float".into()),
                },
            };
            let mut v = cold("union {");
            v.extend(cold(&a));
            v.extend(cold(","));
            if t.chance(1, 3) {
                v.extend(cold("boolean ,"));
            }
            v.extend(hot(&b));
            v.extend(cold("}"));
            TypeFault { is_union: true, ..mk("repeated-branch", v, if n.is_empty() { vec![] } else { vec![n] }) }
        }
        3 => {
            let (s, nd) = match t.below(7) {
                0 => ("decimal ( 0 )".to_string(), "0"),
                1 => ("decimal ( 3 , 4 )".into(), "4"),
                2 => ("decimal ( 4294967296 )".into(), "4294967296"),
                3 => ("decimal ( 5 , 99999999999 )".into(), "99999999999"),
                4 => ("decimal ( -1 )".into(), "-1"),
                5 => ("decimal ( 5 , -1 )".into(), "-1"),
                _ => ("decimal ( 0x10 , 17 )".into(), "17"),
            };
            // only the number is at fault
            let mut v = vec![];
            let ws: Vec<&str> = s.split_whitespace().collect();
            let bad = if s.contains(',') { 4 } else { 2 };
            for (i, w) in ws.iter().enumerate() {
                v.push((w.to_string(), i == bad));
            }
            mk("bad-decimal", v, vec![nd.into()])
        }
        4 if known(t, m, scope).is_some() => {
            let (s, _) = known(t, m, scope).unwrap();
            let mut v = hot("@ note ( \"x\" )");
            v.extend(hot(&s));
            TypeFault { plain: false, ..mk("annotated-reference", v, vec![]) }
        }
        5 => {
            let k = *t.pick(&structural(Place::Type));
            let mut v = hot(&format!("@ {k} ( \"zq\" )"));
            v.extend(cold(*t.pick(&["int", "array < int >", "map < string >", "date", "bytes"])));
            TypeFault { plain: false, ..mk("reserved-on-type", v, vec![k.into()]) }
        }
        _ => {
            let n = undefined(t, m, scope);
            let nd = simple_of(&n).to_string();
            mk("undefined-name", hot(&bare(&n)), vec![nd])
        }
    }
}

fn wrap(t: &mut Tape, mut f: TypeFault) -> TypeFault {
    let mut n = 0;
    while t.chance(2, 5) && n < 4 {
        n += 1;
        let mut v;
        match t.below(4) {
            0 => {
                v = cold("array <");
                v.append(&mut f.toks);
                v.extend(cold(">"));
                f.is_union = false;
                f.plain = true;
            }
            1 => {
                v = cold("map <");
                v.append(&mut f.toks);
                v.extend(cold(">"));
                f.is_union = false;
                f.plain = true;
            }
            2 if !f.is_union => {
                v = cold("union {");
                if t.coin() {
                    v.extend(cold("null ,"));
                }
                v.append(&mut f.toks);
                if t.coin() {
                    v.extend(cold(", boolean"));
                }
                v.extend(cold("}"));
                f.is_union = true;
                f.plain = true;
            }
            _ => {
                if f.kind == "undefined-name" && f.toks.len() == 1 {
                    f.toks.push(("?".into(), false));
                    f.is_union = true;
                }
                continue;
            }
        }
        f.toks = v;
    }
    f
}

pub struct VarFault {
    pub kind: &'static str,
    pub toks: Vec<FTok>,
    pub needles: Vec<String>,
}

const WRONG: &[(&str, &str)] = &[
    ("int", "\"x\""), ("int", "1.5"), ("int", "2147483648"), ("int", "-2147483649"), ("int", "null"), ("int", "true"),
    ("long", "\"1\""), ("long", "1.5"), ("long", "[ 1 ]"), ("string", "1"), ("string", "null"), ("string", "{ }"),
    ("boolean", "0"), ("boolean", "\"true\""), ("null", "\"null\""), ("null", "0"), ("float", "\"1\""), ("float", "null"),
    ("double", "true"), ("double", "[ ]"), ("bytes", "1"), ("bytes", "null"), ("array < int >", "{ }"),
    ("array < int >", "[ \"x\" ]"), ("array < array < int > >", "[ [ 1 ] , 2 ]"), ("map < int >", "[ ]"),
    ("map < int >", "{ \"a\" : \"b\" }"), ("union { int , null }", "\"x\""), ("union { null , array < string > }", "[ 1 ]"),
    ("int ?", "\"x\""), ("string ?", "3"), ("date", "\"2020\""), ("uuid", "7"), ("decimal ( 4 , 2 )", "1.25"), ("timestamp_ms", "\"now\""),
];

/// A faulty variable. `others` are the variables already in the same place.
fn var_fault(t: &mut Tape, m: &Model, scope: Option<&str>, others: &[String]) -> VarFault {
    let name = "zqvar";
    let some_type = |t: &mut Tape| {
        if t.chance(1, 3)
            && let Some((s, _)) = known(t, m, scope)
        {
            return s;
        }
        (*t.pick(&["int", "string", "array < long >", "map < bytes >", "union { null , int }", "double ?", "date"])).to_string()
    };
    match t.weighted(&[45, 12, 18, 10, 8, 7]) {
        1 => {
            // the same name twice
            let n = if !others.is_empty() && t.coin() { t.pick(others).clone() } else { String::new() };
            let (ty, ty2) = (some_type(t), some_type(t));
            if n.is_empty() {
                let mut v = cold(&ty);
                v.extend(cold("zqdup"));
                if t.chance(1, 3) && !others.contains(&"\u{0}param".to_string()) {
                    // one declaration
                    v.extend(cold(","));
                    v.extend(hot("zqdup"));
                } else {
                    v.extend(cold("\u{1}"));
                    v.extend(hot(&ty2));
                    v.extend(hot("zqdup"));
                }
                VarFault { kind: "duplicate-variable", toks: v, needles: vec!["zqdup".into()] }
            } else if n.starts_with('\u{0}') {
                VarFault { kind: "bad-default", toks: vec![("int".into(), false), (name.into(), false), ("=".into(), false), ("\"q\"".into(), true)], needles: vec![name.into()] }
            } else {
                // which of the two is second depends on the slot: see inject
                let mut v = hot(&ty);
                v.extend(hot(&bare(&n)));
                VarFault { kind: "duplicate-of-existing", toks: v, needles: vec![n] }
            }
        }
        2 => {
            let (ty, d) = *t.pick(WRONG);
            let mut v = cold(ty);
            let several = !others.contains(&"\u{0}param".to_string()) && t.chance(1, 3);
            if several {
                v.extend(cold("zqa ,"));
            }
            v.extend(cold(name));
            v.extend(cold("="));
            v.extend(hot(d));
            if several && t.coin() {
                v.extend(cold(", zqb"));
            }
            VarFault { kind: "bad-default", toks: v, needles: vec![name.into()] }
        }
        3 => {
            let (k, a) = *t.pick(&[
                ("order", "\"up\""),
                ("order", "1"),
                ("order", "[ \"ascending\" ]"),
                ("order", "null"),
                ("aliases", "\"x\""),
                ("aliases", "[ 1 ]"),
                ("aliases", "[ \"ok\" , null ]"),
                ("aliases", "{ }"),
            ]);
            let mut v = cold(&some_type(t));
            v.extend(hot(&format!("@ {k} ( {a} )")));
            v.extend(cold(name));
            VarFault { kind: "ill-typed-special", toks: v, needles: vec![k.into()] }
        }
        4 => {
            let k = *t.pick(&structural(Place::Field));
            let mut v = cold(&some_type(t));
            v.extend(hot(&format!("@ {k} ( \"zq\" )")));
            v.extend(cold(name));
            VarFault { kind: "reserved-on-variable", toks: v, needles: vec![k.into()] }
        }
        5 => {
            let n = *t.pick(&["zq-bad", "zq.bad", "a.zq-c"]);
            let mut v = cold(&some_type(t));
            v.extend(hot(n));
            VarFault { kind: "illegal-name", toks: v, needles: vec![n.into()] }
        }
        _ => {
            let f = type_fault(t, m, scope);
            let f = wrap(t, f);
            let mut v = f.toks;
            v.extend(cold(name));
            if t.chance(1, 8) {
                v.extend(cold(", zqother"));
            }
            VarFault { kind: f.kind, toks: v, needles: f.needles }
        }
    }
}

/// Joins variables separated by \u{1} with `sep`.
fn join_vars(v: Vec<FTok>, sep: &str) -> Vec<FTok> {
    v.into_iter().map(|(s, h)| if s == "\u{1}" { (sep.to_string(), h) } else { (s, h) }).collect()
}
/// Parameters cannot share a type: `T a , a` becomes two parameters.
fn params_only(v: &VarFault) -> bool {
    // `T a , a` and `T a , b` are no parameter lists
    let mut depth = 0;
    for (s, _) in &v.toks {
        match s.as_str() {
            "<" | "{" | "(" | "[" => depth += 1,
            ">" | "}" | ")" | "]" => depth -= 1,
            "," if depth == 0 => return false,
            _ => {}
        }
    }
    true
}

struct Planted {
    kind: &'static str,
    place: &'static str,
    at: usize,
    toks: Vec<FTok>,
    needles: Vec<String>,
    /// Replaced tokens (from `at`).
    remove: usize,
    /// Region overridden by these original token indices.
    tokens: Option<(usize, usize)>,
}

/// Renders `m` with one fault planted somewhere.
pub fn inject(t: &mut Tape, m: &Model, style: Style, imports: &[(usize, String, String)]) -> Option<Faulty> {
    let mut r = Rend::new(t, style);
    r.file(m, imports);
    let (mut toks, slots) = (std::mem::take(&mut r.toks), std::mem::take(&mut r.slots));
    drop(r);
    let p = plant(t, m, &toks, &slots)?;
    if let Some((a, b)) = p.tokens {
        let from = slots.iter().filter(|s| s.kind == SlotKind::Decl && s.at <= a).map(|s| s.at).max()?;
        let to = slots.iter().filter(|s| s.kind == SlotKind::Decl && s.at >= b).map(|s| s.at).min()?;
        for n in from..to {
            toks[n].mark = Some(format!("{}{n}", if (a..b).contains(&n) { "F" } else { "W" }));
        }
    }
    let new: Vec<Tok> = p
        .toks
        .iter()
        .enumerate()
        .map(|(i, (s, h))| Tok {
            text: s.clone(),
            mark: p.tokens.is_none().then(|| format!("{}{i}", if *h { "F" } else { "W" })),
            doc: false,
            glue: false,
            lex: Lex::Plain,
        })
        .collect();
    toks.splice(p.at..p.at + p.remove, new);
    let (text, marks) = layout(t, &toks, style);
    let extent = |kinds: &[char]| {
        let mut lo = usize::MAX;
        let mut hi = 0;
        for (k, (s, l)) in &marks {
            if k.starts_with(kinds) && k[1..].chars().all(|c| c.is_ascii_digit()) {
                lo = lo.min(*s);
                hi = hi.max(s + l);
            }
        }
        (lo < hi).then_some((lo, hi))
    };
    Some(Faulty { region: extent(&['F'])?, wide: extent(&['F', 'W'])?, text, kind: p.kind, needles: p.needles, place: p.place })
}

/// Renders `m` with several undefined names; returns, per distinct name in order
/// of first occurrence, its full name and first place.
pub fn inject_undefined(t: &mut Tape, m: &Model, style: Style, tag: &str) -> Option<(String, Vec<(String, (usize, usize))>)> {
    let mut r = Rend::new(t, style);
    r.file(m, &[]);
    let (mut toks, slots) = (std::mem::take(&mut r.toks), std::mem::take(&mut r.slots));
    drop(r);
    let places: Vec<Slot> = slots.into_iter().filter(|s| matches!(s.kind, SlotKind::Decl | SlotKind::Field | SlotKind::Param(..))).collect();
    let n = 2 + t.usize(5);
    let mut at: Vec<usize> = (0..n).map(|_| t.usize(places.len())).collect();
    at.sort();
    let mut names: Vec<Option<String>> = vec![];
    let mut count = 0;
    let mut done: Vec<usize> = vec![];
    for (i, k) in at.iter().enumerate().rev() {
        let s = &places[*k];
        let dup: Vec<String> = names.iter().flatten().cloned().collect();
        let full = if t.chance(1, 4) && !dup.is_empty() {
            t.pick(&dup).clone()
        } else {
            count += 1;
            let simple = format!("Zq{tag}{count}{}", t.pick(&["", "x", "Y", "日"]));
            let twin = if dup.is_empty() { String::new() } else { t.pick(&dup).replacen("Zq", "ZQ", 1) };
            match t.below(4) {
                // differs from another one in case only
                3 if !twin.is_empty() && !dup.contains(&twin) => twin,
                0 => join(s.scope.as_deref(), &simple),
                1 => format!("zq.{simple}"),
                _ => format!("org.a.{simple}"),
            }
        };
        if ns_of(&full).is_none() && s.scope.is_some() {
            // not expressible here
            continue;
        }
        names.push(Some(full.clone()));
        let spelled = if ns_of(&full) == s.scope.as_deref() && t.coin() { simple_of(&full).to_string() } else { full.clone() };
        let spelled = if !spelled.contains('.') && t.chance(1, 4) { format!("`{spelled}`") } else { spelled };
        let hot: FTok = (spelled, true);
        let mut ty = vec![hot];
        match t.below(5) {
            0 => {
                ty.insert(0, ("array".into(), false));
                ty.insert(1, ("<".into(), false));
                ty.push((">".into(), false));
            }
            1 => ty.push(("?".into(), false)),
            2 => {
                ty.splice(0..0, cold("union { null , array <"));
                ty.extend(cold("> }"));
            }
            _ => {}
        }
        let var = format!("zqv{i}");
        let ts: Vec<FTok> = match s.kind {
            SlotKind::Field => [ty, cold(&var), cold(";")].concat(),
            SlotKind::Param(_, after) => {
                let mut v = [ty, cold(&var)].concat();
                if after || done.contains(k) {
                    v.extend(cold(","));
                }
                v
            }
            _ => match t.below(if m.mode == Mode::Protocol { 4 } else { 1 }) {
                0 => [cold(&format!("record ZqR{tag}{i} {{")), ty, cold("a ; }")].concat(),
                1 => [cold(&format!("void zqm{tag}{i} (")), ty, cold("a ) ;")].concat(),
                2 => [ty, cold(&format!("zqm{tag}{i} ( ) ;"))].concat(),
                _ => {
                    let name = ty.into_iter().find(|x| x.1)?;
                    [cold(&format!("int zqm{tag}{i} ( ) throws")), vec![name], cold(";")].concat()
                }
            },
        };
        let new: Vec<Tok> = ts
            .into_iter()
            .map(|(text, h)| Tok { text, mark: h.then(|| format!("U:{i}:{full}")), doc: false, glue: false, lex: Lex::Plain })
            .collect();
        toks.splice(s.at..s.at, new);
        done.push(*k);
    }
    let (text, marks) = layout(t, &toks, style);
    let mut found: Vec<(String, (usize, usize))> = marks
        .iter()
        .filter(|(k, _)| k.starts_with("U:"))
        .map(|(k, (s, l))| (k[2..].split_once(':').unwrap().1.to_string(), (*s, s + l)))
        .collect();
    found.sort_by_key(|f| f.1.0);
    let mut seen = std::collections::HashSet::new();
    found.retain(|f| seen.insert(f.0.clone()));
    Some((text, found))
}

fn plant(t: &mut Tape, m: &Model, toks: &[Tok], slots: &[Slot]) -> Option<Planted> {
    let of = |f: &dyn Fn(&SlotKind) -> bool| slots.iter().filter(|s| f(&s.kind)).cloned().collect::<Vec<Slot>>();
    let decls = of(&|k| *k == SlotKind::Decl);
    let fields = of(&|k| *k == SlotKind::Field);
    let params = of(&|k| matches!(k, SlotKind::Param(..)));
    let mains = of(&|k| matches!(k, SlotKind::Main(_)));
    let protocol = m.mode == Mode::Protocol;
    let w = |b: bool, n: u32| if b { n } else { 0 };
    let base = |kind, place, at, toks, needles| Planted { kind, place, at, toks, needles, remove: 0, tokens: None };
    match t.weighted(&[
        w(!fields.is_empty(), 25),
        w(!params.is_empty(), 12),
        w(!mains.is_empty(), 15),
        12,                 // new record
        w(protocol, 10),    // new message with a faulty parameter
        w(protocol, 10),    // faulty result or throws
        w(protocol, 6),     // one-way
        w(!m.defs.is_empty(), 12), // duplicate type
        10,                 // enum
        8,                  // illegal type name
        12,                 // annotations on declarations
        6,                  // import
        8,                  // syntax
        w(!m.defs.is_empty(), 14), // default that does not fit a declared type
    ]) {
        0 => {
            let s = t.pick(&fields).clone();
            let d = m.get(&s.owner)?;
            let Kind::Record { fields: fs, .. } = &d.kind else { return None };
            let names: Vec<String> = fs.iter().map(|f| f.name.clone()).collect();
            let v = var_fault(t, m, s.scope.as_deref(), &names);
            let mut ts = join_vars(v.toks, ";");
            ts.extend(cold(";"));
            let mut p = base(v.kind, "field", s.at, ts, v.needles);
            if v.kind == "duplicate-of-existing" {
                // put it last, so that the new one is the repetition
                p.at = slots.iter().rev().find(|x| x.kind == SlotKind::Field && x.owner == s.owner)?.at;
            }
            Some(p)
        }
        1 => {
            let s = t.pick(&params).clone();
            let x = m.proto.messages.get(&s.owner)?;
            let _ = x;
            let v = var_fault(t, m, s.scope.as_deref(), &["\u{0}param".to_string()]);
            if !params_only(&v) {
                return None;
            }
            let mut ts = join_vars(v.toks, ",");
            let SlotKind::Param(_, after) = s.kind else { return None };
            if after {
                ts.extend(cold(","));
            }
            Some(base(v.kind, "parameter", s.at, ts, v.needles))
        }
        2 => {
            let s = t.pick(&mains).clone();
            let SlotKind::Main(to) = s.kind else { return None };
            let f = type_fault(t, m, s.scope.as_deref());
            let f = wrap(t, f);
            Some(Planted { remove: to - s.at, ..base(f.kind, "main-schema", s.at, f.toks, f.needles) })
        }
        3 => {
            let s = t.pick(&decls).clone();
            let v = var_fault(t, m, s.scope.as_deref(), &[]);
            let mut ts = cold(*t.pick(&["record ZqRec {", "error ZqErr {"]));
            if t.coin() {
                ts.extend(cold("int zqfirst ;"));
            }
            ts.extend(join_vars(v.toks, ";"));
            ts.extend(cold("; }"));
            Some(base(v.kind, "new-record", s.at, ts, v.needles))
        }
        4 => {
            let s = t.pick(&decls).clone();
            let v = var_fault(t, m, s.scope.as_deref(), &["\u{0}param".to_string()]);
            if !params_only(&v) {
                return None;
            }
            let mut ts = cold(*t.pick(&["void zqmsg (", "int zqmsg (", "string zqmsg ("]));
            if t.coin() {
                ts.extend(cold("int zqfirst ,"));
            }
            ts.extend(join_vars(v.toks, ","));
            ts.extend(cold(") ;"));
            Some(base(v.kind, "new-message", s.at, ts, v.needles))
        }
        5 => {
            let s = t.pick(&decls).clone();
            let sc = s.scope.as_deref();
            if t.coin() {
                let f = type_fault(t, m, sc);
                let f = wrap(t, f);
                if !f.plain {
                    return None;
                }
                let mut ts = f.toks;
                ts.extend(cold("zqmsg ( int zqa ) ;"));
                return Some(base(f.kind, "result", s.at, ts, f.needles));
            }
            let mut list: Vec<(String, String)> = vec![];
            for _ in 0..t.usize(6) {
                if let Some(k) = known(t, m, sc)
                    && !list.iter().any(|l| l.1 == k.1)
                {
                    list.push(k);
                }
            }
            let again = !list.is_empty() && t.chance(1, 3);
            let (n, nd, i) = if again {
                // an error thrown twice
                let full = t.pick(&list).1.clone();
                let first = list.iter().position(|l| l.1 == full)?;
                let n = if ns_of(&full) == sc && t.coin() { simple_of(&full).to_string() } else { full.clone() };
                let n = if ns_of(&full).is_none() { simple_of(&full).to_string() } else { n };
                (n, simple_of(&full).to_string(), first + 1 + t.usize(list.len() - first))
            } else {
                let n = undefined(t, m, sc);
                let nd = simple_of(&n).to_string();
                (n, nd, t.usize(list.len() + 1))
            };
            let mut ts = cold(*t.pick(&["int zqmsg ( ) throws", "void zqmsg ( ) throws", "string zqmsg ( int zqa ) throws"]));
            for j in 0..=list.len() {
                if j > 0 {
                    ts.extend(cold(","));
                }
                match j.cmp(&i) {
                    std::cmp::Ordering::Less => ts.extend(cold(&list[j].0)),
                    std::cmp::Ordering::Equal => ts.extend(hot(&bare(&n))),
                    std::cmp::Ordering::Greater => ts.extend(cold(&list[j - 1].0)),
                }
            }
            ts.extend(cold(";"));
            if again {
                return Some(base("repeated-error", "throws", s.at, ts, vec![nd]));
            }
            Some(base("undefined-name", "throws", s.at, ts, vec![nd]))
        }
        6 => {
            let s = t.pick(&decls).clone();
            let ty = if t.coin()
                && let Some((k, _)) = known(t, m, s.scope.as_deref())
            {
                k
            } else {
                (*t.pick(&["int", "string", "array < int >", "union { null , int }", "int ?", "date"])).to_string()
            };
            let mut ts = hot(&ty);
            ts.extend(hot("zqmsg ("));
            if t.coin() {
                ts.extend(hot("int zqa"));
            }
            ts.extend(hot(") oneway ;"));
            Some(base("one-way-result", "message", s.at, ts, vec!["zqmsg".into()]))
        }
        7 => {
            let d = &m.defs[t.usize(m.defs.len())];
            let s = t.pick(&decls).clone();
            let mut ts = vec![];
            let name = if ns_of(&d.full) == m.ns() && t.coin() {
                simple_of(&d.full).to_string()
            } else if ns_of(&d.full).is_some() && t.coin() {
                d.full.clone()
            } else {
                ts.extend(cold(&format!("@ namespace ( \"{}\" )", ns_of(&d.full).unwrap_or(""))));
                simple_of(&d.full).to_string()
            };
            let body = t.below(4);
            ts.extend(cold(["record", "error", "enum", "fixed"][body as usize]));
            ts.extend(hot(&bare(&name)));
            ts.extend(cold(["{ int zqa ; }", "{ }", "{ ZQA }", "( 3 ) ;"][body as usize]));
            // the later one is at fault
            let orig = toks.iter().position(|k| k.mark.as_deref() == Some(&format!("def:{}", d.full)))?;
            let mut p = base("duplicate-type", "declaration", s.at, ts, vec![simple_of(&d.full).to_string()]);
            if orig >= s.at {
                p.tokens = Some((orig, orig + 1));
            }
            Some(p)
        }
        8 => {
            let s = t.pick(&decls).clone();
            let (txt, nd, kind): (Vec<FTok>, &str, _) = match t.below(5) {
                0 => (
                    [cold("enum ZqE { ZQA , ZQB ,"), hot("ZQA"), cold("}")].concat(),
                    "ZQA",
                    "duplicate-symbol",
                ),
                1 => (
                    [cold("enum ZqE { ZQA , ZQB } ="), hot("ZQC"), cold(";")].concat(),
                    "ZQC",
                    "enum-default",
                ),
                2 => (
                    [cold("enum ZqE { zqa } ="), hot("ZQA"), cold(";")].concat(),
                    "ZQA",
                    "enum-default",
                ),
                3 => ([cold("enum ZqE { } ="), hot("ZQA"), cold(";")].concat(), "ZQA", "enum-default"),
                _ => ([cold("enum ZqE { ZQA ,"), hot("zq-x"), cold("}")].concat(), "zq-x", "illegal-name"),
            };
            Some(base(kind, "enum", s.at, txt, vec![nd.into()]))
        }
        9 => {
            let s = t.pick(&decls).clone();
            let n = *t.pick(&[
                "int", "long", "null", "boolean", "float", "double", "bytes", "string", "date", "time_ms", "timestamp_ms",
                "local_timestamp_ms", "uuid", "Zq-bad",
            ]);
            let spelled = match t.below(3) {
                0 if !n.contains('-') => format!("`{n}`"),
                1 if !n.contains('-') => format!("zq.ns.{n}"),
                _ => n.to_string(),
            };
            let body = t.below(4);
            let mut ts = vec![];
            if t.chance(1, 4) {
                // an illegal namespace
                let ns = *t.pick(&["zq..ns", "zq.", ".zq", "zq.9", "zq.n$", "zq-x", "zq.a b", " zq", "zq.ns.x-y"]);
                let kw = ["record", "error", "enum", "fixed"][body as usize];
                ts = if ns == "zq-x" && t.coin() {
                    hot(&format!("{kw} {ns}.ZqT"))
                } else {
                    let mut v = hot("@ namespace (");
                    v.push((format!("\"{ns}\""), true));
                    v.extend(hot(&format!(") {kw} ZqT")));
                    v
                };
                ts.extend(cold(["{ int zqa ; }", "{ }", "{ ZQA }", "( 3 ) ;"][body as usize]));
                return Some(base("illegal-type-name", "declaration", s.at, ts, vec![ns.into()]));
            }
            ts.extend(cold(["record", "error", "enum", "fixed"][body as usize]));
            ts.extend(hot(&spelled));
            ts.extend(cold(["{ int zqa ; }", "{ }", "{ ZQA }", "( 3 ) ;"][body as usize]));
            Some(base("illegal-type-name", "declaration", s.at, ts, vec![n.into()]))
        }
        10 => {
            let s = t.pick(&decls).clone();
            let special = t.coin();
            let (k, a) = *t.pick(&[
                ("namespace", "1"),
                ("namespace", "null"),
                ("namespace", "[ \"a\" ]"),
                ("aliases", "\"x\""),
                ("aliases", "[ 1 ]"),
                ("aliases", "[ \"ok\" , [ ] ]"),
                ("aliases", "true"),
            ]);
            let body = t.below(4) as usize;
            let place = [Place::Record, Place::Record, Place::Enum, Place::Fixed][body];
            if protocol && t.chance(1, 4) {
                let k = *t.pick(&structural(Place::Message));
                let ts = [hot(&format!("@ {k} ( \"zq\" )")), cold("int zqmsg ( ) ;")].concat();
                return Some(base("reserved-on-message", "message", s.at, ts, vec![k.into()]));
            }
            let (ann, k, kind) = if special {
                (format!("@ {k} ( {a} )"), k, "ill-typed-special")
            } else {
                let k = *t.pick(&structural(place));
                (format!("@ {k} ( \"zq\" )"), k, "reserved-on-declaration")
            };
            let mut ts = hot(&ann);
            ts.extend(cold(["record ZqT { int zqa ; }", "error ZqT { }", "enum ZqT { ZQA }", "fixed ZqT ( 3 ) ;"][body]));
            Some(base(kind, "declaration", s.at, ts, vec![k.into()]))
        }
        13 => {
            let v: Vec<&Slot> = decls.iter().chain(&fields).collect();
            let s = (*t.pick(&v)).clone();
            let sc = s.scope.as_deref();
            // types whose declaration is complete here
            let before: Vec<&Def> = m
                .defs
                .iter()
                .filter(|d| {
                    spellable(&d.full, sc)
                        && d.full != s.owner
                        && toks.iter().position(|k| k.mark.as_deref() == Some(&format!("def:{}", d.full))).is_some_and(|p| p < s.at)
                })
                .collect();
            if before.is_empty() {
                return None;
            }
            let d = *t.pick(&before);
            let name = bare(if ns_of(&d.full) == sc && t.coin() { simple_of(&d.full) } else { &d.full });
            let (ty, bad): (String, String) = {
                let b = *t.pick(&["3", "true", "[ ]", "null", "1.5"]);
                match t.below(4) {
                    0 => (format!("array < {name} >"), format!("[ {b} ]")),
                    1 => (format!("map < {name} >"), format!("{{ \"k\" : {b} }}")),
                    _ => (name, b.into()),
                }
            };
            let good = if ty.starts_with("array") {
                Some("[ ]")
            } else if ty.starts_with("map") {
                Some("{ }")
            } else {
                match &d.kind {
                    Kind::Fixed { .. } => Some("\"\""),
                    Kind::Record { fields, .. } if fields.is_empty() => Some("{ }"),
                    _ => None,
                }
            };
            let new = s.kind == SlotKind::Decl;
            if new && m.mode == Mode::Protocol && t.chance(1, 3) {
                // a parameter of a message, possibly between others
                let mut ts = cold("void zqmsg (");
                if t.coin() {
                    ts.extend(cold(&format!("{ty} zqa")));
                    if let (Some(g), true) = (good, t.coin()) {
                        ts.extend(cold(&format!("= {g}")));
                    }
                    ts.extend(cold(","));
                }
                ts.extend(cold(&format!("{ty} zqvar =")));
                ts.extend(hot(&bad));
                if t.chance(1, 3) {
                    ts.extend(cold(", int zqb"));
                }
                ts.extend(cold(") ;"));
                return Some(base("bad-default", "parameter", s.at, ts, vec!["zqvar".into()]));
            }
            let mut ts = if new { cold("record ZqRec {") } else { vec![] };
            ts.extend(cold(&ty));
            for n in ["zqa", "zqc"] {
                if t.coin() {
                    ts.extend(cold(n));
                    if let (Some(g), true) = (good, t.coin()) {
                        ts.extend(cold("="));
                        ts.extend(cold(g));
                    }
                    ts.extend(cold(","));
                }
            }
            ts.extend(cold("zqvar ="));
            ts.extend(hot(&bad));
            if t.chance(1, 3) {
                ts.extend(cold(", zqb"));
            }
            ts.extend(cold(if new { "; }" } else { ";" }));
            Some(base("bad-default", if new { "new-record" } else { "field" }, s.at, ts, vec!["zqvar".into()]))
        }
        12 => {
            let v: Vec<&Slot> = decls.iter().chain(&fields).collect();
            let s = (*t.pick(&v)).clone();
            let tok = *t.pick(&[")", "]", ":", "12", "\"zq\""]);
            Some(base("syntax", if s.kind == SlotKind::Decl { "declaration" } else { "field" }, s.at, hot(tok), vec![]))
        }
        _ => {
            let s = t.pick(&decls).clone();
            let k = *t.pick(&["idl", "protocol", "schema"]);
            let path = *t.pick(&["zq-missing.file", "no/such/zq.avdl", "../zq/x", "zq.avsc"]);
            let ts = hot(&format!("import {k} \"{path}\" ;"));
            Some(base("missing-import", "import", s.at, ts, vec![path.into()]))
        }
    }
}

/// A faulty imported JSON file: (kind, extension, contents, needles).
pub fn json_fault(t: &mut Tape, valid: &Value, proto: bool) -> (&'static str, Value, Vec<String>) {
    let mut needles: Vec<String> = vec![];
    let wrapped = |t: &mut Tape, v: Value| {
        let mut v = v;
        let mut n = 0;
        while t.chance(2, 5) && n < 3 {
            n += 1;
            v = match t.below(3) {
                0 => json!({"type": "array", "items": v}),
                1 => json!({"type": "map", "values": v}),
                _ if !v.is_array() => json!(["null", v]),
                _ => v,
            };
        }
        v
    };
    let rec = |ty: Value| json!({"type": "record", "name": "ZqRec", "namespace": "zq.ns", "fields": [{"name": "zqvar", "type": ty}]});
    let pick = t.below(if proto { 13 } else { 9 });
    let (kind, bad): (&'static str, Value) = match pick {
        0 => {
            needles.push("Missing".into());
            let n = *t.pick(&["Missing", "zq.other.Missing"]);
            let ty = wrapped(t, json!(n));
            ("undefined-name", rec(ty))
        }
        1 => {
            let ty = wrapped(t, json!(["null", ["int", "string"]]));
            ("nested-union", rec(ty))
        }
        2 => {
            let (a, b) = [("int", "int"), ("zq.ns.ZqRec", "ZqRec"), ("string", "string")][t.usize(3)];
            let ty = wrapped(t, json!([a, "null", b]));
            needles.push(if a == "int" || a == "string" { a.into() } else { "ZqRec".into() });
            ("repeated-branch", rec(ty))
        }
        3 => {
            let n = *t.pick(&["zq-bad", "zq.bad", "zq$bad", "zq bad", "9zq", "zq-", "", "zq\u{301}"]);
            needles.push(if n.is_ascii() { n.into() } else { "zq".into() });
            (
                "illegal-name",
                match t.below(3) {
                    0 => json!({"type": "enum", "name": "ZqE", "namespace": "zq.ns", "symbols": ["ZQA", n]}),
                    1 => json!({"type": "record", "name": "ZqRec", "namespace": "zq.ns", "fields": [{"name": "zqa", "type": "int"}, {"name": n, "type": "int"}]}),
                    _ => json!({"type": "record", "name": "ZqRec", "namespace": "zq.ns", "fields": [{"name": n, "type": "int"}]}),
                },
            )
        }
        4 => {
            needles.push("ZQC".into());
            ("enum-default", json!({"type": "enum", "name": "ZqE", "symbols": ["ZQA"], "default": "ZQC"}))
        }
        5 => {
            needles.push("ZQA".into());
            ("duplicate-symbol", json!({"type": "enum", "name": "ZqE", "symbols": ["ZQA", "ZQB", "ZQA"]}))
        }
        6 => {
            needles.push("zqvar".into());
            (
                "duplicate-variable",
                json!({"type": "record", "name": "ZqRec", "fields": [{"name": "zqvar", "type": "int"}, {"name": "zqvar", "type": "string"}]}),
            )
        }
        7 => {
            let n = *t.pick(&["Zq-bad", "Zq$", "Zq x", "", "int", "9zq", "null", "boolean", "long", "float", "double", "bytes", "string"]);
            needles.push(n.into());
            let ns = *t.pick(&["", "", "zq..ns", "zq.", "zq.9", "zq.n$", "zq-x", "zq.a b"]);
            if t.coin() && !ns.is_empty() {
                needles.pop();
                needles.push(ns.into());
                let v = if t.coin() { json!({"type": "fixed", "name": "ZqF", "namespace": ns, "size": 4}) } else { json!({"type": "fixed", "name": format!("{ns}.ZqF"), "size": 4}) };
                ("illegal-type-name", v)
            } else {
                ("illegal-type-name", json!({"type": "fixed", "name": n, "namespace": "", "size": 4}))
            }
        }
        8 if t.coin() => (
            "malformed-definition",
            (*t.pick(&[
                json!({"type": "fixed", "name": "ZqF"}),
                json!({"type": "fixed", "name": "ZqF", "size": "1"}),
                json!({"type": "fixed", "name": "ZqF", "size": 1.5}),
                json!({"type": "fixed", "size": 1}),
                json!({"type": "enum", "name": "ZqE"}),
                json!({"type": "enum", "name": "ZqE", "symbols": [1]}),
                json!({"type": "enum", "name": "ZqE", "symbols": {}}),
                json!({"type": "enum", "symbols": []}),
                json!({"type": "record", "name": "ZqR"}),
                json!({"type": "record", "name": "ZqR", "fields": {}}),
                json!({"type": "record", "name": "ZqR", "fields": [1]}),
                json!({"type": "record", "name": "ZqR", "fields": [{"name": "a"}]}),
                json!({"type": "record", "name": "ZqR", "fields": [{"type": "int"}]}),
                json!({"type": "record", "name": "ZqR", "fields": [{"name": "a", "type": "int", "order": "up"}]}),
                json!({"type": "record", "name": "ZqR", "fields": [{"name": "a", "type": "int", "aliases": "b"}]}),
                json!({"type": "error", "name": "ZqR", "aliases": [1], "fields": []}),
                json!({"type": "error", "fields": []}),
                json!({"type": "array"}),
                json!({"type": "map"}),
                json!({"type": "array", "items": 3}),
                json!({"type": "map", "values": {"type": "zq"}}),
            ]))
            .clone(),
        ),
        8 => ("fixed-size", json!({"type": "fixed", "name": "ZqF", "size": *t.pick(&[-1i64, -5])})),
        _ => {
            let mut v = valid.clone();
            let msg = match pick {
                9 => json!({"request": [], "response": "int", "one-way": true}),
                10 => {
                    needles.push("Missing".into());
                    let known = |n: usize| -> Vec<Value> {
                        (0..n).map(|i| json!({"type": "error", "name": format!("ZqErr{i}"), "namespace": "zq.ns", "fields": []})).collect()
                    };
                    match t.below(3) {
                        0 => json!({"request": [{"name": "zqa", "type": wrapped(t, json!("zq.other.Missing"))}], "response": "null"}),
                        1 => json!({"request": [], "response": wrapped(t, json!("zq.other.Missing"))}),
                        _ => {
                            let n = t.usize(5);
                            let mut e = known(n);
                            e.insert(t.usize(n + 1), json!("zq.other.Missing"));
                            json!({"request": [], "response": "null", "errors": e})
                        }
                    }
                }
                11 => json!({"request": [{"name": "zqa", "type": "int"}, {"name": "zqa", "type": "long"}], "response": "null"}),
                _ => {
                    needles.push("ZqErr".into());
                    let e = json!({"type": "error", "name": "ZqErr", "namespace": "zq.ns", "fields": []});
                    let mut errors = vec![e];
                    for i in 0..t.usize(4) {
                        errors.push(json!({"type": "error", "name": format!("ZqOther{i}"), "namespace": "zq.ns", "fields": []}));
                    }
                    errors.insert(1 + t.usize(errors.len()), json!("zq.ns.ZqErr"));
                    json!({"request": [], "response": "null", "errors": errors})
                }
            };
            if pick == 11 {
                needles.push("zqa".into());
            }
            if pick == 9 {
                needles.push("zqmsg".into());
            }
            if !v["messages"].is_object() {
                v["messages"] = json!({});
            }
            v["messages"]["zqmsg"] = msg;
            return (["one-way-result", "undefined-name", "duplicate-variable", "repeated-branch"][pick as usize - 9], v, needles);
        }
    };
    if !proto && pick == 0 && t.chance(1, 4) {
        // the schema is nothing but the reference
        let n = *t.pick(&["Missing", "zq.other.Missing"]);
        return (kind, wrapped(t, json!(n)), needles);
    }
    let entry = proto && pick == 0 && t.chance(1, 4);
    let bad = if entry {
        // an entry which defines nothing
        let n = *t.pick(&["Missing", "zq.other.Missing"]);
        wrapped(t, json!(n))
    } else {
        bad
    };
    // nested in something valid, or on its own
    let bad = if t.chance(1, 3) {
        json!({"type": "record", "name": "ZqOuter", "namespace": "zq.ns", "fields": [{"name": "a", "type": wrapped(t, bad)}]})
    } else {
        bad
    };
    if !proto {
        return (kind, if t.chance(1, 4) { json!(["null", bad]) } else { bad }, needles);
    }
    let mut v = valid.clone();
    if t.chance(1, 4) {
        // defined where a message mentions it
        let m = match t.below(3) {
            0 => json!({"request": [{"name": "zqa", "type": "int"}, {"name": "zqb", "type": bad}], "response": "null"}),
            1 => json!({"request": [{"name": "zqb", "type": bad}], "response": "null"}),
            _ => json!({"request": [], "response": bad}),
        };
        if !v["messages"].is_object() {
            v["messages"] = json!({});
        }
        v["messages"]["zqmsg"] = m;
        return (kind, v, needles);
    }
    if !v["types"].is_array() {
        v["types"] = json!([]);
    }
    let a = v["types"].as_array_mut().unwrap();
    let i = t.usize(a.len() + 1);
    a.insert(i, bad);
    (kind, v, needles)
}
