use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::{Map, Value};

pub static C08: Check = Check {
    id: "C08",
    rule: "a random program (protocol, schema or bare file; in a quarter of the cases its first types come from an imported \
           IDL or JSON file) in which one field or parameter gets a default that is a valid value of its type with up to two \
           leaf or structure changes (integer bounds, JSON kinds, missing or extra members, wrong elements, NaN spellings) or \
           an unrelated value; two others may get valid ones. The independent validity function, given the types declared so \
           far, says whether the program must compile; if it compiles, the output must carry the value unchanged and denote \
           the model. Non-trivial: the type at fault is not a bare primitive, or the value lies at an integer bound",
    quick: 225_000,
    thorough: 2_500_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &["the default-validity function in spec.rs is right", "the renderer and reader are right"],
};

#[derive(Clone, Debug)]
enum At {
    Field(usize, usize),
    Param(String, usize),
}

fn sites(m: &Model, from: usize) -> Vec<At> {
    let mut v = vec![];
    for (i, d) in m.defs.iter().enumerate().skip(from) {
        if let Kind::Record { fields, .. } = &d.kind {
            (0..fields.len()).for_each(|j| v.push(At::Field(i, j)));
        }
    }
    for (n, x) in &m.proto.messages {
        (0..x.request.len()).for_each(|j| v.push(At::Param(n.clone(), j)));
    }
    v
}
fn fld_at<'a>(m: &'a mut Model, at: &At) -> &'a mut Fld {
    match at {
        At::Field(i, j) => match &mut m.defs[*i].kind {
            Kind::Record { fields, .. } => &mut fields[*j],
            _ => unreachable!(),
        },
        At::Param(n, j) => &mut m.proto.messages.get_mut(n).unwrap().request[*j],
    }
}

const NUMS: &[i64] = &[
    0, -1, 1, 127, 128, 255, 32768, 65536, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1,
    u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 53, (1 << 53) + 1,
];
const STRS: &[&str] = &["", "x", "0", "1", "null", "true", "NaN", "Infinity", "-Infinity", "nan", "-NaN", "+Infinity", "inf", "infinity", "INFINITY", "1.5", "[]", "{}"];

fn leaf(t: &mut Tape) -> Value {
    match t.weighted(&[30, 20, 20, 8, 8, 7, 7]) {
        0 => Value::Number((*t.pick(NUMS)).into()),
        1 => Value::String((*t.pick(STRS)).into()),
        2 => number_f(*t.pick(&[0.0, 1.0, -1.0, 1.5, 2147483648.0, 1e300, -0.0, 9.3e18, 1e-9])),
        3 => Value::Bool(t.coin()),
        4 => Value::Null,
        5 => Value::Array(vec![]),
        _ => Value::Object(Map::new()),
    }
}

/// One step away from `v`.
fn step(t: &mut Tape, v: &mut Value, depth: usize) {
    let inside = match v {
        Value::Array(a) => !a.is_empty(),
        Value::Object(o) => !o.is_empty(),
        _ => false,
    };
    if inside && depth < 6 && t.chance(3, 4) {
        match v {
            Value::Array(a) => {
                let i = t.usize(a.len());
                return step(t, &mut a[i], depth + 1);
            }
            Value::Object(o) => {
                let k = o.keys().nth(t.usize(o.len())).unwrap().clone();
                return step(t, o.get_mut(&k).unwrap(), depth + 1);
            }
            _ => {}
        }
    }
    match t.below(6) {
        0 => *v = leaf(t),
        1 => {
            let x = v.take();
            *v = Value::Array(vec![x]);
        }
        2 => match v {
            Value::Array(a) => {
                let x = if a.is_empty() || t.coin() { leaf(t) } else { t.pick(a).clone() };
                let i = t.usize(a.len() + 1);
                a.insert(i, x);
            }
            Value::Object(o) => {
                let x = leaf(t);
                let k = (*t.pick(&["", "extra", "a", "b", "c", "d", "type", "default"])).to_string();
                o.insert(k, x);
            }
            Value::Number(n) => {
                if let Some(i) = n.as_i64() {
                    *v = if t.coin() { number_f(i as f64) } else { i.wrapping_add(1).into() };
                } else {
                    *v = Value::Number((n.as_f64().unwrap() as i64).into());
                }
            }
            _ => *v = leaf(t),
        },
        3 => match v {
            Value::Array(a) if !a.is_empty() => {
                let i = t.usize(a.len());
                a.remove(i);
            }
            Value::Object(o) if !o.is_empty() => {
                let k = o.keys().nth(t.usize(o.len())).unwrap().clone();
                o.remove(&k);
            }
            _ => *v = leaf(t),
        },
        4 => match v {
            Value::Array(a) => {
                *v = Value::Object(a.drain(..).enumerate().map(|(i, x)| (format!("k{i}"), x)).collect());
            }
            Value::Object(o) => *v = Value::Array(o.values().cloned().collect()),
            Value::String(_) => *v = leaf(t),
            _ => *v = Value::String(v.to_string()),
        },
        _ => *v = leaf(t),
    }
}

/// Adds records which differ in little and refer to each other, and one with a
/// field whose type is a union (or a collection) of them. A value then meets
/// the same type along several ways.
fn look_alikes(t: &mut Tape, m: &mut Model) {
    let ns = m.ns().map(str::to_string);
    let n = if t.chance(1, 4) { 12 + t.usize(12) } else { 2 + t.usize(4) };
    let full = |i: usize| join(ns.as_deref(), &format!("Alike{i}"));
    let plain = |s: &str| Sch::Prim(s.into(), Default::default());
    let field = |name: &str, ty: Sch| Fld {
        name: name.into(),
        ty,
        default: None,
        order: "ascending".into(),
        aliases: vec![],
        doc: None,
        props: Default::default(),
    };
    let mut new: Vec<Def> = vec![];
    for i in 0..n {
        let mut fields = vec![];
        for name in ["f", "g", "h"] {
            if !t.chance(2, 3) {
                continue;
            }
            let r = Sch::Named(full(if i > 0 && t.chance(2, 3) { t.usize(2.min(i)) } else { t.usize(n) }));
            let ty = match t.weighted(&[30, 30, 15, 10, 15]) {
                0 => plain(*t.pick(&["int", "long", "string", "boolean", "double"])),
                1 => r,
                2 => Sch::Union(vec![plain("null"), r]),
                3 => Sch::Array(Box::new(r), Default::default()),
                _ => Sch::Map(Box::new(r), Default::default()),
            };
            fields.push(field(name, ty));
        }
        new.push(Def { full: full(i), kind: Kind::Record { error: false, fields }, doc: None, aliases: vec![], props: Default::default() });
    }
    let mut all: Vec<Sch> = (0..n).map(|i| Sch::Named(full(i))).collect();
    for i in (1..all.len()).rev() {
        all.swap(i, t.usize(i + 1));
    }
    if t.coin() {
        all.insert(t.usize(all.len() + 1), plain(*t.pick(&["null", "string", "int"])));
    }
    let mut ty = Sch::Union(all);
    match t.below(4) {
        0 => ty = Sch::Array(Box::new(ty), Default::default()),
        1 => ty = Sch::Map(Box::new(ty), Default::default()),
        _ => {}
    }
    new.push(Def {
        full: join(ns.as_deref(), "AlikeHolder"),
        kind: Kind::Record { error: false, fields: vec![field("x", ty)] },
        doc: None,
        aliases: vec![],
        props: Default::default(),
    });
    m.defs.append(&mut new);
}

fn has_ref(s: &Sch) -> bool {
    let mut r = false;
    walk(s, 0, &mut |x, _| r |= matches!(x, Sch::Named(_)));
    r
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mode = [0u8, 1, 2][t.weighted(&[70, 15, 15])];
    let o = Opts {
        max_types: if t.chance(1, 4) { 8 } else { 5 },
        mode: Some(mode),
        docs: false,
        props: t.chance(1, 4),
        ref_weight: 70,
        ..Opts::default()
    };
    let mut m = model(t, &o);
    tame_model(&mut m);
    let alike = t.chance(1, 8);
    if alike {
        look_alikes(t, &mut m);
    }
    // imported: the first `k` types
    let split = if !m.defs.is_empty() && t.chance(1, 4) && !(m.ns().is_some() && super::c06::mentions_null_ns(&m)) {
        1 + t.usize(m.defs.len())
    } else {
        0
    };
    // defaults of the generated model may rest on types declared later; keep a few
    let mut all = sites(&m, split);
    if all.is_empty() {
        return Ok(());
    }
    for at in &all {
        fld_at(&mut m, at).default = None;
    }
    let target = if alike { all.iter().position(|a| matches!(a, At::Field(i, _) if *i == m.defs.len() - 1)).unwrap_or(0) } else { t.usize(all.len()) };
    let target = all.remove(target);
    ctx.label_if(alike, "look-alike-records");
    let defs = m.defs.clone();
    for _ in 0..t.below(3) {
        if all.is_empty() {
            break;
        }
        let at = all.remove(t.usize(all.len()));
        let ty = fld_at(&mut m, &at).ty.clone();
        fld_at(&mut m, &at).default = default_for(t, &ty, &defs, &[], 4);
    }
    // NB: defaults just set make more values of those records valid
    let ty = fld_at(&mut m, &target).ty.clone();
    let defs = m.defs.clone();
    let mut v = match default_for(t, &ty, &defs, &[], 4) {
        Some(v) if !t.chance(1, 8) => v,
        _ => leaf(t),
    };
    let steps = t.weighted(&[35, 50, 15]);
    for _ in 0..steps {
        step(t, &mut v, 0);
    }
    crate::jsonr::tame(&mut v);
    fld_at(&mut m, &target).default = Some(v.clone());

    // texts
    let dir = ctx.dir();
    let style = if t.coin() { Style::Plain } else { Style::Spelled };
    let mut imports = vec![];
    if split > 0 {
        let ns = if t.chance(1, 3) { None } else { Some((*t.pick(NAMESPACES)).to_string()) };
        let other = Proto { name: "Other".into(), ns, ..Proto::default() };
        let first = m.defs[..split].to_vec();
        let (kind, txt) = if t.coin() {
            let j = JsonR::new(t, first.iter().collect()).protocol(&other);
            ("protocol", text(t, &j, Lay::Plain, false))
        } else {
            let im = Model { mode: if t.coin() { Mode::Bare } else { Mode::Protocol }, proto: other, defs: first };
            ("idl", render(t, &im, Style::Spelled))
        };
        ctx.show(format!("--- i\n{txt}"));
        std::fs::write(dir.join("i"), &txt).unwrap();
        imports.push((0usize, kind.to_string(), "i".to_string()));
        ctx.label(format!("imported-types:{kind}"));
    }
    let shell = Model { mode: m.mode.clone(), proto: m.proto.clone(), defs: m.defs[split..].to_vec() };
    let mut r = Rend::new(t, style);
    r.file(&shell, &imports);
    let (src, marks) = r.finish();
    ctx.show(format!("--- main\n{src}"));
    std::fs::write(dir.join("m.avdl"), &src).unwrap();

    // what must happen
    let place = |x: &str| marks.get(x).map(|p| p.0);
    let visible_until = |at: &At, m: &Model| -> Result<usize, String> {
        Ok(match at {
            At::Field(i, _) => i + 1,
            At::Param(n, _) => {
                let p = place(&format!("msg:{n}")).ok_or("HARNESS: no mark for a message")?;
                let mut k = split;
                for d in &m.defs[split..] {
                    let q = place(&format!("def:{}", d.full)).ok_or("HARNESS: no mark for a type")?;
                    if q < p {
                        k += 1;
                    }
                }
                k
            }
        })
    };
    let until = visible_until(&target, &m)?;
    let decided = |ty: &Sch, v: &Value, n: usize| {
        default_ok(ty, v, &|f: &str| m.defs[..n].iter().find(|d| d.full == f).cloned())
    };
    let ok = decided(&ty, &v, until);
    let ok_all = default_ok(&ty, &v, &|f: &str| m.defs.iter().find(|d| d.full == f).cloned());
    ctx.label(if ok { "valid" } else { "invalid" });
    ctx.label_if(ok != ok_all, "rests-on-a-type-declared-later");
    ctx.label_if(matches!(target, At::Param(..)), "parameter");
    ctx.label(match &ty {
        Sch::Prim(p, pr) if pr.is_empty() => format!("type:{p}"),
        Sch::Prim(..) => "type:logical-or-annotated".into(),
        Sch::Array(..) => "type:array".into(),
        Sch::Map(..) => "type:map".into(),
        Sch::Union(..) => "type:union".into(),
        Sch::Named(n) => match m.get(n).map(|d| &d.kind) {
            Some(Kind::Record { .. }) => "type:record".into(),
            Some(Kind::Enum { .. }) => "type:enum".into(),
            _ => "type:fixed".into(),
        },
    });
    ctx.label_if(has_ref(&ty), "through-reference");
    ctx.label_if(!ok && has_ref(&ty) && !matches!(ty, Sch::Named(_)), "invalid-through-nested-reference");
    let bound = v.as_i64().is_some_and(|n| NUMS[8..].contains(&n));
    ctx.nontrivial = !matches!(&ty, Sch::Prim(_, p) if p.is_empty()) || bound;

    // schema-mode and bare files: extraction shows all types
    let res: Result<Result<Value, Vec<(String, Value)>>, String> = if mode == 0 {
        api::convert_file_quick(&dir.join("m.avdl"), &[]).map(Ok)
    } else {
        let x = api::extract_path(&dir.join("m.avdl"), &[]);
        x.res.map(Err).map_err(|e| e.all_text())
    };
    let shown = format!("default {} for {}", v, describe_ty(&ty));
    match (res, ok) {
        (Err(_), false) => Ok(()),
        (Err(e), true) => fail(format!("{shown} is valid but the program was rejected: {e}")),
        (Ok(_), false) => fail(format!("{shown} does not fit the type but the program was accepted")),
        (Ok(Ok(out)), true) => {
            (|| {
                let doc = read_protocol(&out).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
                same_def_set(&refs(&m), &doc.defs)?;
                same_messages(&m.proto, &doc.proto)
            })()
            .map_err(|e: String| format!("{shown}: {e}\n--- emitted ---\n{}", pretty(&out)))
        }
        (Ok(Err(xs)), true) => {
            for (n, x) in &xs {
                let doc = read_schema(x).map_err(|e| format!("entry {n} is not a valid schema: {e}"))?;
                for d in &doc.defs.list {
                    let Some(w) = m.get(&d.full) else { return fail(format!("undeclared type {} in entry {n}", d.full)) };
                    same_def(w, d).map_err(|e| format!("{shown}: {e}"))?;
                }
            }
            diff("number of extracted schemata", &m.defs.len(), &xs.len())
        }
    }
}

fn describe_ty(s: &Sch) -> String {
    format!("{s:?}")
}
