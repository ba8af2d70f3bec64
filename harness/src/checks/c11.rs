use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::jsonr::*;
use crate::render::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C11: Check = Check {
    id: "C11",
    rule: "a random program whose type expressions (primitives, arrays, maps, named types, in every position) carry random logical \
           types: known and unknown names on fitting and unfitting bases, decimals with missing, ill-typed, zero, negative, excessive \
           and huge precision and scale, extra properties. Written as keywords or annotations in IDL, or imported as protocol JSON. \
           Valid decimals lacking a scale read as scale 0, everything else must come out exactly as written. One case in eight \
           plants an invalid decimal keyword, which must be rejected. Non-trivial: some logical type is unfitting, incomplete or \
           unknown, or the program is to be rejected",
    quick: 300_000,
    thorough: 1_500_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &[
        "precision and scale written as whole floating-point numbers (6.0) are not generated: whether they count as integers is not specified",
    ],
};

const NAMES: &[&str] = &[
    "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis",
    "local-timestamp-micros", "uuid", "decimal", "duration",
];

fn bound(t: &mut Tape) -> Value {
    match t.weighted(&[40, 8, 8, 8, 8, 8, 8]) {
        0 => t.range(0, 12).into(),
        1 => (-(t.range(1, 5) as i64)).into(),
        2 => (*t.pick(&[2147483646u64, 2147483647, 2147483648, 4294967295, 4294967296, 9223372036854775807])).into(),
        3 => Value::from(*t.pick(&[2.5, 2.25, 7.0625, 0.75, 1.001, 11.99, -0.5, 4.000000000000001])),
        4 => Value::from(*t.pick(&["4", "", "x"])),
        5 => Value::Null,
        _ => (*t.pick(&[Value::Bool(true), Value::Array(vec![4.into()]), serde_json::json!({"a": 1})])).clone(),
    }
}

/// Adds a random logical type to the properties of a node of base type `base`.
fn attach(t: &mut Tape, base: &str, pr: &mut Props, ctx: &mut Ctx) {
    let fitting: &[&str] = match base {
        "int" => &["date", "time-millis"],
        "long" => &["time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis", "local-timestamp-micros"],
        "string" => &["uuid"],
        "bytes" => &["decimal"],
        "fixed" => &["decimal", "duration"],
        _ => NAMES,
    };
    let name: Value = match t.weighted(&[50, 30, 12, 8]) {
        0 => (*t.pick(fitting)).into(),
        1 => (*t.pick(NAMES)).into(),
        2 => (*t.pick(UNKNOWN_LOGICAL)).into(),
        _ => json(t, 1),
    };
    let dec = name == "decimal";
    if dec || t.chance(1, 6) {
        if t.chance(7, 8) {
            let v = if t.chance(2, 3) { Value::from(t.range(1, 40)) } else { bound(t) };
            pr.insert("precision".into(), v);
        }
        if t.chance(3, 5) {
            let v = if t.coin() { Value::from(t.range(0, 12)) } else { bound(t) };
            pr.insert("scale".into(), v);
        }
    }
    let fits = name.as_str().is_some_and(|n| fitting.contains(&n)) && is_prim(base);
    pr.insert("logicalType".into(), name);
    if fits && dec {
        if valid_decimal(pr) {
            ctx.label("decimal-valid");
            ctx.label_if(!pr.contains_key("scale"), "decimal-without-scale");
        } else {
            ctx.label("decimal-invalid");
            ctx.nontrivial = true;
        }
    } else if fits {
        ctx.label("fitting");
        ctx.label_if(pr.contains_key("precision"), "fitting-with-stray-precision");
    } else {
        ctx.label("unfitting");
        ctx.nontrivial = true;
    }
}

fn java_int(v: &Value) -> Option<u64> {
    v.as_u64().filter(|x| *x <= i32::MAX as u64)
}
fn valid_decimal(pr: &Props) -> bool {
    let Some(p) = pr.get("precision").and_then(java_int) else { return false };
    let s = match pr.get("scale") {
        None => Some(0),
        Some(v) => java_int(v),
    };
    p >= 1 && s.is_some_and(|s| s <= p)
}

/// A valid decimal without scale is one of scale 0.
fn norm(s: &mut Sch) {
    match s {
        Sch::Prim(p, pr) => {
            if p == "bytes" && pr.get("logicalType") == Some(&"decimal".into()) && valid_decimal(pr) && !pr.contains_key("scale") {
                pr.insert("scale".into(), 0.into());
            }
        }
        Sch::Array(i, _) | Sch::Map(i, _) => norm(i),
        Sch::Union(b) => b.iter_mut().for_each(norm),
        Sch::Named(_) => {}
    }
}
fn norm_json(v: &mut Value) {
    match v {
        Value::Object(o) => {
            if o.get("type") == Some(&"bytes".into()) && o.get("logicalType") == Some(&"decimal".into()) && !o.contains_key("scale") {
                let pr: Props = o.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                if valid_decimal(&pr) {
                    o.insert("scale".into(), 0.into());
                }
            }
            o.values_mut().for_each(norm_json)
        }
        Value::Array(a) => a.iter_mut().for_each(norm_json),
        _ => {}
    }
}

fn nodes(m: &mut Model, idl: bool, f: &mut dyn FnMut(&mut Sch)) {
    fn go(s: &mut Sch, here: bool, f: &mut dyn FnMut(&mut Sch)) {
        if here {
            f(s);
        }
        match s {
            Sch::Array(i, _) | Sch::Map(i, _) => go(i, true, f),
            Sch::Union(b) => b.iter_mut().for_each(|x| go(x, true, f)),
            _ => {}
        }
    }
    for d in &mut m.defs {
        if let Kind::Record { fields, .. } = &mut d.kind {
            fields.iter_mut().for_each(|x| go(&mut x.ty, true, f));
        }
    }
    for x in m.proto.messages.values_mut() {
        x.request.iter_mut().for_each(|y| go(&mut y.ty, true, f));
        // what precedes a result type in IDL belongs to the message
        let nullable = matches!(&x.response, Sch::Union(b) if b.len() == 2);
        if !x.oneway && (!idl || !nullable) {
            go(&mut x.response, !idl, f);
        }
    }
    if let Mode::Schema(s) = &mut m.mode {
        go(s, true, f);
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let form = t.weighted(&[60, 40]); // IDL, import
    let schema = form == 0 && t.chance(1, 5);
    let o = Opts {
        max_types: 4,
        mode: Some(schema as u8),
        docs: false,
        props: t.chance(1, 3),
        odd_names: false,
        ..Opts::default()
    };
    let mut m = model(t, &o);
    ctx.label(if form == 0 { "idl" } else { "imported" });
    let p = 1 + t.below(2);
    let mut hit = 0;
    nodes(&mut m, form == 0, &mut |s| {
        if !t.chance(p, 3) {
            return;
        }
        match s {
            Sch::Prim(base, pr) => {
                for k in ["logicalType", "precision", "scale"] {
                    pr.remove(k);
                }
                attach(t, &base.clone(), pr, ctx);
                hit += 1;
            }
            Sch::Array(_, pr) | Sch::Map(_, pr) if t.chance(1, 3) => {
                attach(t, "array", pr, ctx);
                ctx.label("on-container");
                hit += 1;
            }
            _ => {}
        }
    });
    for d in &mut m.defs {
        let (base, p) = match d.kind {
            Kind::Fixed { .. } => ("fixed", 1),
            Kind::Enum { .. } => ("enum", 6),
            _ => ("record", 8),
        };
        if t.chance(1, p) {
            attach(t, base, &mut d.props, ctx);
            ctx.label(format!("on-{base}"));
            hit += 1;
        }
    }
    ctx.label_if(hit == 0, "no-logical-type");
    let mut bad = None;
    if t.chance(1, 8) {
        let mut count = 0;
        nodes(&mut m, form == 0, &mut |s| count += matches!(s, Sch::Prim(..)) as usize);
        if count > 0 && form == 0 {
            let at = t.usize(count);
            let txt = match t.below(6) {
                0 => format!("decimal({})", t.pick(&["0", "0x0", "00"])),
                1 => format!("decimal(0,{})", t.below(3)),
                2 => {
                    let p = t.range(1, 30);
                    format!("decimal({p}, {})", p + t.range(1, 5))
                }
                3 => format!("decimal(-{})", t.range(1, 9)),
                4 => format!("decimal({}, -{})", t.range(1, 9), t.range(1, 9)),
                _ => format!("decimal({})", t.pick(&["4294967296", "9223372036854775808", "99999999999999999999", "4294967297, 1", "5, 4294967296"])),
            };
            let mut i = 0;
            nodes(&mut m, true, &mut |s| {
                if let Sch::Prim(..) = s {
                    if i == at {
                        *s = Sch::Prim(txt.clone(), Props::new());
                    }
                    i += 1;
                }
            });
            bad = Some(txt);
        }
    }
    ctx.label_if(bad.is_some(), "rejected");
    ctx.nontrivial |= bad.is_some();
    let style = if t.chance(1, 4) { Style::Wild } else { Style::Spelled };
    let out = if form == 0 {
        let src = render(t, &m, style);
        ctx.show(&src);
        api::convert_quick(&src)
    } else {
        tame_model(&mut m);
        let dir = ctx.dir();
        let other = Proto { name: "Other".into(), ns: m.proto.ns.clone(), messages: m.proto.messages.clone(), ..Proto::default() };
        let mut r = JsonR::new(t, m.defs.iter().collect());
        let v = r.protocol(&other);
        let txt = text(t, &v, Lay::Free, true);
        std::fs::write(dir.join("i.avpr"), &txt).unwrap();
        ctx.show(format!("--- i.avpr\n{txt}"));
        let shell = Model { mode: Mode::Protocol, proto: Proto { messages: Default::default(), ..m.proto.clone() }, defs: vec![] };
        let mut r = Rend::new(t, Style::Plain);
        r.file(&shell, &[(0, "protocol".into(), "i.avpr".into())]);
        let txt = r.finish().0;
        std::fs::write(dir.join("m.avdl"), &txt).unwrap();
        api::convert_file_quick(&dir.join("m.avdl"), &[])
    };
    let mut out = match (out, bad) {
        (Err(_), Some(_)) => return Ok(()),
        (Ok(v), Some(b)) => return fail(format!("`{b}` was accepted\n--- emitted ---\n{}", pretty(&v))),
        (Err(e), None) => return fail(format!("a valid program was rejected: {e}")),
        (Ok(v), None) => v,
    };
    norm_json(&mut out);
    nodes(&mut m, false, &mut norm);
    let want = &m;
    (|| match &want.mode {
        Mode::Schema(main) => {
            let doc = read_schema(&out).map_err(|e| format!("the output is not a valid schema: {e}"))?;
            diff("main schema", main, &doc.root)?;
            same_def_set(&doc.defs.names().iter().filter_map(|n| want.get(n)).collect::<Vec<_>>(), &doc.defs)
        }
        _ => {
            let doc = read_protocol_null_ok(&out).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
            same_head(&want.proto, &doc.proto)?;
            same_def_set(&refs(want), &doc.defs)?;
            same_messages(&want.proto, &doc.proto)
        }
    })()
    .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&out)))
}
