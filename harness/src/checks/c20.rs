use super::common::*;
use crate::api;
use crate::gen_::*;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C20: Check = Check {
    id: "C20",
    rule: "random programs are written twice, with `T?` and with the explicit union (per variable: null first unless its default is \
           not null), in fields (also groups of variables with different defaults), parameters, responses, items of arrays and \
           maps at any depth, main schemas and, as an error, union branches; T is any primitive, logical keyword, annotated type or \
           reference (earlier, later, own, imported, enclosing, qualified, quoted, keyword-named). Results must be equal; branch \
           order is also read off the output; `null?` and `void?` must be rejected. Non-trivial: a shorthand with a non-null default, \
           or in a place other than a field",
    quick: 88_000,
    thorough: 1_000_000,
    run,
    fixed: None,
    known: &[],
    budget: 8_000_000,
    assumptions: &["the explicit form is read rightly (C01, C02)"],
};

#[derive(Default)]
struct P {
    sugar: String,
    plain: String,
}
impl P {
    fn lit(&mut self, s: &str) {
        self.sugar.push_str(s);
        self.plain.push_str(s);
    }
    fn q(&mut self, inner: &str, null_first: bool, gap: &str) {
        self.sugar.push_str(&format!("{inner}{gap}?"));
        self.plain.push_str(&if null_first { format!("union {{ null, {inner} }}") } else { format!("union {{ {inner}, null }}") });
    }
}

/// A type that may be made nullable, and a fitting default.
fn inner(t: &mut Tape, annotations: bool, imported: bool) -> (String, String) {
    let int = |t: &mut Tape| int_value(t, 32).to_string();
    let refs: &[(&str, &str)] = &[
        ("A", "{\"i\": 3, \"s\": \"x\"}"),
        ("`A`", "{\"s\": \"\"}"),
        ("n.s.A", "{\"s\": \"\", \"i\": 0}"),
        ("E", "\"Y\""),
        ("F", "\"ab\""),
        ("X", "{}"),
        ("other.B", "{\"b\": null}"),
        ("`record`", "{}"),
        ("Later", "{\"l\": [1]}"),
        ("R", "{}"),
        ("n.s.`E`", "\"X\""),
    ];
    let s = |t: &mut Tape| crate::render::quote_plain(&string(t));
    let (ty, d) = match t.weighted(&[30, 15, 35, if imported { 15 } else { 0 }]) {
        0 => match t.below(7) {
            0 => ("int", int(t)),
            1 => ("long", int_value(t, 64).to_string()),
            2 => ("string", s(t)),
            3 => ("bytes", s(t)),
            4 => ("boolean", t.coin().to_string()),
            5 => ("float", (*t.pick(&["1.5", "0", "NaN", "-Infinity"])).to_string()),
            _ => ("double", (*t.pick(&["-1e10", "0.0", "7", "\"Infinity\""])).to_string()),
        },
        1 => match t.below(7) {
            0 => ("date", int(t)),
            1 => ("time_ms", "0".into()),
            2 => ("timestamp_ms", "-1".into()),
            3 => ("local_timestamp_ms", "5".into()),
            4 => ("uuid", "\"\"".into()),
            5 => ("decimal(7, 2)", "\"\\u0001\"".into()),
            _ => ("decimal(3)", "\"\"".into()),
        },
        2 => {
            let r = t.pick(refs);
            (r.0, r.1.to_string())
        }
        _ => ("Imp", "\"I\"".into()),
    };
    let reference = ty.starts_with(|c: char| c.is_uppercase() || c == '`') || ty.contains("n.s") || ty.contains("other");
    let mut ty = ty.to_string();
    if annotations && !reference && t.chance(1, 4) {
        let a = *t.pick(&["@p(1) ", "@q({\"a\": null}) @p([]) ", "@logicalType(\"zz\") ", "@java-class(\"x.Y\") "]);
        if !(a.contains("logical") && ["date", "time", "loc", "uuid", "dec"].iter().any(|k| ty.starts_with(k))) {
            ty = format!("{a}{ty}");
        }
    }
    (ty, d)
}

/// A type holding shorthands below its top: text of containers.
fn deep(t: &mut Tape, p: &mut P, depth: usize, imported: bool, bad: &mut Option<&'static str>) {
    let gap = *t.pick(&["", "", " ", "\n", "/* c */"]);
    match t.weighted(&[if depth < 3 { 30 } else { 0 }, if depth < 3 { 30 } else { 0 }, 40, if depth < 3 { 8 } else { 0 }, 3]) {
        0 => {
            p.lit("array<");
            deep(t, p, depth + 1, imported, bad);
            p.lit(">");
        }
        1 => {
            p.lit(if t.chance(1, 5) { "@m(1) map<" } else { "map<" });
            deep(t, p, depth + 1, imported, bad);
            p.lit(">");
        }
        2 => {
            let (ty, _) = inner(t, true, imported);
            p.q(&ty, true, gap);
        }
        3 => {
            // containers as branches may hold shorthands
            p.lit("union { null, array<");
            deep(t, p, depth + 1, imported, bad);
            p.lit("> }");
        }
        _ if bad.is_none() && t.chance(1, 3) => {
            let (ty, _) = inner(t, true, imported);
            *bad = Some("a shorthand as a branch of a union");
            p.lit("union { boolean, ");
            p.q(&ty, true, gap);
            p.lit(" }");
        }
        _ => p.lit("int"),
    }
}

fn find<'a>(v: &'a Value, name: &str) -> Option<&'a Value> {
    match v {
        Value::Object(o) => {
            if o.get("name").and_then(|n| n.as_str()) == Some(name) && o.contains_key("fields") {
                return Some(v);
            }
            o.values().find_map(|x| find(x, name))
        }
        Value::Array(a) => a.iter().find_map(|x| find(x, name)),
        _ => None,
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let imported = t.chance(1, 4);
    let protocol = t.chance(2, 3);
    let mut p = P::default();
    let mut bad: Option<&'static str> = None;
    let mut want: Vec<(String, bool)> = vec![];
    let early = "record A { string s; int i = 0; } enum E { X, Y } fixed F(2); error X {} @namespace(\"other\") record B { union{null,int} b; } record `record` {} ";
    let late = "record Later { array<int> l; } ";
    if protocol {
        p.lit("@namespace(\"n.s\") protocol P { ");
    } else {
        p.lit("namespace n.s; schema ");
        let gap = if t.coin() { "" } else { " " };
        match t.below(4) {
            0 => p.lit("R"),
            1 => {
                let (ty, _) = inner(t, true, imported);
                p.q(&ty, true, gap);
                ctx.label("main-schema");
                ctx.nontrivial = true;
            }
            2 => {
                deep(t, &mut p, 0, imported, &mut bad);
                ctx.nontrivial = true;
            }
            _ => p.lit("array<R>"),
        }
        p.lit("; ");
    }
    if imported {
        p.lit("import idl \"i.avdl\"; ");
    }
    let early_first = t.coin();
    if early_first {
        p.lit(early);
    }
    p.lit("record R { ");
    let mut n = 0;
    let mut wrong = false;
    while t.more(n, 5, 4, 5) {
        n += 1;
        match t.weighted(&[60, 25, 12, 3]) {
            0 => {
                // a declaration of one or more variables
                let (ty, d) = inner(t, true, imported);
                let k = 1 + t.weighted(&[50, 30, 20]);
                let gap = *t.pick(&["", "", " ", "/**/"]);
                let doc = if t.chance(1, 6) { "/** doc */ " } else { "" };
                p.sugar.push_str(&format!("{doc}{ty}{gap}? "));
                for j in 0..k {
                    let name = format!("f{n}_{j}");
                    let (def, null_first) = match t.weighted(&[30, 25, 40, 5]) {
                        0 => (String::new(), true),
                        1 => (" = null".into(), true),
                        2 if !ty.ends_with('R') => (format!(" = {d}"), false),
                        3 => {
                            wrong = true;
                            (format!(" = {}", t.pick(&["[]", "{\"zz\": 1, \"i\": {}}", "1", "\"s\"", "true"])), false)
                        }
                        _ => (String::new(), true),
                    };
                    let ann = *t.pick(&["", "", "", "@order(\"ignore\") ", "@v(2) ", "@aliases([\"zz\"]) "]);
                    ctx.label_if(!null_first, "non-null-default");
                    ctx.label_if(k > 1, "group");
                    ctx.nontrivial |= !null_first;
                    want.push((name.clone(), null_first));
                    if j > 0 {
                        p.sugar.push_str(", ");
                    }
                    p.sugar.push_str(&format!("{ann}{name}{def}"));
                    let u = if null_first { format!("union {{ null, {ty} }}") } else { format!("union {{ {ty}, null }}") };
                    p.plain.push_str(&format!("{doc}{u} {ann}{name}{def}; "));
                }
                p.sugar.push_str("; ");
            }
            1 => {
                deep(t, &mut p, 0, imported, &mut bad);
                p.lit(&format!(" g{n}; "));
                ctx.nontrivial = true;
                ctx.label("container");
            }
            2 => p.lit(&format!("int h{n} = {n}; ")),
            _ if bad.is_none() => {
                let b = *t.pick(&["null?", "@p(1) null?", "array<null?>", "void?", "map<null ?>", "union { int, null? }"]);
                bad = Some("null made nullable");
                p.lit(&format!("{b} k{n}; "));
            }
            _ => p.lit(&format!("int h{n}; ")),
        }
    }
    p.lit("} ");
    if protocol {
        let k = t.usize(3);
        for i in 0..k {
            ctx.nontrivial = true;
            ctx.label("message");
            // responses allow no annotations
            match t.below(4) {
                0 => {
                    let (ty, _) = inner(t, false, imported);
                    p.q(&ty, true, "");
                }
                1 => {
                    p.lit("array<");
                    deep(t, &mut p, 1, imported, &mut bad);
                    p.lit(">");
                }
                2 => p.lit("void"),
                _ if bad.is_none() && t.chance(1, 6) => {
                    bad = Some("null made nullable");
                    p.lit(*t.pick(&["null?", "void?"]));
                }
                _ => p.lit("int"),
            }
            p.lit(&format!(" m{i}("));
            let np = t.usize(3);
            for j in 0..np {
                if j > 0 {
                    p.lit(", ");
                }
                if t.chance(2, 3) {
                    let (ty, d) = inner(t, true, imported);
                    let (def, nf) = match t.below(3) {
                        0 => (" = null".to_string(), true),
                        1 if !ty.ends_with('R') => (format!(" = {d}"), false),
                        _ => (String::new(), true),
                    };
                    p.q(&ty, nf, "");
                    p.lit(&format!(" p{j}{def}"));
                } else {
                    deep(t, &mut p, 0, imported, &mut bad);
                    p.lit(&format!(" p{j}"));
                }
            }
            p.lit("); ");
        }
    }
    if !early_first {
        p.lit(early);
    }
    p.lit(late);
    if protocol {
        p.lit("}");
    }
    ctx.show(format!("{}\n=======\n{}", p.sugar, p.plain));
    ctx.label_if(bad.is_some(), "must-fail");
    let both = if imported {
        let d = ctx.dir();
        std::fs::write(d.join("i.avdl"), "@namespace(\"n.s\") protocol I { enum Imp { I, J } }").unwrap();
        let mut out = vec![];
        for (n, s) in [("a.avdl", &p.sugar), ("b.avdl", &p.plain)] {
            std::fs::write(d.join(n), s).unwrap();
            out.push((api::convert_file(&d.join(n), &[]), api::extract_path(&d.join(n), &[])));
        }
        out
    } else {
        [&p.sugar, &p.plain].iter().map(|s| (api::convert(s), api::extract(s))).collect()
    };
    let (a, b) = (&both[0], &both[1]);
    if let Some(what) = bad {
        for r in [a.0.res.is_ok(), a.1.res.is_ok()] {
            if r {
                return fail(format!("{what} was accepted"));
            }
        }
        return Ok(());
    }
    match (&a.0.res, &b.0.res) {
        (Ok(x), Ok(y)) => {
            diff("compiled output", x, y)?;
            diff("warnings", &b.0.warnings.len(), &a.0.warnings.len())?;
            let r = find(x, "R");
            if r.is_none() && protocol {
                return fail("the record is missing");
            }
            let fields = r.and_then(|r| r["fields"].as_array()).cloned().unwrap_or_default();
            for (name, null_first) in &want {
                let Some(f) = fields.iter().find(|f| f["name"] == name.as_str()) else {
                    if protocol {
                        return fail(format!("field {name} is missing"));
                    }
                    continue;
                };
                let bs = f["type"].as_array().cloned().unwrap_or_default();
                let is_null = |v: &Value| *v == Value::from("null");
                if bs.len() != 2 || is_null(&bs[0]) != *null_first || is_null(&bs[1]) == *null_first {
                    return fail(format!("type of {name}: {}", pretty(&f["type"])));
                }
            }
        }
        (Err(_), Err(_)) if wrong => {}
        (Err(e), Err(_)) => return fail(format!("a valid program was rejected: {}", e.all_text())),
        (Err(e), Ok(_)) => return fail(format!("only the explicit form compiles; the shorthand: {}", e.all_text())),
        (Ok(_), Err(e)) => return fail(format!("only the shorthand compiles; the explicit form: {}", e.all_text())),
    }
    match (&a.1.res, &b.1.res) {
        (Ok(x), Ok(y)) => diff("extracted schemata", x, y),
        (Err(_), Err(_)) => Ok(()),
        (x, y) => fail(format!("extraction: shorthand {}, explicit {}", x.is_ok(), y.is_ok())),
    }
}
