use super::c06::mentions_null_ns;
use super::c13::{points, reject};
use super::common::*;
use crate::api;
use crate::faults::Faulty;
use crate::gen_::*;
use crate::jsonr::*;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{Value, json};

pub static C26: Check = Check {
    id: "C26",
    rule: "a random valid protocol or schema in a random legal JSON spelling, in which one random part (protocol, type definition, \
           schema, field, parameter, message, at any depth) loses a required member or gets a value of the wrong JSON kind; imported \
           directly or through another file, it must be rejected by compile and extract with a report that names the file and \
           highlights its import, while the undamaged file compiles, and to the same with nulls for absent namespaces, docs and enum defaults. Non-trivial: at least three parts to choose from",
    quick: 120_000,
    thorough: 500_000,
    run,
    fixed: None,
    known: &[],
    budget: 30_000_000,
    assumptions: &["null for an optional member counts as its absence, and docs of other kinds than strings may be ignored"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    Protocol,
    Message,
    Field,
    Record,
    Enum,
    Fixed,
    Array,
    Map,
    Schema,
}

/// All parts of the document with their paths.
fn parts(v: &Value, role: Role, path: &str, out: &mut Vec<(String, Role)>) {
    let sub = |k: &str| format!("{path}/{}", k.replace('~', "~0").replace('/', "~1"));
    let list = |k: &str, r: Role, out: &mut Vec<(String, Role)>| {
        for (i, x) in v[k].as_array().into_iter().flatten().enumerate() {
            parts(x, r, &format!("{}/{i}", sub(k)), out);
        }
    };
    match role {
        Role::Protocol => {
            out.push((path.into(), role));
            list("types", Role::Schema, out);
            for (k, x) in v["messages"].as_object().into_iter().flatten() {
                let p = format!("{path}/messages/{}", k.replace('~', "~0").replace('/', "~1"));
                parts(x, Role::Message, &p, out);
            }
        }
        Role::Message => {
            out.push((path.into(), role));
            list("request", Role::Field, out);
            list("errors", Role::Schema, out);
            if let Some(x) = v.get("response") {
                parts(x, Role::Schema, &sub("response"), out);
            }
        }
        Role::Field => {
            out.push((path.into(), role));
            parts(&v["type"], Role::Schema, &sub("type"), out);
        }
        _ => match v {
            Value::Array(a) => {
                out.push((path.into(), Role::Schema));
                for (i, x) in a.iter().enumerate() {
                    parts(x, Role::Schema, &format!("{path}/{i}"), out);
                }
            }
            Value::Object(o) => {
                out.push((path.into(), Role::Schema));
                let r = match o["type"].as_str() {
                    Some("record" | "error") => Role::Record,
                    Some("enum") => Role::Enum,
                    Some("fixed") => Role::Fixed,
                    Some("array") => Role::Array,
                    Some("map") => Role::Map,
                    _ => return,
                };
                out.push((path.into(), r));
                list("fields", if r == Role::Record { Role::Field } else { return nested(v, r, path, out) }, out);
            }
            _ => out.push((path.into(), Role::Schema)),
        },
    }
}

fn nested(v: &Value, r: Role, path: &str, out: &mut Vec<(String, Role)>) {
    match r {
        Role::Array => parts(&v["items"], Role::Schema, &format!("{path}/items"), out),
        Role::Map => parts(&v["values"], Role::Schema, &format!("{path}/values"), out),
        _ => {}
    }
}

/// (member, required, values of the wrong kind)
fn members(r: Role, v: &Value) -> Vec<(&'static str, bool, Vec<Value>)> {
    let not_string = || vec![json!(1), json!(true), json!(["a"]), json!({"a": "b"}), json!(0.5)];
    let not_string_null = || {
        let mut v = not_string();
        v.push(Value::Null);
        v
    };
    let not_array = || vec![json!(1), json!("a"), json!({"a": "b"}), json!({}), json!(true), json!("")];
    let not_array_null = || {
        let mut v = not_array();
        v.push(Value::Null);
        v
    };
    let not_strings = || {
        let mut v = not_array();
        v.extend([json!([1]), json!(["A", null]), json!(["Zq", ["B"]]), json!([{}]), json!([true, "B"])]);
        v
    };
    let not_schema = || vec![json!(1), json!(null), json!(true), json!({}), json!({"name": "a"}), json!(-0.5), json!([1]), json!(["int", null])];
    let name = ("name", true, not_string_null());
    let ns = ("namespace", false, not_string());
    let aliases = ("aliases", false, not_strings());
    match r {
        Role::Protocol => vec![
            ("protocol", true, not_string_null()),
            ("types", false, not_array_null()),
            ("messages", false, vec![json!(1), json!("a"), json!([]), json!([1]), json!(null), json!(false)]),
        ],
        Role::Message => {
            let mut m = vec![
                ("request", true, not_array_null()),
                ("response", v.get("one-way") != Some(&json!(true)), not_schema()),
                ("errors", false, not_array()),
                ("one-way", false, vec![json!("yes"), json!(1), json!([]), json!("true"), json!({})]),
            ];
            if v.get("one-way") == Some(&json!(true)) {
                m.remove(2);
            }
            m
        }
        Role::Field => vec![
            name,
            ("type", true, not_schema()),
            aliases,
            ("order", false, vec![json!("up"), json!(""), json!(1), json!(["ascending"]), json!(true), json!("ascending ")]),
        ],
        Role::Record => vec![name, ns, aliases, ("fields", true, not_array_null()), ("type", true, not_string_null())],
        Role::Enum => {
            let mut bad = not_strings();
            bad.push(Value::Null);
            vec![name, ns, aliases, ("symbols", true, bad), ("default", false, not_string()), ("type", true, not_string_null())]
        }
        Role::Fixed => {
            let bad = vec![json!("4"), json!(4.5), json!(-1), json!(4294967296u64), json!(null), json!(true), json!([4]), json!("")];
            vec![name, ns, aliases, ("size", true, bad), ("type", true, not_string_null())]
        }
        Role::Array => vec![("items", true, not_schema()), ("type", true, not_string_null())],
        Role::Map => vec![("values", true, not_schema()), ("type", true, not_string_null())],
        Role::Schema => vec![],
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut m = model(t, &Opts { max_types: 5, ..Opts::default() });
    tame_model(&mut m);
    if mentions_null_ns(&m) || m.proto.ns.is_none() && t.coin() {
        m.proto.messages.clear();
    }
    let proto = m.defs.is_empty() || t.chance(2, 3);
    if !proto {
        m.proto.messages.clear();
    }
    m.proto.props.clear();
    let mut r = JsonR::new(t, m.defs.iter().collect());
    let good = if proto {
        r.protocol(&m.proto)
    } else {
        let mut a = vec![];
        for d in &m.defs {
            if !r.done.contains(&d.full) {
                a.push(r.def(d, None));
            }
        }
        if a.len() == 1 { a.remove(0) } else { Value::Array(a) }
    };
    drop(r);
    let mut ps = vec![];
    parts(&good, if proto { Role::Protocol } else { Role::Schema }, "", &mut ps);
    ctx.nontrivial = ps.len() >= 3;
    // by kind first, so that the rarer kinds get their share
    let mut kinds: Vec<Role> = vec![];
    for p in &ps {
        if !kinds.contains(&p.1) {
            kinds.push(p.1);
        }
    }
    let kind = *t.pick(&kinds);
    let here: Vec<&String> = ps.iter().filter(|p| p.1 == kind).map(|p| &p.0).collect();
    let path = (*t.pick(&here)).clone();
    let mut bad = good.clone();
    let Some(spot) = bad.pointer_mut(&path) else { return harness("path") };
    let ms = members(kind, spot);
    let what;
    if ms.is_empty() || path.len() > 1 && matches!(kind, Role::Field | Role::Message) && t.chance(1, 8) {
        // the part itself is of the wrong kind
        let mut v = vec![json!(1), json!(null), json!(true), json!(1.5)];
        if kind != Role::Schema {
            v.extend([json!("int"), json!([]), json!({})]);
        }
        let v = t.pick(&v).clone();
        what = format!("{kind:?} replaced by {v}");
        ctx.label(format!("{kind:?}:replaced"));
        *spot = v;
    } else {
        let (k, required, wrong) = t.pick(&ms).clone();
        let Some(o) = spot.as_object_mut() else { return harness("not an object") };
        if required && t.chance(1, 3) {
            let v = o.remove(k);
            what = if let (Some(v), true) = (v, t.coin()) {
                // the same under another name
                let other = match k {
                    "name" => ["Name", "fullname", "protocol", "id"],
                    "protocol" => ["name", "Protocol", "type", "id"],
                    "type" => ["Type", "kind", "schema", "logicalType"],
                    "fields" => ["field", "Fields", "symbols", "request"],
                    "symbols" => ["symbol", "values", "fields", "enum"],
                    "size" => ["Size", "length", "precision", "bytes"],
                    "items" => ["values", "item", "Items", "elements"],
                    "values" => ["items", "value", "Values", "keys"],
                    "request" => ["Request", "params", "fields", "requests"],
                    _ => ["Response", "returns", "result", "type"],
                };
                let other = *t.pick(&other);
                o.insert(other.into(), v);
                ctx.label(format!("{kind:?}:{k}:renamed"));
                format!("{kind:?} at {path}: `{k}` renamed to `{other}`")
            } else {
                ctx.label(format!("{kind:?}:{k}:removed"));
                format!("{kind:?} at {path}: `{k}` removed")
            };
        } else {
            let v = t.pick(&wrong).clone();
            what = format!("{kind:?} at {path}: `{k}` set to {v}");
            ctx.label(format!("{kind:?}:{k}:wrong"));
            o.insert(k.into(), v);
        }
    }
    let d = std::fs::canonicalize(ctx.dir()).unwrap();
    let (ext, kw) = if proto { ("avpr", "protocol") } else { ("avsc", "schema") };
    let file = format!("zq-i.{ext}");
    let lay = [Lay::Plain, Lay::Free, Lay::Comments][t.below(3) as usize];
    let txt = text(t, &bad, lay, true);
    ctx.show(format!("--- {what}\n--- {file}\n{txt}"));
    let imp = format!("import {kw} \"{file}\";");
    let (start, end) = *t.pick(&[("protocol Main {\n ", " }"), ("schema int;\n", "record ZqMain { int a; }"), ("protocol Main { record ZqA { } ", "void ping(); }")]);
    let main = format!("{start}{imp}\n{end}");
    let stating = d.join("m.avdl");
    std::fs::write(&stating, &main).unwrap();
    let mut name = stating.clone();
    if t.chance(1, 4) {
        name = d.join("n.avdl");
        std::fs::write(&name, "protocol N { import idl \"m.avdl\"; }").unwrap();
    }
    std::fs::write(d.join(&file), good.to_string()).unwrap();
    let plain = match api::convert_file_quick(&name, &[]) {
        Ok(v) => v,
        Err(e) => return fail(format!("the undamaged file is rejected: {e}\n{good}")),
    };
    // null stands for an absent optional string
    let mut nulls = good.clone();
    let mut n = 0;
    for (p, r) in &ps {
        let ks: &[&str] = match r {
            Role::Protocol | Role::Record | Role::Fixed => &["namespace", "doc"],
            Role::Enum => &["namespace", "doc", "default"],
            Role::Field | Role::Message => &["doc"],
            _ => continue,
        };
        for k in ks {
            let Some(o) = nulls.pointer_mut(p).and_then(|x| x.as_object_mut()) else { return harness("path") };
            if !o.contains_key(*k) && t.chance(1, 3) {
                o.insert(k.to_string(), Value::Null);
                n += 1;
            }
        }
    }
    if n > 0 {
        ctx.label("nulls");
        let txt = text(t, &nulls, lay, true);
        std::fs::write(d.join(&file), &txt).unwrap();
        match api::convert_file_quick(&name, &[]) {
            Ok(v) if v == plain => {}
            Ok(v) => return fail(format!("nulls for absent members change the result\n{txt}\n--- without\n{}\n--- with\n{}", pretty(&plain), pretty(&v))),
            Err(e) => return fail(format!("nulls for absent members are rejected: {e}\n{txt}")),
        }
    }
    std::fs::write(d.join(&file), &txt).unwrap();
    let r = reject(&name, &what)?;
    let at = start.len();
    let f = Faulty { text: main, kind: "malformed-json", region: (at, at + imp.len()), wide: (at, at + imp.len()), needles: vec![], place: "import" };
    points(&r, &stating.display().to_string(), &f)?;
    if !r.all_text().contains(&file) {
        return fail(format!("{what}: `{file}` is mentioned nowhere\n{}", r.rendered));
    }
    Ok(())
}
