use super::c06::mentions_null_ns;
use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::jsonr::*;
use crate::runner::*;
use crate::spec::*;
use crate::tape::Tape;
use serde_json::Value;

pub static C23: Check = Check {
    id: "C23",
    rule: "a random set of types and messages whose docs, property names and values and string defaults hold comment-like text \
           (slashes, stars, quotes, backslashes) is written as .avpr or .avsc JSON twice: plainly, and with random member order, \
           whitespace, escapes, number spellings and line and block comments (also very long ones) between all tokens. A file importing \
           either must give the same result, which must denote the model. In a fifth of the cases the JSON is damaged first (both \
           must agree), in a tenth the commented text ends in a comment that never ends (must be rejected). Non-trivial: \
           comments in the text and comment-like text in a string",
    quick: 150_000,
    thorough: 600_000,
    run,
    fixed: None,
    known: &[],
    budget: 12_000_000,
    assumptions: &["a line comment ends with a line feed (lone carriage returns are not generated)"],
};

const LIKE: &[&str] = &[
    "/*", "*/", "//", "/* x */", "// x", "http://a/b//c", "\"", "\\", "\\\"", "\" // \"", "\" /* \"", "*/ \" /*", "\\\\", "/", "*", "#", "# x",
    "\\\\\" //", "/**/", "//\n", "/*\n*/", "\\u0022", "'", "\u{2028}//",
];

fn like(t: &mut Tape) -> String {
    let mut s = String::new();
    let mut n = 0;
    loop {
        s.push_str(*t.pick(LIKE));
        n += 1;
        if !t.more(n, 5, 1, 2) {
            return s;
        }
        if t.coin() {
            s.push_str(*t.pick(&["a", " ", "é", "😀", "1"]));
        }
    }
}

fn plant_props(t: &mut Tape, p: &mut Props) {
    while t.chance(1, 5) {
        let k = if t.coin() { format!("k{}", p.len()) } else { like(t) };
        let v = match t.below(3) {
            0 => Value::from(vec![like(t), like(t)]),
            1 => {
                let mut o = serde_json::Map::new();
                o.insert(like(t), Value::from(like(t)));
                Value::Object(o)
            }
            _ => Value::from(like(t)),
        };
        p.insert(k, v);
    }
}
fn plant_doc(t: &mut Tape, d: &mut Option<String>) {
    if t.chance(1, 4) {
        *d = Some(like(t));
    }
}
fn plant_flds(t: &mut Tape, fs: &mut [Fld]) {
    for f in fs {
        plant_doc(t, &mut f.doc);
        plant_props(t, &mut f.props);
        match &f.ty {
            Sch::Prim(p, _) if p == "string" && t.chance(1, 2) => f.default = Some(Value::from(like(t))),
            Sch::Array(i, _) if matches!(&**i, Sch::Prim(p, _) if p == "string") && t.chance(1, 2) => {
                f.default = Some(Value::from(vec![like(t), like(t)]))
            }
            _ => {}
        }
    }
}
fn plant(t: &mut Tape, m: &mut Model) {
    for d in &mut m.defs {
        plant_doc(t, &mut d.doc);
        plant_props(t, &mut d.props);
        if let Kind::Record { fields, .. } = &mut d.kind {
            plant_flds(t, fields);
        }
    }
    for x in m.proto.messages.values_mut() {
        plant_doc(t, &mut x.doc);
        plant_props(t, &mut x.props);
        plant_flds(t, &mut x.request);
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let mut m = model(t, &Opts { max_types: 4, ..Opts::default() });
    m.proto.props.clear();
    m.proto.doc = None;
    tame_model(&mut m);
    plant(t, &mut m);
    let avsc = t.chance(1, 3) && !m.defs.is_empty();
    if avsc {
        m.proto.messages.clear();
    }
    let mut r = JsonR::new(t, m.defs.iter().collect());
    let mut v = if avsc {
        let mut a = vec![];
        for d in &m.defs {
            if !r.done.contains(&d.full) {
                a.push(r.def(d, None));
            }
        }
        Value::Array(a)
    } else {
        r.protocol(&Proto { name: "Other".into(), ..m.proto.clone() })
    };
    drop(r);
    let damaged = t.chance(1, 5);
    if damaged {
        for _ in 0..1 + t.usize(3) {
            mutate(t, &mut v);
        }
        tame(&mut v);
    }
    let plain = text(t, &v, Lay::Plain, false);
    let mut w = JText { t, lay: Lay::Comments, spell: true, out: String::new(), n_comments: 0 };
    w.document(&v);
    let (mut free, comments) = (w.out, w.n_comments);
    if t.chance(1, 6) {
        // a line comment may end with the file
        free.push_str("// \" end");
    }
    let dir = ctx.dir();
    let name = if avsc { "i.avsc" } else { "i.avpr" };
    let main = format!(
        "{} protocol {} {{ import {} \"{name}\"; }}",
        m.ns().map(|n| format!("@namespace({})", Value::from(n))).unwrap_or_default(),
        format_args!("`{}`", m.proto.name),
        if avsc { "schema" } else { "protocol" }
    );
    let go = |src: &str| -> Result<(Value, Vec<(String, Value)>), String> {
        std::fs::write(dir.join(name), src).unwrap();
        std::fs::write(dir.join("m.avdl"), &main).unwrap();
        let c = convert_file_quick(&dir.join("m.avdl"), &[])?;
        let x = avdl::Idl2Schemata::new().extract(dir.join("m.avdl")).map_err(|e| err_text(&e))?;
        Ok((c, x.schemas.into_iter().map(|s| (s.name, s.schema)).collect()))
    };
    ctx.show(format!("--- plain\n{plain}\n--- with comments\n{free}"));
    let inside = plain.contains("//") || plain.contains("/*") || plain.contains("\\\"");
    ctx.nontrivial = comments > 0 && inside;
    ctx.label_if(avsc, "avsc");
    ctx.label_if(damaged, "damaged");
    ctx.label_if(free.len() > 9000, "longer-than-8K");
    let a = go(&plain);
    let b = go(&free);
    match (a, b) {
        (Err(_), Err(_)) if damaged => ctx.label("both-rejected"),
        (Err(e), _) if !damaged => return fail(format!("the plain text was rejected: {e}")),
        (Ok(_), Err(e)) => return fail(format!("comments, layout or spelling make a valid file fail: {e}")),
        (Err(e), Ok(_)) => return fail(format!("comments, layout or spelling make a file pass that fails with {e}")),
        (Ok((c, x)), Ok((d, y))) => {
            if c != d {
                return fail(format!("comments, layout or spelling change the result\n--- plain\n{}\n--- with\n{}", pretty(&c), pretty(&d)));
            }
            diff("extracted schemata", &x, &y)?;
            if !damaged {
                if m.ns().is_some() && mentions_null_ns(&m) {
                    return harness("a message mentions a type it cannot spell");
                }
                (|| {
                    let doc = read_protocol(&c).map_err(|e| format!("the output is not a valid protocol: {e}"))?;
                    same_head(&m.proto, &doc.proto)?;
                    same_def_set(&refs(&m), &doc.defs)?;
                    same_messages(&m.proto, &doc.proto)
                })()
                .map_err(|e: String| format!("{e}\n--- emitted ---\n{}", pretty(&c)))?;
            }
        }
        _ => {}
    }
    if t.chance(1, 10) {
        let open = format!("{free}\n{}", t.pick(&["/*", "/* x", "/* x *", "/", "/*/", "*/", "/* /* */ */", "#", "/ /"]));
        ctx.label("unfinished-comment");
        if go(&open).is_ok() {
            return fail(format!("a file ending in `{}` was accepted", &open[free.len()..]));
        }
    }
    Ok(())
}
