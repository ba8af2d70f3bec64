use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::mutate;
use crate::render::*;
use crate::runner::*;
use crate::syntax::{self, Token, kind_name};
use crate::tape::Tape;

pub static C27: Check = Check {
    id: "C27",
    rule: "a valid program with one planted mistake (empty union, empty type parameter, non-integer size, missing name, trailing comma, \
           annotation without value, missing import kind, bare default, misspelt declaration keyword, unended string, missing brace, \
           a `)` too many) \
           and none or one to three further token edits, or only these, or character edits; every spelling and layout. Whatever the \
           reports then claim beyond `unexpected token` (that a union is empty, that a comma trails in an enum, that this brace is \
           never closed, ...) is checked against our own tokens: it must hold, and hold where the report points. A mistake planted \
           alone, with nothing but white space inside it, must be named for what it is. Non-trivial: some report makes such a claim",
    quick: 204_000,
    thorough: 2_000_000,
    run,
    fixed: None,
    known: &[],
    budget: 10_000_000,
    assumptions: &["our reading of the tokens of Avro IDL (syntax.rs)", "which tokens are listed as expected is not checked"],
};

struct View<'a> {
    src: &'a str,
    toks: Vec<Token>,
    /// Offset of text that begins no token; tokens after it are unknown.
    bad: Option<usize>,
    /// First token that continues no valid text.
    dead: usize,
}
impl View<'_> {
    fn k(&self, i: usize) -> &'static str {
        self.toks.get(i).map_or("EOF", |t| kind_name(t.kind))
    }
    fn text(&self, i: usize) -> &str {
        self.toks.get(i).map_or("", |t| &self.src[t.start..t.end])
    }
    /// The tokens a region covers exactly.
    fn cover(&self, o: usize, l: usize) -> Option<(usize, usize)> {
        let a = self.toks.iter().position(|t| t.start == o)?;
        let b = self.toks.iter().position(|t| t.end == o + l)?;
        (a <= b).then_some((a, b + 1))
    }
    fn kinds(&self, a: usize, b: usize) -> Vec<&'static str> {
        (a..b).map(|i| self.k(i)).collect()
    }
    /// The braces open before token `n`.
    fn open(&self, n: usize) -> Vec<usize> {
        let mut v = vec![];
        for i in 0..n.min(self.toks.len()) {
            match self.k(i) {
                "{" => v.push(i),
                "}" => drop(v.pop()),
                _ => {}
            }
        }
        v
    }
    fn name(&self, i: usize) -> bool {
        i < self.toks.len() && (self.k(i) == "ID" || syntax::KEYWORDS.contains(&self.k(i)))
    }
    /// Which construct an opening brace begins, if it is clear.
    fn construct(&self, brace: usize) -> &'static str {
        if brace >= 1 && self.k(brace - 1) == "union" && !(brace >= 2 && ["protocol", "record", "error", "enum"].contains(&self.k(brace - 2))) {
            return "union";
        }
        if brace >= 2 && self.name(brace - 1) {
            return match self.k(brace - 2) {
                "protocol" => "protocol",
                "record" => "record",
                "error" => "error record",
                "enum" => "enum",
                _ => "",
            };
        }
        if brace >= 1 {
            return match self.k(brace - 1) {
                "protocol" => "protocol",
                "record" => "record",
                "error" => "error record",
                "enum" => "enum",
                _ => "",
            };
        }
        ""
    }
}

fn quoted<'a>(m: &'a str, before: &str, after: &str) -> Option<&'a str> {
    let r = &m[m.find(before)? + before.len()..];
    if after.is_empty() { Some(r) } else { r.find(after).map(|i| &r[..i]) }
}

/// Checks every claim of one report.
fn judge(v: &View, d: &Diag, ctx: &mut Ctx) -> Res {
    let m = d.chain.iter().chain([&d.message]).find(|m| m.starts_with("line ")).cloned().unwrap_or_default();
    if m.is_empty() {
        return Ok(());
    }
    let Some(l) = d.labels.first() else { return fail(format!("no place is shown for: {m}")) };
    let (o, n) = (l.offset, l.len);
    // at text that begins no token our tokens end
    if v.bad.is_some() && o + n >= v.toks.last().map_or(0, |t| t.end) {
        return Ok(());
    }
    let label = l.text.clone().unwrap_or_default();
    let all = format!("{m}\n{label}\n{}", d.help.clone().unwrap_or_default());
    let cover = v.cover(o, n);
    let at = v.toks.iter().position(|t| t.start == o);
    let want = |ok: bool, what: &str| {
        if ok { Ok(()) } else { fail(format!("{what}: {all}")) }
    };
    let mut claim = |s: &'static str| {
        ctx.nontrivial = true;
        ctx.label(format!("claim:{s}"));
    };
    if m.contains("union must contain at least one") {
        claim("empty-union");
        let ok = cover.is_some_and(|(a, b)| v.kinds(a, b) == ["union", "{", "}"]);
        want(ok, "the region shown is no empty union")?;
    }
    if let Some(k) = quoted(&m, "`", "` type requires a type parameter") {
        claim("empty-parameter");
        let ok = cover.is_some_and(|(a, b)| v.kinds(a, b) == [k, "<", ">"]);
        want(ok, "the region shown is no container type without parameter")?;
    }
    if m.contains("fixed type requires an integer size") {
        claim("fixed-size");
        let open = v.toks.iter().position(|t| t.end == o);
        let close = v.toks.iter().position(|t| t.start == o + n);
        let ok = matches!((open, close), (Some(a), Some(b)) if a >= 2 && a < b && v.k(a) == "(" && v.k(b) == ")"
            && v.k(a - 2) == "fixed" && v.name(a - 1) && v.kinds(a + 1, b) != ["INT"] && !v.kinds(a + 1, b).contains(&")")
            && m.contains(&format!("`fixed {}(<integer>)`", v.text(a - 1))));
        let empty = n == 1 && open.is_some_and(|a| a >= 2 && v.k(a) == "(" && v.k(a + 1) == ")" && v.k(a - 2) == "fixed");
        want(ok || empty, "no fixed type with such a size stands there")?;
    }
    if let Some(k) = quoted(&m, "expected name after `", "`, found `{`") {
        claim("missing-name");
        let ok = cover.is_some_and(|(a, b)| b == a + 1 && a >= 1 && v.k(a) == "{" && v.k(a - 1) == k);
        want(ok, "no such keyword without a name stands there")?;
    }
    if m.contains("trailing comma is not allowed in enum") {
        claim("trailing-comma");
        let ok = cover.is_some_and(|(a, b)| {
            b == a + 1 && v.k(a) == "," && v.k(b) == "}" && v.open(a).last().is_some_and(|x| v.construct(*x) == "enum")
        });
        want(ok, "no comma before the end of an enum stands there")?;
        if let Some(x) = d.help.as_deref().and_then(|h| quoted(h, "the comma after `", "")?.strip_suffix('`')) {
            let ok = cover.is_some_and(|(a, _)| a >= 1 && v.text(a - 1).ends_with(x) || v.text(a - 1).trim_matches('`') == x);
            want(ok, "another symbol precedes the comma")?;
        }
    }
    if m.contains("missing closing `}`") && label.contains("never closed") {
        claim("never-closed");
        let upto = if m.contains("end of file") { v.toks.len() } else { v.dead };
        let Some((a, b)) = cover else { return fail(format!("no token stands there: {all}")) };
        want(b == a + 1 && v.k(a) == "{", "no brace stands there")?;
        want(v.open(upto).contains(&a), "that brace is closed")?;
        if let Some(c) = quoted(&m, "missing closing `}` for ", "") {
            // (stray tokens may stand between the keyword and the brace)
            let keyword = (a.saturating_sub(5)..a).any(|i| v.k(i) == c.trim_end_matches(" record"));
            want(v.construct(a) == c || v.construct(a).is_empty() && keyword, "that brace is of something else")?;
        }
    } else if m.contains("missing closing `}`") {
        claim("missing-brace");
        want(!v.open(v.toks.len()).is_empty(), "every brace is closed")?;
    }
    if m.contains("unterminated string") {
        claim("unterminated");
        want(false, "every string is ended")?;
    }
    if m.contains("missing kind specifier") {
        claim("import-kind");
        let ok = at.is_some_and(|i| (i >= 1 && v.k(i - 1) == "import" && v.k(i) == "STR") || (i >= 2 && v.k(i - 1) == "STR" && v.k(i - 2) == "import"));
        want(ok, "no import without kind stands there")?;
    }
    if m.contains("is missing its value") || m.contains("annotations require") || m.contains("unexpected `@` before") {
        claim("annotation-value");
        // an annotation's name (maybe only its beginning) precedes, or stands there
        let here = at.or((o >= v.toks.last().map_or(0, |t| t.end)).then_some(v.toks.len()));
        let ok = here.is_some_and(|i| {
            let mut j = i + 1;
            loop {
                if j == 0 {
                    return false;
                }
                j -= 1;
                if v.k(j) == "@" {
                    return true;
                }
                if !(v.name(j) || [".", "-", "INT", "FLOAT"].contains(&v.k(j)) || j == i) {
                    return false;
                }
            }
        });
        want(ok, "no annotation without value stands there")?;
        if let Some(a) = quoted(&m, "annotation `@", "`") {
            let some = (0..v.toks.len()).filter(|i| v.k(*i) == "@").any(|i| {
                let mut j = i + 1;
                let mut s = String::new();
                // (`NaN` and `-1` are numbers)
                while v.name(j) || [".", "-"].contains(&v.k(j)) || ["INT", "FLOAT"].contains(&v.k(j)) && (j == i + 1 || v.text(j).starts_with('.') || v.toks[j - 1].end == v.toks[j].start) {
                    s.push_str(v.text(j));
                    j += 1;
                    if s == a && (v.k(j) != "(" || !v.name(j - 1)) {
                        return true;
                    }
                }
                false
            });
            want(some, "no such annotation lacks a value")?;
        }
    }
    for how in ["unrecognized token `", "unexpected token `", "unrecognized `"] {
        if let Some(x) = quoted(&m, how, "`") {
            claim("token");
            let ok = cover.is_some_and(|(a, b)| b == a + 1 && (v.text(a) == x || v.text(a).trim_matches('`') == x));
            // (the text reported may itself hold a backquote)
            let ok = ok || at.is_some_and(|i| v.text(i).contains('`') || v.text(i).contains('\''));
            want(ok, "the region shown is another token")?;
        }
    }
    if m.contains("unexpected end of file") && !label.contains("never closed") {
        claim("end-of-file");
        want(o >= v.toks.last().map_or(0, |t| t.end), "this is not the end")?;
    }
    if let Some(x) = quoted(&m, "did you mean `\"", "\"`") {
        claim("quote-it");
        want(at.is_some_and(|i| v.text(i) == x && v.name(i)), "no such name stands there")?;
    }
    Ok(())
}

/// What a mistake planted alone must be called, and where (region, by token offsets from its first).
struct Plant {
    what: &'static str,
    toks: Vec<String>,
    says: Vec<&'static str>,
    region: Option<(usize, usize)>,
}

fn plant(t: &mut Tape, r: &Slot) -> Option<Plant> {
    let s = |x: &str| x.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>();
    let p = |what, x: &str, says: &[&'static str], region| Some(Plant { what, toks: s(x), says: says.to_vec(), region });
    let w = *t.pick(&["map", "array"]);
    let n = *t.pick(&["ZqName", "Zq_9", "z", "enumZ", "RecordZ"]);
    let d = *t.pick(&["record", "enum", "error"]);
    match r.kind {
        SlotKind::Field => match t.below(7) {
            0 => p("empty-union", "union { } zq ;", &["union must contain at least one type"], Some((0, 3))),
            1 => p("empty-parameter", &format!("{w} < > zq ;"), &["requires a type parameter"], Some((0, 3))),
            2 => p("empty-union", &format!("{w} < union {{ }} > zq ;"), &["union must contain at least one type"], Some((2, 5))),
            3 => p("empty-parameter", &format!("array < {w} < > > zq ;"), &["requires a type parameter"], Some((2, 5))),
            4 => {
                let (a, ty) = (*t.pick(&["foo", "zq", "java", "recordType", "errorCode"]), *t.pick(&["string", "int", "Zq", "array < int >", "union { int }"]));
                p("annotation", &format!("@ {a} {ty} zq ;"), &["annotation"], None)
            }
            5 => {
                let x = *t.pick(&["RED", "zq", "Yellow", "A_B"]);
                p("bare-default", &format!("{} zq = {x} ;", *t.pick(&["Zq", "string", "int"])), &["did you mean `\"", "\"`?"], Some((3, 4)))
            }
            _ => {
                let mut x = p("unended-string", "string zq = \"abc ;", &["unterminated string"], Some((3, 3)))?;
                x.toks.push("\n".into());
                Some(x)
            }
        },
        SlotKind::Decl => match t.below(9) {
            0 => {
                let bad = *t.pick(&["abc", "Zq", "int"]);
                p("fixed-size", &format!("fixed {n} ( {bad} ) ;"), &["fixed type requires an integer size"], None)
            }
            1 => p("missing-name", &format!("{d} {{ {} }}", if d == "enum" { "A , B" } else { "int zq ;" }), &["expected name after `"], Some((1, 2))),
            2 => p("trailing-comma", &format!("enum {n} {{ A , B , }}"), &["trailing comma is not allowed in enum"], Some((6, 7))),
            3 => p("trailing-comma", &format!("enum {n} {{ A , }}"), &["trailing comma is not allowed in enum"], Some((4, 5))),
            4 => p("unclosed", &format!("record {n} {{ int zq ; record Zq2 {{ int zq ; }}"), &["missing closing `}`"], Some((2, 3))),
            5 => p("import-kind", "import \"x.avdl\" ;", &["idl", "protocol", "schema"], Some((1, 2))),
            6 => {
                let k = *t.pick(&["recrod", "recor", "reccord", "enumm", "eror", "errror"]);
                p("keyword", &format!("{k} {n} {{ int zq ; }}"), &["did you mean `"], Some((0, 1)))
            }
            7 => {
                // a `)` too many: nothing is wrong with the size before it, nor with what a string says
                let x = match t.below(5) {
                    0 => format!("fixed {n} ( 16 ) ; ) record Zq2 {{ }}"),
                    1 => format!("fixed {n} ( 16 ) ; record Zq2 {{ int zq = 1 , ) ; }}"),
                    2 => format!("fixed {n} ( 16 ) ; record Zq2 {{ union {{ int , ) zq ; }}"),
                    3 => "record Zq2 { @ foo ( [ \"fixed~Zq(\" , ) ] ) int zq ; }".to_string(),
                    _ => "record Zq2 { string zs = \"fixed~Zq(\" ; union { int , ) zq ; }".to_string(),
                };
                let mut x = p("stray-parenthesis", &x, &[], None)?;
                for y in &mut x.toks {
                    *y = y.replace('~', " ");
                }
                Some(x)
            }
            _ => p("annotation", &format!("@ foo {d} {n} {{ }}"), &["annotation"], None),
        },
        _ => None,
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let style = if t.coin() { Style::Spelled } else { Style::Wild };
    let how = t.weighted(&[45, 20, 25, 10]);
    let m = model(t, &Opts { max_types: 3, ..Opts::default() });
    let mut r = Rend::new(t, style);
    r.file(&m, &[]);
    let mut toks = std::mem::take(&mut r.toks);
    let slots = std::mem::take(&mut r.slots);
    drop(r);
    let mut planted: Option<(Plant, usize)> = None;
    if how <= 1 {
        let ok: Vec<&Slot> = slots.iter().filter(|s| matches!(s.kind, SlotKind::Field | SlotKind::Decl)).collect();
        if !ok.is_empty() {
            let s = (*t.pick(&ok)).clone();
            if let Some(p) = plant(t, &s) {
                ctx.label(format!("plant:{}", p.what));
                let new: Vec<Tok> = p
                    .toks
                    .iter()
                    .enumerate()
                    .map(|(i, x)| Tok { mark: Some(format!("plant{i}")), ..Tok::new(x.clone()) })
                    .collect();
                toks.splice(s.at..s.at, new);
                planted = Some((p, s.at));
            }
        }
    }
    if how == 1 || how == 2 {
        let n = t.weighted(&[0, 60, 25, 15]);
        mutate::tokens(t, &mut toks, n);
    }
    let (mut src, marks) = layout(t, &toks, style);
    if how == 3 {
        let n = 1 + t.usize(3);
        mutate::text(t, &mut src, n);
    }
    ctx.show(&src);
    let l = syntax::lex(&src);
    let text = src.split('\u{1a}').next().unwrap();
    let dead = syntax::check(&l.toks, text.len()).map_or(l.toks.len(), |x| x.0);
    let got = convert(&src);
    let ended = |x: &str| x.lines().next().unwrap_or("").matches('"').count() > 1;
    if planted.as_ref().is_some_and(|p| p.0.what == "unended-string") && marks.get("plant3").is_some_and(|m| ended(&src[m.0..])) {
        return Ok(()); // a comment ended it
    }
    let Err(d) = &got.res else {
        return if planted.is_some() && how == 0 { fail("a malformed program was accepted") } else { Ok(()) };
    };
    let v = View { src: text, toks: l.toks, bad: l.bad, dead };
    let mut reports = vec![d];
    reports.extend(&d.related);
    for r in &reports {
        judge(&v, r, ctx)?;
    }
    if let (Some((p, _)), 0) = (&planted, how) {
        // only white space inside the mistake
        let at = |i: usize| marks[&format!("plant{i}")];
        let (a, b) = (at(0).0, at(p.toks.len() - 1).0);
        if text[a..b].contains("/*") || text[a..b].contains("//") {
            return Ok(());
        }
        ctx.label("named");
        let all = d.all_text();
        for s in &p.says {
            if !all.contains(s) {
                return fail(format!("the {} is not named (`{s}`): {all}", p.what));
            }
        }
        if let Some((x, y)) = p.region {
            let want = if x == y { (at(x).0, None) } else { (at(x).0, Some(at(y - 1).0 + at(y - 1).1 - at(x).0)) };
            let hit = reports.iter().any(|r| r.labels.first().is_some_and(|l| l.offset == want.0 && want.1.is_none_or(|n| n == l.len)));
            if !hit {
                return fail(format!("the {} at {want:?} is not shown: {:?}", p.what, d.labels));
            }
        }
    }
    Ok(())
}
