use super::common::*;
use crate::api::*;
use crate::gen_::*;
use crate::mutate;
use crate::render::*;
use crate::runner::*;
use crate::syntax;
use crate::tape::Tape;

pub static C25: Check = Check {
    id: "C25",
    rule: "(a) a valid program with 1-3 token edits (removal, doubling, swap, replacement, insertion, copied ranges, from a pool of 120 \
           fragments), (b) a random text of the grammar, keywords as names included, (c) one with a token edit, (d) a valid program \
           with 1-3 character edits; every spelling and layout. Our lexer and Earley recogniser say whether the text conforms and \
           which token is the first that continues no valid text: conforming texts must not be reported as malformed, malformed ones \
           must be, at that token's line and column first (second after a brace never closed), and text that begins no token must \
           not pass without a warning. Non-trivial: conforming with 20 tokens or more, or malformed at the tenth token or later",
    quick: 250_000,
    thorough: 2_000_000,
    run,
    fixed: None,
    known: &[("oneway-throws-response", oneway_response)],
    budget: 10_000_000,
    assumptions: &[
        "our reading of the Avro 1.12 IDL grammar (syntax.rs)",
        "syntax errors are told apart from others by the `line N:M` at their head; texts with a character that begins no token are only checked for a report",
    ],
};

/// A message whose response is a type called `oneway` or `throws`, unquoted and
/// without annotation: the parser's runtime takes these two words for extraneous
/// there, though every other keyword works.
fn oneway_response(_: &mut Ctx) -> bool {
    convert_quick("protocol P { record oneway {} oneway a(); }").is_err()
}

/// Line (from 1) and column (from 0, in characters) of an offset.
fn position(src: &str, off: usize) -> (usize, usize) {
    let before = &src[..off];
    let line = before.matches('\n').count() + 1;
    (line, before.rsplit('\n').next().unwrap().chars().count())
}

fn positions(d: &Diag, out: &mut Vec<(usize, usize)>) {
    for m in std::iter::once(&d.message).chain(&d.chain) {
        if let Some(r) = m.strip_prefix("line ") {
            let p: String = r.chars().take_while(|c| c.is_ascii_digit() || *c == ':').collect();
            if let Some((a, b)) = p.split_once(':')
                && let (Ok(a), Ok(b)) = (a.parse(), b.parse())
            {
                out.push((a, b));
            }
        }
    }
    for r in &d.related {
        positions(r, out);
    }
}

fn edit_text(t: &mut Tape, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + t.weighted(&[60, 25, 15]) {
        let i = t.usize(c.len() + 1);
        let x = *t.pick(&['{', '}', '(', ')', '<', '>', ',', ';', '=', '@', '.', '-', '?', ':', '"', '\'', '`', '/', '*', '\\', ' ', '\n', '\r', '0', '1', 'e', 'x', 'A', 'é', '#', '[', ']', '+', '_']);
        match t.below(4) {
            0 if i < c.len() => drop(c.remove(i)),
            1 if i < c.len() => c[i] = x,
            2 if i + 1 < c.len() => c.swap(i, i + 1),
            _ => c.insert(i, x),
        }
    }
    c.into_iter().collect()
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    let style = if t.coin() { Style::Spelled } else { Style::Wild };
    let how = t.weighted(&[40, 25, 10, 25]);
    let mut toks: Vec<Tok>;
    if how == 1 || how == 2 {
        toks = syntax::sample(t).into_iter().map(Tok::new).collect();
        if how == 2 {
            mutate::tokens(t, &mut toks, 1);
        }
    } else {
        let m = model(t, &Opts { max_types: 3, ..Opts::default() });
        let mut r = Rend::new(t, style);
        r.file(&m, &[]);
        toks = std::mem::take(&mut r.toks);
        drop(r);
        if how == 0 {
            let n = t.weighted(&[0, 60, 25, 15]);
            mutate::tokens(t, &mut toks, n);
        }
    }
    let mut src = layout(t, &toks, style).0;
    if how == 3 {
        src = edit_text(t, &src);
    }
    ctx.label(["damaged-tokens", "sampled", "sampled-damaged", "damaged-text"][how]);
    ctx.show(&src);
    let l = syntax::lex(&src);
    let got = convert(&src);
    if let Some(b) = l.bad {
        ctx.label("unknown-character");
        let quiet = got.res.is_ok() && got.warnings.is_empty();
        if quiet {
            return fail(format!("text at byte {b} begins no token, and nothing is reported"));
        }
        return Ok(());
    }
    let text = src.split('\u{1a}').next().unwrap();
    let mut syn = vec![];
    if let Err(d) = &got.res {
        positions(d, &mut syn);
    }
    // a brace never closed is told first, at the end of the file
    let end = position(text, text.len());
    let first = if syn.len() > 1 && syn[0] == end { Some(syn[1]) } else { syn.first().copied() };
    // recorded: see `oneway_response`
    let known = l.toks.windows(2).any(|w| {
        [syntax::kind("oneway"), syntax::kind("throws")].contains(&w[1].kind)
            && ["{", "}", ";"].iter().any(|p| w[0].kind == syntax::kind(p))
            && first == Some(position(text, w[1].start))
    });
    if known {
        ctx.label("oneway-response");
        return Ok(());
    }
    match syntax::check(&l.toks, text.len()) {
        None => {
            ctx.label("conforms");
            ctx.nontrivial = l.toks.len() >= 20;
            if !syn.is_empty() {
                return fail(format!("the text conforms to the grammar, and is rejected: {}", got.res.unwrap_err().all_text()));
            }
        }
        Some((i, want)) => {
            ctx.label("malformed");
            ctx.nontrivial = i >= 10;
            let at = l.toks.get(i).map_or(text.len(), |k| k.start);
            let p = position(text, at);
            let what = l.toks.get(i).map_or("end of file", |k| &text[k.start..k.end]);
            let want: Vec<&str> = want.iter().map(|k| syntax::kind_name(*k)).collect();
            ctx.show(format!("--- line {}:{} `{what}`, expecting {want:?}", p.0, p.1));
            let Err(d) = &got.res else { return fail("malformed text is accepted") };
            if first != Some(p) {
                return fail(format!("first error is at {p:?}, reported at {syn:?}: {}", d.all_text()));
            }
        }
    }
    Ok(())
}
