//! Damage to token sequences and texts.

use crate::render::{Lex, Tok};
use crate::tape::Tape;

pub const POOL: &[&str] = &[
    "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", "=", "@", "?", ":", ".", "-", "protocol", "namespace", "import",
    "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union", "boolean", "int", "long", "float",
    "double", "string", "bytes", "null", "true", "false", "decimal", "date", "time_ms", "timestamp_ms",
    "local_timestamp_ms", "uuid", "void", "oneway", "throws", "A", "B", "C", "a", "b", "org.a.A", "`A`", "x-y", "x.y",
    "a.b-c", "0", "1", "-1", "2147483648", "99999999999999999999", "0x10", "017", "1.5", "NaN", "\"s\"", "\"A\"",
    "\"int\"", "\"\"", "[]", "{}", "@namespace(\"q.r\")", "@namespace(\"\")", "@aliases([\"Q\"])", "@aliases([\"a-b\"])",
    "@order(\"ignore\")", "@order(\"x\")", "@logicalType(\"date\")", "@logicalType(\"decimal\")", "@precision(3)",
    "@name(\"Z\")", "@type(\"int\")", "@default(1)", "array<int>", "map<A>", "union{null,int}", "union{int,int}",
    "union{null,union{int}}", "int?", "A?", "null?", "decimal(2,3)", "decimal(0)", "decimal(99999999999)",
    "record A {}", "enum B {X, X}", "enum B {X} = Y;", "fixed C(-1);", "fixed C(0);", "error E {}", "void m();",
    "int m2() oneway;", "void m3() throws A;", "namespace q.r;", "schema int;", "/** doc */", "/* c */", "// c\n",
    "import idl \"none.avdl\";", "é", "名", "\u{1a}", "#", "$", "\u{0}", "record int {}", "record date {}",
];

/// Applies `n` random edits.
pub fn tokens(t: &mut Tape, toks: &mut Vec<Tok>, n: usize) {
    for _ in 0..n {
        if toks.is_empty() {
            return;
        }
        let i = t.usize(toks.len());
        let tok = |s: &str| Tok { text: s.to_string(), mark: None, doc: false, glue: false, lex: Lex::Plain };
        match t.weighted(&[18, 14, 10, 18, 16, 10, 8, 6]) {
            0 => {
                toks.remove(i);
            }
            1 => {
                let x = tok(&toks[i].text.clone());
                toks.insert(i, x);
            }
            2 => {
                let j = t.usize(toks.len());
                let (a, b) = (toks[i].text.clone(), toks[j].text.clone());
                toks[i].text = b;
                toks[j].text = a;
            }
            3 => toks[i].text = (*t.pick(POOL)).to_string(),
            4 => {
                let x = tok(*t.pick(POOL));
                toks.insert(i, x);
            }
            5 => {
                // copy a range somewhere
                let len = 1 + t.usize(12).min(toks.len() - i - 1);
                let part: Vec<Tok> = toks[i..i + len].iter().map(|k| tok(&k.text)).collect();
                let at = t.usize(toks.len() + 1);
                toks.splice(at..at, part);
            }
            6 => {
                let j = t.usize(toks.len());
                toks[i].text = toks[j].text.clone();
            }
            _ => {
                let s = *t.pick(&["-x", ".y", "2", "`", "_", "é", "-", "L", "x"]);
                toks[i].text.push_str(s);
            }
        }
    }
}

/// Applies `n` random edits to text.
pub fn text(t: &mut Tape, s: &mut String, n: usize) {
    const BITS: &[&str] = &[
        "\"", "'", "/*", "*/", "/**", "//", "\n", "\r", "\\", "{", "}", "(", ")", "<", ">", "[", "]", "@", "`", "?", ";",
        ",", "=", ".", "-", "0", "0x", "e", "\\u", "\\ud800", "\u{1a}", "\u{0}", "\u{feff}", "\u{2028}", "é", "日", "😀",
        "\u{301}", "\u{200d}", " ", "\t", "union{", "array<", "@a(", "1e999", "\\400", "\\8", "\u{85}", "ﬁ", "İ",
    ];
    for _ in 0..n {
        let cs: Vec<usize> = s.char_indices().map(|c| c.0).chain([s.len()]).collect();
        let i = t.usize(cs.len());
        match t.weighted(&[30, 25, 20, 15, 10]) {
            0 => s.insert_str(cs[i], *t.pick(BITS)),
            1 => {
                let j = (i + 1 + t.usize(4)).min(cs.len() - 1);
                if cs[i] < cs[j] {
                    s.replace_range(cs[i]..cs[j], "");
                }
            }
            2 => {
                let j = (i + 1).min(cs.len() - 1);
                let b = *t.pick(BITS);
                if cs[i] < cs[j] {
                    s.replace_range(cs[i]..cs[j], b);
                }
            }
            3 => {
                let j = (i + 1 + t.usize(40)).min(cs.len() - 1);
                let part = s[cs[i]..cs[j]].to_string();
                let at = cs[t.usize(cs.len())];
                s.insert_str(at, &part);
            }
            _ => s.truncate(cs[i]),
        }
    }
}
