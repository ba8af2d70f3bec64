//! The Avro IDL grammar: a lexer and an Earley recogniser of our own.

use crate::tape::Tape;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Token {
    pub kind: u8,
    pub start: usize,
    pub end: usize,
}

#[derive(Debug, Default)]
pub struct Lexed {
    pub toks: Vec<Token>,
    /// Text that begins no token (the lexing of what follows is not modelled).
    pub bad: Option<usize>,
    pub docs: usize,
}

pub const KEYWORDS: &[&str] = &[
    "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union", "boolean", "int",
    "long", "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date", "time_ms", "timestamp_ms",
    "local_timestamp_ms", "uuid", "void", "oneway", "throws",
];
const PUNCT: &[&str] = &["(", ")", "{", "}", "[", "]", ":", ";", ",", "@", "=", ".", "-", "?", "<", ">"];
const CLASSES: &[&str] = &["STR", "INT", "FLOAT", "ID", "EOF"];

pub fn kind(s: &str) -> u8 {
    let all = KEYWORDS.iter().chain(PUNCT).chain(CLASSES);
    all.clone().position(|k| *k == s).unwrap_or_else(|| panic!("no token {s}")) as u8
}
pub fn kind_name(k: u8) -> &'static str {
    KEYWORDS.iter().chain(PUNCT).chain(CLASSES).nth(k as usize).unwrap()
}

fn start_char(c: char) -> bool {
    c == '_' || c.is_alphabetic()
}
fn part_char(c: char) -> bool {
    c == '_' || c.is_alphanumeric()
}

struct Cur<'a>(&'a [char], usize);
impl Cur<'_> {
    fn at(&self) -> char {
        *self.0.get(self.1).unwrap_or(&'\0')
    }
    fn one(&mut self, f: impl Fn(char) -> bool) -> bool {
        let ok = self.1 < self.0.len() && f(self.0[self.1]);
        self.1 += ok as usize;
        ok
    }
    fn many(&mut self, f: impl Fn(char) -> bool) -> usize {
        let a = self.1;
        while self.1 < self.0.len() && f(self.0[self.1]) {
            self.1 += 1;
        }
        self.1 - a
    }
    fn word(&mut self, w: &str) -> bool {
        let w: Vec<char> = w.chars().collect();
        let ok = self.0[self.1..].starts_with(&w);
        self.1 += if ok { w.len() } else { 0 };
        ok
    }
}

fn ident(c: &[char], i: usize) -> Option<usize> {
    let part = |i: usize| -> Option<usize> {
        let mut k = Cur(c, i);
        let tick = k.one(|x| x == '`');
        if !k.one(start_char) {
            return None;
        }
        k.many(part_char);
        if tick && !k.one(|x| x == '`') {
            return None;
        }
        Some(k.1)
    };
    let mut end = part(i)?;
    while let Some('.' | '-') = c.get(end) {
        match part(end + 1) {
            Some(e) => end = e,
            None => break,
        }
    }
    Some(end)
}

fn integer(c: &[char], i: usize) -> Option<usize> {
    let mut k = Cur(c, i);
    k.one(|x| x == '-');
    if k.one(|x| ('1'..='9').contains(&x)) {
        k.many(|x| x.is_ascii_digit());
    } else if k.one(|x| x == '0') {
        let mut h = Cur(c, k.1);
        if h.one(|x| x == 'x' || x == 'X') && h.many(|x| x.is_ascii_hexdigit()) > 0 {
            k.1 = h.1;
        } else {
            k.many(|x| ('0'..='7').contains(&x));
        }
    } else {
        return None;
    }
    k.one(|x| x == 'l' || x == 'L');
    Some(k.1)
}

fn float(c: &[char], i: usize) -> Option<usize> {
    let mut k = Cur(c, i);
    k.one(|x| x == '+' || x == '-');
    if k.word("NaN") || k.word("Infinity") {
        return Some(k.1);
    }
    let suffix = |k: &mut Cur| k.one(|x| "fFdD".contains(x));
    let exp = |k: &mut Cur, l: &str| -> bool {
        let mut e = Cur(k.0, k.1);
        if !e.one(|x| l.contains(x)) {
            return false;
        }
        e.one(|x| x == '+' || x == '-');
        let ok = e.many(|x| x.is_ascii_digit()) > 0;
        if ok {
            k.1 = e.1;
        }
        ok
    };
    let mut best = None;
    // hexadecimal
    let mut h = Cur(c, k.1);
    if h.one(|x| x == '0') && h.one(|x| x == 'x' || x == 'X') {
        let a = h.many(|x| x.is_ascii_hexdigit());
        let b = if h.one(|x| x == '.') { h.many(|x| x.is_ascii_hexdigit()) } else { 0 };
        if a + b > 0 && exp(&mut h, "pP") {
            suffix(&mut h);
            best = Some(h.1);
        }
    }
    // decimal
    let mut d = Cur(c, k.1);
    let a = d.many(|x| x.is_ascii_digit());
    let dot = Cur(c, d.1).at() == '.';
    if dot {
        let mut f = Cur(c, d.1 + 1);
        let b = f.many(|x| x.is_ascii_digit());
        if a + b > 0 {
            exp(&mut f, "eE");
            suffix(&mut f);
            best = best.max(Some(f.1));
        }
    } else if a > 0 {
        let e = exp(&mut d, "eE");
        if suffix(&mut d) || e {
            best = best.max(Some(d.1));
        }
    }
    best
}

fn string(c: &[char], i: usize) -> Option<usize> {
    let mut k = Cur(c, i + 1);
    loop {
        match k.0.get(k.1)? {
            '"' => return Some(k.1 + 1),
            '\\' => {
                k.1 += 1;
                let x = *k.0.get(k.1)?;
                k.1 += 1;
                match x {
                    '"' | '\'' | '\\' | 'b' | 'f' | 'n' | 'r' | 't' => {}
                    // further digits are ordinary characters
                    '0'..='7' => {}
                    'u' => {
                        for _ in 0..4 {
                            if !k.one(|x| x.is_ascii_hexdigit()) {
                                return None;
                            }
                        }
                    }
                    _ => return None,
                }
            }
            '\u{8}' | '\t' | '\n' | '\u{c}' | '\r' => return None,
            _ => k.1 += 1,
        }
    }
}

/// The tokens of a text. Everything from U+001A on is ignored.
pub fn lex(src: &str) -> Lexed {
    let src = src.split('\u{1a}').next().unwrap();
    let c: Vec<char> = src.chars().collect();
    let mut off: Vec<usize> = src.char_indices().map(|(i, _)| i).collect();
    off.push(src.len());
    let mut out = Lexed::default();
    let mut i = 0;
    while i < c.len() {
        if " \t\n\r\u{c}".contains(c[i]) {
            i += 1;
            continue;
        }
        if c[i] == '/' {
            match c.get(i + 1) {
                Some('/') => {
                    while i < c.len() && c[i] != '\n' && c[i] != '\r' {
                        i += 1;
                    }
                    continue;
                }
                Some('*') => {
                    let mut j = i + 2;
                    while j + 1 < c.len() && !(c[j] == '*' && c[j + 1] == '/') {
                        j += 1;
                    }
                    if j + 1 < c.len() {
                        out.docs += (c[i + 2] == '*' && j > i + 2) as usize;
                        i = j + 2;
                        continue;
                    }
                }
                _ => {}
            }
            out.bad = Some(off[i]);
            return out;
        }
        let mut best: Option<(usize, u8)> = None;
        let mut take = |e: Option<usize>, k: u8| {
            if let Some(e) = e
                && best.is_none_or(|(b, _)| e > b)
            {
                best = Some((e, k));
            }
        };
        if let Some(p) = PUNCT.iter().find(|p| p.starts_with(c[i])) {
            take(Some(i + 1), kind(p));
        }
        if c[i] == '"' {
            take(string(&c, i), kind("STR"));
        }
        take(integer(&c, i), kind("INT"));
        take(float(&c, i), kind("FLOAT"));
        let id = ident(&c, i);
        if let Some(e) = id {
            let w: String = c[i..e].iter().collect();
            let k = if KEYWORDS.contains(&w.as_str()) { kind(&w) } else { kind("ID") };
            take(id, k);
        }
        match best {
            Some((e, k)) => {
                out.toks.push(Token { kind: k, start: off[i], end: off[e] });
                i = e;
            }
            None => {
                out.bad = Some(off[i]);
                return out;
            }
        }
    }
    out
}

// --- grammar ---------------------------------------------------------------

/// Written as `name = alternative | alternative`; lower case is a rule, quoted
/// or upper case a token; `x*`, `x?` and `x,` (one or more, with commas) work on
/// one symbol.
const GRAMMAR: &str = "
file = protocol EOF
file = namespace? mainschema? item* EOF
item = import | named
protocol = prop* 'protocol' ident '{' member* '}'
member = import | named | message
namespace = 'namespace' ident ';'
mainschema = 'schema' fulltype ';'
import = 'import' importkind STR ';'
importkind = 'schema' | 'protocol' | 'idl'
named = prop* 'fixed' ident '(' INT ')' ';'
named = prop* 'enum' ident '{' symbols? '}' enumdefault?
named = prop* recordword ident '{' field* '}'
recordword = 'record' | 'error'
symbols = symbol,
symbol = prop* ident
enumdefault = '=' ident ';'
field = fulltype variable, ';'
variable = prop* ident initial?
initial = '=' json
message = prop* result ident '(' params? ')' tail? ';'
params = param,
param = fulltype variable
tail = 'oneway' | throws
throws = 'throws' ident,
result = 'void' | plaintype
fulltype = prop* plaintype
plaintype = array | map | union | nullable
array = 'array' '<' fulltype '>'
map = 'map' '<' fulltype '>'
union = 'union' '{' fulltype, '}'
nullable = base '?'?
base = primitive | ident
primitive = 'boolean' | 'int' | 'long' | 'float' | 'double' | 'string' | 'bytes' | 'null'
primitive = 'date' | 'time_ms' | 'timestamp_ms' | 'local_timestamp_ms' | 'uuid'
primitive = 'decimal' '(' INT scale? ')'
scale = ',' INT
prop = '@' ident '(' json ')'
json = object | list | literal
literal = STR | INT | FLOAT | 'true' | 'false' | 'null'
object = '{' pairs? '}'
pairs = pair,
pair = STR ':' json
list = '[' values? ']'
values = json,
ident = ID | KEYWORD
";

#[derive(Clone, Copy, Debug, PartialEq)]
enum Sym {
    T(u8),
    /// Any keyword.
    K,
    N(u16),
}
struct Gram {
    /// By rule: its alternatives.
    rules: Vec<Vec<Vec<Sym>>>,
    nullable: Vec<bool>,
    /// Height of the smallest tree of each alternative.
    height: Vec<Vec<u32>>,
    start: u16,
}

fn gram() -> &'static Gram {
    static G: OnceLock<Gram> = OnceLock::new();
    G.get_or_init(|| {
        let mut ids: HashMap<String, u16> = HashMap::new();
        let mut rules: Vec<Vec<Vec<Sym>>> = vec![];
        fn id(ids: &mut HashMap<String, u16>, rules: &mut Vec<Vec<Vec<Sym>>>, n: &str) -> u16 {
            *ids.entry(n.to_string()).or_insert_with(|| {
                rules.push(vec![]);
                rules.len() as u16 - 1
            })
        }
        for line in GRAMMAR.lines().filter(|l| !l.trim().is_empty()) {
            let (lhs, rhs) = line.split_once(" = ").unwrap();
            let l = id(&mut ids, &mut rules, lhs);
            for alt in rhs.split(" | ") {
                let mut seq = vec![];
                for w in alt.split_whitespace() {
                    let (base, op) = match w.chars().last().unwrap() {
                        op @ ('*' | '?' | ',') if w.len() > 1 => (&w[..w.len() - 1], op),
                        _ => (w, ' '),
                    };
                    let s = if let Some(q) = base.strip_prefix('\'') {
                        Sym::T(kind(q.trim_end_matches('\'')))
                    } else if base == "KEYWORD" {
                        Sym::K
                    } else if base.starts_with(char::is_uppercase) {
                        Sym::T(kind(base))
                    } else {
                        Sym::N(id(&mut ids, &mut rules, base))
                    };
                    if op == ' ' {
                        seq.push(s);
                        continue;
                    }
                    let n = id(&mut ids, &mut rules, w);
                    if rules[n as usize].is_empty() {
                        rules[n as usize] = match op {
                            '*' => vec![vec![], vec![Sym::N(n), s]],
                            '?' => vec![vec![], vec![s]],
                            _ => vec![vec![s], vec![Sym::N(n), Sym::T(kind(",")), s]],
                        };
                    }
                    seq.push(Sym::N(n));
                }
                rules[l as usize].push(seq);
            }
        }
        let mut nullable = vec![false; rules.len()];
        loop {
            let mut more = false;
            for r in 0..rules.len() {
                let n = rules[r].iter().any(|a| a.iter().all(|s| matches!(s, Sym::N(x) if nullable[*x as usize])));
                if n && !nullable[r] {
                    nullable[r] = true;
                    more = true;
                }
            }
            if !more {
                break;
            }
        }
        for (n, i) in &ids {
            assert!(!rules[*i as usize].is_empty(), "rule {n} is not defined");
        }
        let mut height: Vec<Vec<u32>> = rules.iter().map(|r| vec![1000; r.len()]).collect();
        for _ in 0..rules.len() {
            for r in 0..rules.len() {
                for a in 0..rules[r].len() {
                    let h = rules[r][a].iter().map(|s| match s {
                        Sym::N(x) => *height[*x as usize].iter().min().unwrap(),
                        _ => 0,
                    });
                    height[r][a] = 1 + h.max().unwrap_or(0);
                }
            }
        }
        Gram { start: ids["file"], rules, nullable, height }
    })
}

/// The first token which continues no valid text (the end counts as one), with
/// the kinds that would have; none if the text conforms.
pub fn check(toks: &[Token], len: usize) -> Option<(usize, Vec<u8>)> {
    let g = gram();
    type Item = (u16, u8, u8, u32); // rule, alternative, dot, origin
    let kw = KEYWORDS.len() as u8;
    let eof = Token { kind: kind("EOF"), start: len, end: len };
    let mut sets: Vec<Vec<Item>> = vec![];
    // by set: items waiting for a rule
    let mut waiting: Vec<HashMap<u16, Vec<Item>>> = vec![];
    let mut cur: Vec<Item> = (0..g.rules[g.start as usize].len()).map(|a| (g.start, a as u8, 0, 0)).collect();
    for n in 0..=toks.len() {
        let mut seen: std::collections::HashSet<Item> = cur.iter().copied().collect();
        let mut wait: HashMap<u16, Vec<Item>> = HashMap::new();
        let mut i = 0;
        while i < cur.len() {
            let (r, a, d, o) = cur[i];
            i += 1;
            let alt = &g.rules[r as usize][a as usize];
            let mut add: Vec<Item> = vec![];
            match alt.get(d as usize) {
                Some(Sym::N(x)) => {
                    let w = wait.entry(*x).or_default();
                    if w.is_empty() {
                        for b in 0..g.rules[*x as usize].len() {
                            add.push((*x, b as u8, 0, n as u32));
                        }
                    }
                    w.push((r, a, d, o));
                    if g.nullable[*x as usize] {
                        add.push((r, a, d + 1, o));
                    }
                }
                Some(_) => {}
                None if o as usize == n => {
                    // empty: taken care of when predicted
                }
                None => {
                    for (r, a, d, o) in waiting[o as usize].get(&r).into_iter().flatten() {
                        add.push((*r, *a, d + 1, *o));
                    }
                }
            }
            for x in add {
                if seen.insert(x) {
                    cur.push(x);
                }
            }
        }
        let tok = toks.get(n).copied().unwrap_or(eof);
        let mut next = vec![];
        for (r, a, d, o) in &cur {
            let hit = match g.rules[*r as usize][*a as usize].get(*d as usize) {
                Some(Sym::T(k)) => *k == tok.kind,
                Some(Sym::K) => tok.kind < kw,
                _ => false,
            };
            if hit {
                next.push((*r, *a, *d + 1, *o));
            }
        }
        if next.is_empty() {
            let mut want: Vec<u8> = vec![];
            for (r, a, d, _) in &cur {
                match g.rules[*r as usize][*a as usize].get(*d as usize) {
                    Some(Sym::T(k)) => want.push(*k),
                    Some(Sym::K) => want.extend(0..kw),
                    _ => {}
                }
            }
            want.sort();
            want.dedup();
            return Some((n, want));
        }
        sets.push(std::mem::replace(&mut cur, next));
        waiting.push(wait);
    }
    None
}

/// A random text of the grammar, as tokens.
pub fn sample(t: &mut Tape) -> Vec<String> {
    let mut out = vec![];
    let g = gram();
    let size = *t.pick(&[10usize, 30, 80, 200]);
    grow(t, Sym::N(g.start), 0, size, &mut out);
    out
}
fn grow(t: &mut Tape, s: Sym, depth: u32, size: usize, out: &mut Vec<String>) {
    let g = gram();
    match s {
        Sym::K => out.push((*t.pick(KEYWORDS)).to_string()),
        Sym::T(k) => {
            let name = kind_name(k);
            let text: &str = match name {
                "STR" => t.pick(&["\"\"", "\"s\"", "\"a.b\"", "\"{\"", "\"\\\"\"", "\"// x\"", "\"/*\"", "\"A\"", "\"é }\""]),
                "INT" => t.pick(&["0", "1", "-7", "0x1F", "017", "12L", "99999999999"]),
                "FLOAT" => t.pick(&["1.5", "-.5", "1.", "2e10", "NaN", "-Infinity", "0x1p3", "1f", "+3.0"]),
                "ID" => t.pick(&["A", "b", "Foo", "é", "_x1", "a.b", "x-y.z", "`int`", "a.`record`", "Record", "protocols", "名"]),
                "EOF" => return,
                x => x,
            };
            out.push(text.to_string());
        }
        Sym::N(r) => {
            let alts = &g.rules[r as usize];
            let heights = &g.height[r as usize];
            let least = *heights.iter().min().unwrap();
            let tight = depth > 24 || out.len() > size;
            let ok: Vec<usize> = (0..alts.len()).filter(|a| !tight || heights[*a] == least).collect();
            // repetition: as likely as not once more
            let a = *t.pick(&ok);
            for x in &alts[a] {
                grow(t, *x, depth + 1, size, out);
            }
        }
    }
}
