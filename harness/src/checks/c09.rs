use super::common::*;
use crate::api;
use crate::render::trivia_comment;
use crate::runner::*;
use crate::tape::Tape;
use serde_json::{Map, Number, Value};

pub static C09: Check = Check {
    id: "C09",
    rule: "literal texts generated by the language's lexical grammar (integers in three radices up to and beyond 64 bits with \
           suffixes and leading zeros; decimal floats with up to 800 digits, halfway cases and extreme exponents; hexadecimal \
           floats; special values; strings of raw characters and all escapes incl. surrogate pairs and adjacent \
           octal digits; nested arrays and objects), each decoded by an independent decoder, are placed in annotations and \
           defaults of a program; the output must hold exactly the decoded values. In a fifth of the cases one integer is \
           outside the 64-bit range and the program must be rejected. Non-trivial: a literal that is not plain decimal digits or \
           plain ASCII text",
    quick: 360_000,
    thorough: 3_000_000,
    run,
    fixed: Some((FIXED.len() as u64, fixed)),
    known: &[],
    budget: 12_000_000,
    assumptions: &["Rust's f64 parser rounds decimal text correctly (hexadecimal floats are rounded by our own code)"],
};

/// Hand-picked literals with their values as JSON text.
const FIXED: &[(&str, &str)] = &[
    ("-0x8000000000000000", "-9223372036854775808"),
    ("-01000000000000000000000", "-9223372036854775808"),
    ("0x7fffffffffffffffL", "9223372036854775807"),
    ("-9223372036854775808", "-9223372036854775808"),
    ("9007199254740993", "9007199254740993"),
    ("0777", "511"),
    ("-0", "0"),
    ("00", "0"),
    ("-0.0", "-0.0"),
    ("1f", "1.0"),
    ("010d", "10.0"),
    ("0x1p-1074", "5e-324"),
    ("0x1.fffffffffffff8p1023", "\"Infinity\""),
    ("0x1.fffffffffffff7p1023", "1.7976931348623157e308"),
    ("-0x.8P1f", "-1.0"),
    ("1e400", "\"Infinity\""),
    ("-1e400", "\"-Infinity\""),
    ("-NaN", "\"NaN\""),
    ("+Infinity", "\"Infinity\""),
    ("2.4703282292062327208e-324", "0.0"),
    ("2.4703282292062327209e-324", "5e-324"),
    ("9007199254740993.0", "9007199254740992.0"),
    ("\"\\4008\"", "\" 08\""),
    ("\"\\u0041\\u0042\\\\u0043\"", "\"AB\\\\u0043\""),
    ("\"\\uD83D\\uDE00\"", "\"😀\""),
    ("\"\\377\\78\"", "\"ÿ\\u00078\""),
];
fn fixed(i: u64, ctx: &mut Ctx) -> Res {
    let (lit, want) = FIXED[i as usize];
    let want: Value = serde_json::from_str(want).unwrap();
    let src = format!("@x({lit}) protocol P {{ }}");
    ctx.show(&src);
    ctx.nontrivial = true;
    let out = api::convert_quick(&src).map_err(|e| format!("literal {lit} was rejected: {e}"))?;
    same(&want, &out["x"]).map_err(|e| format!("literal {lit}: {e}"))
}

/// Equality that tells 1 from 1.0 and 0.0 from -0.0.
pub fn same(a: &Value, b: &Value) -> Res {
    let bad = || Err(format!("denotes {a} but became {b}"));
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let ok = if x.is_f64() {
                y.is_f64() && x.as_f64().unwrap().to_bits() == y.as_f64().unwrap().to_bits()
            } else {
                x == y
            };
            if ok { Ok(()) } else { bad() }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) if x.len() == y.len() => {
            for (k, p) in x {
                match y.get(k) {
                    Some(q) => same(p, q)?,
                    None => return bad(),
                }
            }
            Ok(())
        }
        _ if a == b => Ok(()),
        _ => bad(),
    }
}

fn digits(t: &mut Tape, max: usize, radix: u32) -> String {
    let n = 1 + match t.weighted(&[50, 30, 20]) {
        0 => t.usize(4.min(max)),
        1 => t.usize(20.min(max)),
        _ => t.usize(max),
    };
    let mut s = String::new();
    let fill = t.weighted(&[60, 15, 15, 10]);
    for _ in 0..n {
        let d = match fill {
            0 => t.below(radix),
            1 => 0,
            2 => radix - 1,
            _ => *t.pick(&[0, 1, radix - 1]),
        };
        let c = char::from_digit(d, radix).unwrap();
        s.push(if t.chance(1, 4) { c.to_ascii_uppercase() } else { c });
    }
    s
}

/// (text, value or None if out of range)
fn integer(t: &mut Tape) -> (String, Option<i64>) {
    let radix = [10u32, 16, 8][t.weighted(&[40, 35, 25])];
    let neg = t.chance(2, 5);
    let mag: String = match t.weighted(&[45, 35, 20]) {
        0 => digits(t, 24, radix),
        1 => {
            // around a power of two, most of all the 63rd
            let e = *t.pick(&[63u32, 63, 63, 64, 31, 32, 62, 53, 65, 8, 16]);
            let m = ((1u128 << e) as i128 + t.range(-2, 2) as i128) as u128;
            radix_text(m, radix)
        }
        _ => radix_text(t.below(300) as u128, radix),
    };
    let mag = mag.trim_start_matches('0').to_string();
    let zeros = |t: &mut Tape| "0".repeat(t.weighted(&[70, 15, 10, 5]) * (1 + t.usize(3)));
    let mut body = match radix {
        10 => if mag.is_empty() { "0".to_string() } else { mag.clone() },
        16 => {
            let z = zeros(t);
            let z = if mag.is_empty() && z.is_empty() { "0".into() } else { z };
            format!("{}{z}{mag}", if t.coin() { "0x" } else { "0X" })
        }
        _ => {
            let z = zeros(t);
            let z = if mag.is_empty() && z.is_empty() { "0".into() } else { z };
            format!("0{z}{mag}")
        }
    };
    if neg {
        body.insert(0, '-');
    }
    if t.chance(1, 4) {
        body.push(if t.coin() { 'L' } else { 'l' });
    }
    let v: Option<i64> = (|| {
        let mut a: i128 = 0;
        for c in mag.chars() {
            a = a * radix as i128 + c.to_digit(radix).unwrap() as i128;
            if a > 1 << 70 {
                return None;
            }
        }
        i64::try_from(if neg { -a } else { a }).ok()
    })();
    (body, v)
}
fn radix_text(m: u128, radix: u32) -> String {
    match radix {
        10 => m.to_string(),
        16 => format!("{m:x}"),
        _ => format!("{m:o}"),
    }
}

fn float_value(f: f64) -> Value {
    if f.is_nan() {
        "NaN".into()
    } else if f.is_infinite() {
        if f > 0.0 { "Infinity".into() } else { "-Infinity".into() }
    } else {
        Value::Number(Number::from_f64(f).unwrap())
    }
}

/// sum(bits) * 2^exp2 rounded half to even; `bits` most significant first.
pub fn round_bits(bits: &[bool], exp2: i64) -> f64 {
    let Some(first) = bits.iter().position(|b| *b) else { return 0.0 };
    let bits = &bits[first..];
    // value = 1.xxx * 2^top
    let top = bits.len() as i64 - 1 + exp2;
    if top > 1023 {
        return f64::INFINITY;
    }
    // weight of the last kept bit
    let last = (top - 52).max(-1074);
    let keep = top - last + 1; // may be <= 0
    let bit = |i: i64| i >= 0 && bits.get(i as usize).copied().unwrap_or(false);
    let mut m: u64 = 0;
    for i in 0..keep.max(0) {
        m = m << 1 | bit(i) as u64;
    }
    let (half, rest) = if keep < 0 { (false, true) } else { (bit(keep), (keep + 1..bits.len() as i64).any(bit)) };
    if half && (rest || m & 1 == 1) {
        m += 1;
    }
    // m * 2^last, exactly representable (or the next binade, or infinity)
    if last == -1074 && m < 1 << 52 {
        return f64::from_bits(m);
    }
    let (m, last) = if m == 1 << 53 { (1u64 << 52, last + 1) } else { (m, last) };
    let e = last + 52;
    if e > 1023 {
        return f64::INFINITY;
    }
    f64::from_bits(((e + 1023) as u64) << 52 | (m & ((1 << 52) - 1)))
}

fn suffix(t: &mut Tape) -> &'static str {
    ["", "f", "F", "d", "D"][t.weighted(&[60, 10, 10, 10, 10])]
}

fn float(t: &mut Tape) -> (String, Value) {
    let sign = ["", "-", "+"][t.weighted(&[50, 30, 20])];
    let negate = |f: f64| if sign == "-" { -f } else { f };
    match t.weighted(&[50, 40, 10]) {
        0 => {
            let (mut num, exp): (String, String) = match t.weighted(&[40, 25, 20, 15]) {
                0 => {
                    let a = digits(t, 40, 10);
                    match t.below(4) {
                        0 => (format!("{a}."), String::new()),
                        1 => (format!("{a}.{}", digits(t, 40, 10)), String::new()),
                        2 => (format!(".{a}"), String::new()),
                        _ => (a, String::new()),
                    }
                }
                1 => (digits(t, 800, 10) + "." + &digits(t, 60, 10), String::new()),
                // a double, or the middle between two
                2 => {
                    let f = f64::from_bits(t.u64() >> 1);
                    let f = if f.is_finite() { f } else { 1.0 };
                    (format!("{f:e}").split('e').next().unwrap().to_string(), format!("{f:e}").split('e').nth(1).unwrap().to_string())
                }
                _ => {
                    let k = (1u64 << 53) + t.below(64) as u64 * 2;
                    let mid = k as u128 * 2 + 2; // k+1 in units of one half, times two
                    let x = format!("{}", mid / 2);
                    (x + *t.pick(&[".0", ".", ".00000000000000000000000000000001", ".5", ".9999999999999999999999"]), String::new())
                }
            };
            let exp = if !exp.is_empty() {
                exp
            } else if t.coin() {
                match t.weighted(&[60, 30, 10]) {
                    0 => t.range(-30, 30).to_string(),
                    1 => t.range(-400, 400).to_string(),
                    _ => format!("{}{}", if t.coin() { "-" } else { "" }, digits(t, 25, 10)),
                }
            } else {
                String::new()
            };
            let suf = suffix(t);
            let e = if exp.is_empty() {
                String::new()
            } else {
                let plus = if !exp.starts_with('-') && t.chance(1, 4) { "+" } else { "" };
                format!("{}{plus}{exp}", if t.coin() { "e" } else { "E" })
            };
            if !num.contains('.') && e.is_empty() && suf.is_empty() {
                num.push('.');
            }
            let body = format!("{num}{e}");
            let f: f64 = body.parse().unwrap_or_else(|_| panic!("HARNESS: {body} is no float"));
            (format!("{sign}{body}{suf}"), float_value(negate(f)))
        }
        1 => {
            let x = if t.coin() { "0x" } else { "0X" };
            let mut exact: Option<i64> = None;
            let (int, frac, dot) = match t.below(6) {
                // a double or the middle between two, or a trace above it
                4 | 5 => {
                    let b = if t.coin() { 54 } else { 1 + t.below(54) };
                    let k = 1 << (b - 1) | (t.u64() & ((1 << (b - 1)) - 1)) | t.coin() as u64;
                    let s = t.below(4);
                    let zeros = t.usize(24);
                    let mut all = format!("{}{:x}{}", "0".repeat(t.usize(3)), (k as u128) << s, "0".repeat(zeros));
                    if zeros > 0 && t.chance(1, 3) {
                        all.pop();
                        all.push(*t.pick(&['1', '2', '8', 'F']));
                    }
                    let q = match t.below(3) {
                        0 => -1075 + t.range(-1, 1),
                        1 => 1024 - b as i64 + t.range(-1, 1),
                        _ => t.range(-1100, 1000),
                    };
                    let cut = t.usize(all.len() + 1);
                    let frac = all.split_off(cut);
                    exact = Some(q - s as i64 - 4 * zeros as i64 + 4 * frac.len() as i64);
                    (all, frac, true)
                }
                0 => (digits(t, 30, 16), String::new(), false),
                1 => (digits(t, 30, 16), String::new(), true),
                2 => (String::new(), digits(t, 30, 16), true),
                _ => (digits(t, 20, 16), digits(t, 30, 16), true),
            };
            let bits: Vec<bool> = int.chars().chain(frac.chars()).flat_map(|c| {
                let d = c.to_digit(16).unwrap();
                (0..4).rev().map(move |i| d >> i & 1 == 1)
            }).collect();
            let e: i64 = match t.weighted(&[40, 30, 20, 10]) {
                _ if exact.is_some() => exact.unwrap(),
                0 => t.range(-70, 70),
                1 => t.range(-1300, 1300),
                2 => *t.pick(&[1023, 1024, -1022, -1023, -1074, -1075, -1076, 971, 970]) - t.range(0, 8) * 4,
                _ => t.range(-99_999_999_999, 99_999_999_999),
            };
            let scale = e.clamp(-1_000_000, 1_000_000) - 4 * frac.len() as i64;
            let f = round_bits(&bits, scale);
            // an exponent far beyond every integer type means the same as a merely huge one
            let far = if e.abs() > 5000 && exact.is_none() && t.coin() { digits(t, 30, 10) } else { String::new() };
            let es = if e >= 0 && t.chance(1, 4) { format!("+{e}{far}") } else { format!("{e}{far}") };
            let p = if t.coin() { "p" } else { "P" };
            let txt = format!("{sign}{x}{int}{}{frac}{p}{es}{}", if dot { "." } else { "" }, suffix(t));
            (txt, float_value(negate(f)))
        }
        _ => {
            if t.coin() {
                (format!("{sign}NaN"), "NaN".into())
            } else {
                (format!("{sign}Infinity"), if sign == "-" { "-Infinity".into() } else { "Infinity".into() })
            }
        }
    }
}

fn string(t: &mut Tape) -> (String, String) {
    let (mut lit, mut val) = (String::from("\""), String::new());
    let mut n = 0;
    let hex = |t: &mut Tape, u: u32| -> String {
        let h = match t.below(3) {
            0 => format!("{u:04x}"),
            1 => format!("{u:04X}"),
            _ => format!("{u:04x}").chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        };
        format!("\\u{h}")
    };
    let mut open_octal = 0; // how many more octal digits the last escape could swallow
    while t.more(n, 14, 6, 7) {
        n += 1;
        match t.weighted(&[30, 15, 15, 10, 20, 10]) {
            0 => {
                let c = *t.pick(&['a', 'u', 'n', 'x', ' ', '/', '\'', '{', '0', '8', '9', '1', '7', '*', '`', '@', '-']);
                if open_octal > 0 && ('0'..='7').contains(&c) {
                    continue;
                }
                lit.push(c);
                val.push(c);
                open_octal = 0;
            }
            1 => {
                let c = *t.pick(&['é', 'ß', '日', '\u{80}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{ffff}', '\u{e000}', '😀', '\u{10ffff}', '\u{0}', '\u{1}', '\u{b}', '\u{7f}', '\u{301}']);
                lit.push(c);
                val.push(c);
                open_octal = 0;
            }
            2 => {
                let (l, v) = *t.pick(&[
                    ("\\n", '\n'), ("\\r", '\r'), ("\\t", '\t'), ("\\b", '\u{8}'), ("\\f", '\u{c}'), ("\\\\", '\\'), ("\\\"", '"'), ("\\'", '\''),
                ]);
                lit.push_str(l);
                val.push(v);
                open_octal = 0;
            }
            3 => {
                // octal escapes take as many digits as they can
                let (txt, v, open) = match t.below(3) {
                    0 => {
                        let d = t.below(8);
                        (format!("\\{d}"), d, if d <= 3 { 2 } else { 1 })
                    }
                    1 => {
                        let d = t.below(64);
                        (format!("\\{:02o}", d), d, if d / 8 <= 3 { 1 } else { 0 })
                    }
                    _ => {
                        let d = t.below(256);
                        (format!("\\{d:03o}"), d, 0)
                    }
                };
                lit.push_str(&txt);
                val.push(char::from_u32(v).unwrap());
                open_octal = open;
            }
            4 => {
                let u = match t.weighted(&[40, 40, 20]) {
                    0 => *t.pick(&[0x41, 0x22, 0x5c, 0x0, 0xa, 0x1a, 0x7f, 0x80, 0xd7ff, 0xe000, 0xffff, 0xfeff, 0x2028]),
                    1 => t.below(0x800),
                    _ => t.below(0x10000),
                };
                if (0xd800..0xe000).contains(&u) {
                    let c = 0x10000 + t.below(0x100000);
                    let v = c - 0x10000;
                    lit.push_str(&hex(t, 0xd800 + (v >> 10)));
                    lit.push_str(&hex(t, 0xdc00 + (v & 0x3ff)));
                    val.push(char::from_u32(c).unwrap());
                } else {
                    lit.push_str(&hex(t, u));
                    val.push(char::from_u32(u).unwrap());
                }
                open_octal = 0;
            }
            _ => {
                // text that looks like an escape after an escaped backslash
                lit.push_str("\\\\");
                val.push('\\');
                let s = *t.pick(&["u0041", "n", "101", "u", "\u{e9}", "0"]);
                lit.push_str(s);
                val.push_str(s);
                open_octal = 0;
            }
        }
    }
    lit.push('"');
    (lit, val)
}

struct G<'a> {
    t: &'a mut Tape,
    bad: bool,
    odd: bool,
    kinds: Vec<&'static str>,
}
impl G<'_> {
    fn scalar(&mut self, out_of_range: bool) -> (String, Value) {
        let t = &mut *self.t;
        match t.weighted(&[30, 30, 25, 8, 7]) {
            0 => loop {
                let (s, v) = integer(t);
                self.kinds.push("integer");
                self.odd |= s.chars().any(|c| !c.is_ascii_digit()) || s.starts_with('0');
                match v {
                    Some(v) => return (s, v.into()),
                    None if out_of_range => {
                        self.bad = true;
                        return (s, Value::Null);
                    }
                    None => continue,
                }
            },
            1 => {
                self.kinds.push("float");
                self.odd = true;
                float(t)
            }
            2 => {
                let (s, v) = string(t);
                self.kinds.push("string");
                self.odd |= !s.is_ascii() || s.contains('\\');
                (s, v.into())
            }
            3 => {
                let b = t.coin();
                (b.to_string(), b.into())
            }
            _ => ("null".into(), Value::Null),
        }
    }
    fn gap(&mut self) -> String {
        match self.t.weighted(&[60, 20, 10, 10]) {
            0 => String::new(),
            1 => " ".into(),
            2 => "\n".into(),
            _ => format!(" {} ", trivia_comment(self.t)),
        }
    }
    fn value(&mut self, depth: usize) -> (String, Value) {
        match self.t.weighted(&[60, if depth > 0 { 20 } else { 0 }, if depth > 0 { 20 } else { 0 }]) {
            0 => self.scalar(true),
            1 => {
                self.kinds.push("array");
                let (mut s, mut v) = (String::from("["), vec![]);
                s += &self.gap();
                while self.t.more(v.len(), 4, 2, 3) {
                    if !v.is_empty() {
                        s.push(',');
                        s += &self.gap();
                    }
                    let (a, b) = self.value(depth - 1);
                    s += &a;
                    s += &self.gap();
                    v.push(b);
                }
                s.push(']');
                (s, Value::Array(v))
            }
            _ => {
                self.kinds.push("object");
                let (mut s, mut v) = (String::from("{"), Map::new());
                s += &self.gap();
                let mut n = 0;
                while self.t.more(n, 4, 2, 3) {
                    let (kl, k) = string(self.t);
                    if v.contains_key(&k) {
                        break;
                    }
                    if n > 0 {
                        s.push(',');
                        s += &self.gap();
                    }
                    let (a, b) = self.value(depth - 1);
                    s += &format!("{kl}{}:{}{a}{}", self.gap(), self.gap(), self.gap());
                    v.insert(k, b);
                    n += 1;
                }
                s.push('}');
                (s, Value::Object(v))
            }
        }
    }
}

fn run(t: &mut Tape, ctx: &mut Ctx) -> Res {
    // one program with literals in annotations and in defaults of every primitive kind
    let mut src = String::new();
    let mut want: Vec<(String, Value)> = vec![]; // JSON pointer, value
    let out_of_range = t.chance(1, 5);
    let mut g = G { t, bad: false, odd: false, kinds: vec![] };
    let pick_value = |g: &mut G, bad_ok: bool| loop {
        let d = g.t.usize(3);
        let before = g.bad;
        let (s, v) = g.value(d);
        if g.bad && !before && !bad_ok {
            g.bad = before;
            continue;
        }
        return (s, v);
    };
    let np = g.t.usize(3);
    for i in 0..np {
        let (s, v) = pick_value(&mut g, false);
        src += &format!("@p{i}({s})\n");
        want.push((format!("/p{i}"), v));
    }
    src += "protocol P {\n";
    let size = g.t.below(100_000) as i64;
    let sl = crate::render::small_int(g.t, size);
    src += &format!("fixed F({sl});\n");
    want.push(("/types/0/size".into(), size.into()));
    src += "record R {\n";
    let nf = 1 + g.t.usize(4);
    for i in 0..nf {
        let (ty, s, v) = match g.t.below(5) {
            0 => {
                let (s, v) = loop {
                    let (s, v) = integer(g.t);
                    if let Some(v) = v {
                        break (s, v);
                    }
                };
                g.kinds.push("integer-default");
                g.odd |= s.chars().any(|c| !c.is_ascii_digit());
                ("long", s, Value::from(v))
            }
            1 => {
                let (s, v) = float(g.t);
                g.kinds.push("float-default");
                (*g.t.pick(&["double", "float"]), s, v)
            }
            2 => {
                let (s, v) = string(g.t);
                g.kinds.push("string-default");
                (*g.t.pick(&["string", "bytes"]), s, v.into())
            }
            3 => {
                let (mut s, mut v) = (String::from("["), vec![]);
                while g.t.more(v.len(), 3, 1, 2) {
                    let (a, b) = if g.t.coin() { float(g.t) } else { let (a, b) = string(g.t); (a, b.into()) };
                    s += &format!("{}{a}", if v.is_empty() { "" } else { "," });
                    v.push(b);
                }
                s.push(']');
                ("array<union{double, string}>", s, Value::Array(v))
            }
            _ => {
                let b = g.t.coin();
                ("boolean", b.to_string(), b.into())
            }
        };
        let (an, av) = pick_value(&mut g, false);
        src += &format!("{ty} @a({an}) f{i} = {s};\n");
        want.push((format!("/types/1/fields/{i}/default"), v));
        want.push((format!("/types/1/fields/{i}/a"), av));
    }
    src += "}\n";
    let (an, av) = match out_of_range.then(|| (0..30).find_map(|_| Some(integer(g.t)).filter(|x| x.1.is_none()))).flatten() {
        Some((s, _)) => {
            g.bad = true;
            let s = match g.t.below(3) {
                0 => s,
                1 => format!("[1, {s}]"),
                _ => format!("{{\"k\": {s}, \"l\": 1}}"),
            };
            (s, Value::Null)
        }
        None => pick_value(&mut g, false),
    };
    src += &format!("@m({an}) void m();\n}}\n");
    want.push(("/messages/m/m".into(), av));
    let (bad, odd) = (g.bad, g.odd);
    for k in g.kinds {
        ctx.label(k);
    }
    ctx.show(&src);
    ctx.nontrivial = odd;
    ctx.label_if(bad, "integer-out-of-range");
    let res = api::convert_quick(&src);
    match (res, bad) {
        (Err(_), true) => Ok(()),
        (Ok(v), true) => fail(format!("an integer outside the 64-bit range was accepted: {}", v["messages"]["m"]["m"])),
        (Err(e), false) => fail(format!("a program with valid literals was rejected: {e}")),
        (Ok(out), false) => {
            for (p, v) in &want {
                let Some(got) = out.pointer(p) else { return fail(format!("nothing at {p}; expected {v}")) };
                same(v, got).map_err(|e| format!("literal at {p}: {e}"))?;
            }
            Ok(())
        }
    }
}
