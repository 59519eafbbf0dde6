//! Sentences of the pest grammars of the parsers, and mutation of texts.
use crate::engine::Src;
use pest_meta::ast::{Expr, RuleType};
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Grammar {
    rules: HashMap<String, (RuleType, Expr)>,
    pub literals: Vec<String>,
}

fn grammar_dir() -> String {
    std::env::var("VP_GRAMMARS").unwrap_or_else(|_| "/repo/src/pest".to_string())
}

impl Grammar {
    /// `None` when the grammar files cannot be found or read (the mutation generator then
    /// works without them).
    pub fn load(files: &[&str]) -> Option<Grammar> {
        let mut text = String::new();
        for f in files {
            text.push_str(&std::fs::read_to_string(format!("{}/{f}", grammar_dir())).ok()?);
            text.push('\n');
        }
        let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, &text).ok()?;
        let rules = pest_meta::parser::consume_rules(pairs).ok()?;
        let mut literals = vec![];
        let mut map = HashMap::new();
        for r in rules {
            r.expr.iter_top_down().for_each(|e| {
                if let Expr::Str(s) | Expr::Insens(s) = e {
                    literals.push(s);
                }
            });
            map.insert(r.name, (r.ty, r.expr));
        }
        literals.sort();
        literals.dedup();
        Some(Grammar { rules: map, literals })
    }

    pub fn sentence(&self, s: &mut Src, start: &str) -> String {
        let mut g = Gen { g: self, out: String::new(), stack: vec![] };
        g.rule(s, start, false);
        g.out
    }
}

struct Gen<'a> {
    g: &'a Grammar,
    out: String,
    stack: Vec<String>,
}

const LIMIT: usize = 4000;

fn pick_char(s: &mut Src, a: &str) -> char {
    let v: Vec<char> = a.chars().collect();
    *s.pick(&v)
}

impl Gen<'_> {
    fn rule(&mut self, s: &mut Src, name: &str, atomic: bool) {
        let g = self.g;
        if let Some((ty, expr)) = g.rules.get(name) {
            let atomic = match ty {
                RuleType::Atomic | RuleType::CompoundAtomic => true,
                RuleType::NonAtomic => false,
                _ => atomic,
            };
            if name == "COMMENT" && self.out.len() > LIMIT {
                return;
            }
            self.expr(s, expr, atomic);
            return;
        }
        match name {
            "SOI" | "EOI" => {}
            "ANY" => {
                let c = if s.chance(1, 30) {
                    pick_char(s, ";/\\:,\"'[]{}*#=\t+-.%&<>|½٣ßÄ€\u{feff}\u{0}\u{a0}\u{2003}")
                } else {
                    pick_char(s, "ABCDEFXYZabcxyz0123456789 _-.")
                };
                self.out.push(c);
            }
            "NEWLINE" => self.out.push_str(if s.chance(1, 12) { "\r\n" } else { "\n" }),
            "ASCII_DIGIT" => self.out.push(pick_char(s, "0123456789")),
            "ASCII_NONZERO_DIGIT" => self.out.push(pick_char(s, "123456789")),
            "ASCII_ALPHA" => self.out.push(pick_char(s, "ABCXYZabcxyz")),
            "ASCII_ALPHA_UPPER" => self.out.push(pick_char(s, "ABCDEFGNSEWXYZ")),
            "ASCII_ALPHA_LOWER" => self.out.push(pick_char(s, "abcxyz")),
            "ASCII_ALPHANUMERIC" => self.out.push(pick_char(s, "ABCXYZabcxyz0123456789")),
            "LETTER" => self.out.push(pick_char(s, "ABCXYZabcxyzÄéßñЖ中")),
            "NUMBER" => self.out.push(pick_char(s, "0123456789½٣Ⅷ²")),
            "POP" => {
                let t = self.stack.pop().unwrap_or_default();
                self.out.push_str(&t);
            }
            "PEEK" => {
                let t = self.stack.last().cloned().unwrap_or_default();
                self.out.push_str(&t);
            }
            "DROP" => {
                self.stack.pop();
            }
            _ => {}
        }
    }

    fn ws(&mut self, s: &mut Src, atomic: bool) {
        if atomic {
            return;
        }
        let has_ws = self.g.rules.contains_key("WHITESPACE");
        if has_ws && s.chance(2, 3) {
            if s.chance(1, 10) {
                self.rule(s, "WHITESPACE", true);
            } else {
                self.out.push(' ');
            }
        }
        if self.g.rules.contains_key("COMMENT") && s.chance(1, 60) {
            self.rule(s, "COMMENT", true);
        }
    }

    fn rep(&mut self, s: &mut Src, e: &Expr, atomic: bool, min: u32, max: u32) {
        let digits = matches!(e, Expr::Ident(n) if n == "ASCII_DIGIT");
        let any = match e {
            Expr::Seq(_, b) => matches!(&**b, Expr::Ident(n) if n == "ANY"),
            _ => false,
        };
        let typical = if self.out.len() > LIMIT {
            0
        } else if digits {
            match s.weighted(&[10, 2, 1]) {
                0 => s.int(1, 3) as u32,
                1 => s.int(1, 12) as u32,
                _ => s.int(10, 24) as u32,
            }
        } else if any {
            s.int(0, 8) as u32
        } else {
            match s.weighted(&[6, 2]) {
                0 => s.int(0, 3) as u32,
                _ => s.int(0, 8) as u32,
            }
        };
        let n = typical.clamp(min, max.max(min));
        for i in 0..n {
            if i > 0 {
                self.ws(s, atomic);
            }
            self.expr(s, e, atomic);
        }
    }

    fn expr(&mut self, s: &mut Src, e: &Expr, atomic: bool) {
        match e {
            Expr::Str(t) => self.out.push_str(t),
            Expr::Insens(t) => self.out.push_str(t),
            Expr::Range(a, b) => {
                let (a, b) = (a.chars().next().unwrap_or('a'), b.chars().next().unwrap_or('z'));
                let c = char::from_u32(s.int(a as i64, b as i64) as u32).unwrap_or(a);
                self.out.push(c);
            }
            Expr::Ident(n) => self.rule(s, n, atomic),
            Expr::PosPred(_) | Expr::NegPred(_) | Expr::Skip(_) | Expr::PeekSlice(..) => {}
            Expr::Seq(a, b) => {
                self.expr(s, a, atomic);
                if !matches!(**a, Expr::NegPred(_) | Expr::PosPred(_)) {
                    self.ws(s, atomic);
                }
                self.expr(s, b, atomic);
            }
            Expr::Choice(..) => {
                let mut alts: Vec<&Expr> = vec![];
                let mut cur = e;
                loop {
                    match cur {
                        // pest parses choices left-nested
                        Expr::Choice(a, b) => {
                            alts.push(b);
                            cur = a;
                        }
                        other => {
                            alts.push(other);
                            break;
                        }
                    }
                }
                let mut flat = vec![];
                while let Some(a) = alts.pop() {
                    if let Expr::Choice(x, y) = a {
                        alts.push(y);
                        alts.push(x);
                    } else {
                        flat.push(a);
                    }
                }
                let pick = *s.pick(&flat);
                self.expr(s, pick, atomic);
            }
            Expr::Opt(a) => {
                if s.bool() {
                    self.expr(s, a, atomic);
                }
            }
            Expr::Rep(a) => self.rep(s, a, atomic, 0, u32::MAX),
            Expr::RepOnce(a) => self.rep(s, a, atomic, 1, u32::MAX),
            Expr::RepExact(a, n) => self.rep(s, a, atomic, *n, *n),
            Expr::RepMin(a, n) => self.rep(s, a, atomic, *n, u32::MAX),
            Expr::RepMax(a, n) => self.rep(s, a, atomic, 0, *n),
            Expr::RepMinMax(a, n, m) => self.rep(s, a, atomic, *n, *m),
            Expr::Push(a) => {
                let at = self.out.len();
                self.expr(s, a, atomic);
                let t = self.out[at..].to_string();
                self.stack.push(t);
            }
        }
    }
}

pub struct Format {
    pub name: &'static str,
    pub files: &'static [&'static str],
    pub start: &'static str,
    pub seeds: &'static [&'static str],
    grammar: OnceLock<Option<Grammar>>,
}
impl Format {
    pub const fn new(
        name: &'static str,
        files: &'static [&'static str],
        start: &'static str,
        seeds: &'static [&'static str],
    ) -> Self {
        Format { name, files, start, seeds, grammar: OnceLock::new() }
    }
    pub fn grammar(&self) -> Option<&Grammar> {
        self.grammar.get_or_init(|| Grammar::load(self.files)).as_ref()
    }
}

pub const EXTREME: &[&str] = &[
    "00", "000", "7", "12", "13", "23", "24", "31", "32", "59", "090", "179", "180", "181", "7777", "10000", "77777",
    "100000", "177777", "200000", "17777777777", "37777777777", "40000000000", "ffff", "0", "-1", "1", "+5", "60", "61", "99", "127", "128", "-128", "-129", "255", "256", "359", "360", "361", "999",
    "1000", "32767", "32768", "65535", "65536", "16777215", "16777216", "2147483647", "2147483648",
    "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807",
    "9223372036854775808", "-9223372036854775809", "18446744073709551616", "0.5", "-0.5", ".5", "-0", "00000000000000000007",
    "99999999999999999999999999999999999999999", "1e9", "NaN", "inf", "", "٣", "1,5", "12.345.678",
];

fn tokens(t: &[u8], f: impl Fn(u8) -> bool) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut i = 0;
    while i < t.len() {
        if f(t[i]) {
            let a = i;
            while i < t.len() && f(t[i]) {
                i += 1;
            }
            out.push((a, i));
        } else {
            i += 1;
        }
    }
    out
}

fn lines(t: &[u8]) -> Vec<Vec<u8>> {
    t.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect()
}

/// A few random edits.
pub fn mutate(s: &mut Src, text: &[u8], f: &Format) -> Vec<u8> {
    let mut t = text.to_vec();
    let n = if s.chance(1, 3) { 1 } else { s.us(1, 4) };
    for _ in 0..n {
        match s.weighted(&[8, 3, 3, 3, 2, 2, 2, 2, 1, 2, 2]) {
            0 => {
                // a number becomes an extreme one
                let tk = tokens(&t, |b| b.is_ascii_digit());
                if tk.is_empty() {
                    continue;
                }
                let (a, b) = *s.pick(&tk);
                let r = match s.draw(40) {
                    0 => vec![b'9'; 400],
                    _ => s.pick(EXTREME).as_bytes().to_vec(),
                };
                t.splice(a..b, r);
            }
            1 => {
                // a word becomes another word or a keyword
                let tk = tokens(&t, |b| b.is_ascii_alphanumeric() || b == b'_');
                if tk.is_empty() {
                    continue;
                }
                let (a, b) = *s.pick(&tk);
                let r = match (s.weighted(&[2, 1]), f.grammar()) {
                    (1, Some(g)) if !g.literals.is_empty() => s.pick(&g.literals).clone().into_bytes(),
                    _ => {
                        let (c, d) = *s.pick(&tk);
                        t[c..d].to_vec()
                    }
                };
                t.splice(a..b, r);
            }
            2 => {
                // a line is removed, doubled or moved
                let mut l = lines(&t);
                if l.is_empty() {
                    continue;
                }
                let i = s.idx(l.len());
                match s.draw(3) {
                    0 => {
                        l.remove(i);
                    }
                    1 => {
                        let c = l[i].clone();
                        l.insert(i, c);
                    }
                    _ => {
                        let j = s.idx(l.len());
                        l.swap(i, j);
                    }
                }
                t = l.concat();
            }
            3 => {
                // a line of another text of the format
                let other = lines(s.pick(f.seeds).as_bytes());
                if other.is_empty() {
                    continue;
                }
                let mut l = lines(&t);
                let i = s.idx(l.len() + 1);
                l.insert(i, s.pick(&other).clone());
                t = l.concat();
            }
            4 => {
                let i = s.idx(t.len() + 1);
                let ins = s.pick(&[":", " ", "\t", "\n", "\r\n", ";", "//", "\\", "\"", "*", ",", "[", "]", "-", ".", "=", "#", "\u{feff}", "\u{0}", "é", "€", "٣", "½", "中", "\u{a0}", "\u{2003}", "\u{a0}A"]);
                t.splice(i..i, ins.bytes());
            }
            5 => {
                if t.is_empty() {
                    continue;
                }
                let i = s.idx(t.len());
                let j = (i + s.us(1, 6)).min(t.len());
                t.drain(i..j);
            }
            6 => {
                // a byte that is no UTF-8
                let i = s.idx(t.len() + 1);
                t.insert(i, s.int(0x80, 0xff) as u8);
            }
            7 => {
                if t.is_empty() {
                    continue;
                }
                let i = s.idx(t.len());
                t[i] = s.draw(256) as u8;
            }
            8 => {
                let i = s.idx(t.len() + 1);
                t.truncate(i);
            }
            10 => {
                // as many bytes of one other character
                let w = *s.pick(&["é", "½", "٣", "€", "中", "\u{feff}", "😀", "\u{a0}", "\u{2003}"]);
                let n = w.len();
                let places: Vec<usize> = (0..t.len().saturating_sub(n - 1))
                    .filter(|i| t[*i..i + n].iter().all(|b| b.is_ascii_alphanumeric() || b".-#".contains(b)))
                    .collect();
                if places.is_empty() {
                    continue;
                }
                let i = *s.pick(&places);
                t.splice(i..i + n, w.bytes());
            }
            _ => {
                // a sign before a number
                let tk = tokens(&t, |b| b.is_ascii_digit());
                if tk.is_empty() {
                    continue;
                }
                let (a, _) = *s.pick(&tk);
                t.insert(a, *s.pick(&[b'-', b'+', b'.', b'0']));
            }
        }
    }
    t
}
