use crate::engine::*;
use crate::gen::Layout;
use crate::{ensure, ensure_eq};
use geo::Point;
use std::collections::BTreeMap;
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::isec::{parse_isec_txt, IsecMap};

const UD: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
type Db = BTreeMap<String, Vec<(f64, f64)>>;

fn name(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1]) {
        0 => s.pick(&["ASPAT", "ERNAS", "8900E", "A", "15", "ARMUT"]).to_string(),
        1 => s.word(1, 5, UD),
        _ => s.word(1, 12, "A15"),
    }
}

/// A number as a file writes it: latitude, longitude or anything.
fn number(s: &mut Src, max: i64) -> String {
    let sign = if s.chance(1, 3) { "-" } else { "" };
    let int = match s.weighted(&[5, 1, 1]) {
        0 => format!("{}", s.int(0, max)),
        1 => format!("{:03}", s.int(0, max)),
        _ => s.pick(&["0", "00", "90", "180"]).to_string(),
    };
    let n = *s.pick(&[6, 6, 6, 1, 2, 5, 7, 9]);
    let mut frac = s.word(n, n, "0123456789");
    if s.chance(1, 6) {
        frac = s.pick(&["000000", "999999", "0000005", "9999995", "500000", "0"]).to_string();
    }
    format!("{sign}{int}.{frac}")
}

fn db_of(m: &IsecMap) -> Db {
    m.iter_all()
        .map(|(k, v)| {
            (k.clone(), v.iter().map(|f| (f.coordinate.y(), f.coordinate.x())).collect())
        })
        .collect()
}

fn read(text: &str, what: &str) -> Result<IsecMap, Fail> {
    let m = no_panic("parse_isec_txt", || parse_isec_txt(text.as_bytes()))?;
    let m = m.map_err(|e| Fail::from(format!("{what} rejected: {e}")))?;
    for (k, v) in m.iter_all() {
        for f in v {
            ensure_eq!(&f.designator, k, "{what}: name of an entry");
        }
    }
    Ok(m)
}

/// Nearest multiple of a millionth, in millionths.
fn grid(v: f64) -> f64 {
    (v * 1e6).round()
}

fn round_trip(m: &IsecMap, c: &mut Case) -> Res {
    let text = no_panic("to_string", || m.to_string())?;
    c.input.push_str(&format!("== written\n{text}"));
    let db = db_of(m);
    let again = read(&text, "written text")?;
    let db2 = db_of(&again);
    ensure!(db.keys().eq(db2.keys()), "names {:?} after writing {:?}", db2.keys(), db.keys());
    for (k, v) in &db {
        let w = &db2[k];
        ensure_eq!(w.len(), v.len(), "entries of {k}");
        for (a, b) in v.iter().zip(w) {
            for (a, b) in [(a.0, b.0), (a.1, b.1)] {
                ensure!((a - b).abs() <= 0.500001e-6, "{k}: {a} became {b}");
                // already on the grid: exactly the same number
                if a.abs() < 1e6 && a == format!("{a:.6}").parse::<f64>().unwrap() {
                    ensure!(a == b, "{k}: {a} became {b}");
                } else {
                    ensure!((grid(a) - grid(b)).abs() <= 1.0, "{k}: {a} became {b}");
                }
            }
        }
    }
    let text2 = no_panic("to_string", || again.to_string())?;
    ensure!(text == text2, "written again it reads\n{text2}");
    // one line for each entry, in the documented columns
    let lines: Vec<&str> = text.lines().collect();
    ensure_eq!(lines.len(), db.values().map(Vec::len).sum::<usize>(), "lines");
    Ok(())
}

fn file(s: &mut Src, c: &mut Case) -> Res {
    // now and then a database of real size
    let most = if s.chance(1, 150) { 600 } else { 12 };
    let recs: Vec<(String, String, String)> = s.vec(1, most, |s| (name(s), number(s, 90), number(s, 180)));
    let l = Layout::new(s, &[]);
    let sep = |s: &mut Src| *s.pick(&["\t", " ", "\t ", "   ", " \t"]);
    let mut text = String::new();
    let mut want: Db = BTreeMap::new();
    for (i, (n, a, b)) in recs.iter().enumerate() {
        let (x, y, z) = (sep(s), sep(s), sep(s));
        text += &format!("{n}{x}{a}{y}{b}{z}15");
        want.entry(n.clone()).or_default().push((a.parse().unwrap(), b.parse().unwrap()));
        if i + 1 == recs.len() && s.chance(1, 6) {
            c.label("no final line break");
            break;
        }
        if s.chance(1, 12) {
            c.label("trailing comment");
            text += s.pick(&[" ; x", "\t// 15", ";"]);
        }
        text += l.nl;
        if s.chance(1, 12) {
            c.label("comment line");
            text += s.pick(&["; A 1.0 2.0 15", "//", " // x"]);
            text += l.nl;
        }
        while s.chance(1, 12) {
            c.label("blank line");
            text += l.nl;
        }
    }
    c.input = text.clone();
    let m = read(&text, "file")?;
    let got = db_of(&m);
    ensure!(got == want, "read {got:?}\nexpected {want:?}");
    if want.values().any(|v| v.len() > 1) {
        c.label("repeated name");
    }
    c.nontrivial = recs.len() >= 2;
    round_trip(&m, c)
}

/// A database that was changed after reading.
fn changed(s: &mut Src, c: &mut Case) -> Res {
    let mut m = read("ASPAT\t49.196175\t10.725828\t15\n", "seed")?;
    if s.bool() {
        m.remove("ASPAT");
    }
    let most = if s.chance(1, 150) { 500 } else { 8 };
    for _ in 0..s.us(1, most) {
        let n = name(s);
        let v = |s: &mut Src, max: i64| match s.weighted(&[4, 2, 1]) {
            0 => s.int(-max * 1_000_000, max * 1_000_000) as f64 / 1e6,
            1 => s.int(-max * 1_000_000_000, max * 1_000_000_000) as f64 / 1e9,
            _ => *s.pick(&[0.0, -0.0, 1e-7, -1e-7, 5e-7, -5e-7, 89.999_999_7, -179.999_999_9]),
        };
        let f = Fix { designator: n.clone(), coordinate: Point::new(v(s, 180), v(s, 90)) };
        m.insert(n, f);
    }
    c.input = format!("{:?}\n", db_of(&m));
    c.nontrivial = db_of(&m).values().map(Vec::len).sum::<usize>() >= 2;
    round_trip(&m, c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "fix database files of up to twelve entries, now and then hundreds (few names so that they repeat, coordinates with one to nine decimals, leading zeros and limits; blank lines, LF/CRLF, missing final line break, any blanks between columns) and databases changed in memory; non-trivial: at least two entries. Oracle: the list of entries per name; writing and reading again compared in millionths of a degree; text fixed point",
        assumptions: &["an empty database has no text (a file has at least one entry)", "names consist of capital letters and digits"],
        subs: vec![
            Sub { name: "file", quick: 30_000, thorough: 1_000_000, f: file },
            Sub { name: "changed", quick: 30_000, thorough: 1_000_000, f: changed },
        ],
        probes: vec![],
    }
}
