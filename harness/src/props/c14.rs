use crate::engine::*;
use crate::gen::json_close;
use crate::{ensure, ensure_eq};
use geo::Point;
use std::collections::BTreeMap;
use std::str::FromStr;
use vatsim_parser::adaptation::icao::{Aircraft, AircraftType, EngineType, IcaoAirport, Wtc};
use vatsim_parser::icao_aircraft::parse_aircraft;
use vatsim_parser::icao_airlines::{parse_airlines, Airline};
use vatsim_parser::icao_airports::parse_airports;
use vatsim_parser::navdata_airports::{parse_navdata_airports, NavdataAirport};

const U: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
const UD: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

/// Text between tabs: no tab, no line break, no blanks at either end, does not start a comment.
fn text(s: &mut Src) -> String {
    let t = match s.weighted(&[4, 2, 2, 1]) {
        0 => s.pick(&["MUNICH", "St. John's", "A/B", "AIRBUS", "172 Skyhawk", "Cote d'Ivoire", "A, B", "L2J", "-"]).to_string(),
        1 => s.word(1, 12, "abc XYZ019./-()&,'"),
        2 => s.word(1, 6, "äöüßé A·€"),
        _ => format!("{}{}", s.word(1, 3, U), s.pick(&[" ; x", "; x", " // x", "//x", ";", " [x]", "\"q\""])),
    };
    let t = t.trim().to_string();
    if t.is_empty() || t.starts_with(';') || t.starts_with("//") {
        "X".into()
    } else {
        t
    }
}

/// A text that may be missing.
fn text0(s: &mut Src) -> String {
    if s.chance(1, 10) { String::new() } else { text(s) }
}

/// Letters and digits of any script.
fn odd_code(s: &mut Src) -> String {
    s.word(1, 4, "ABZaz09ÄéßŁΩя中")
}

/// Columns separated by a tab, with blanks around some.
fn columns(s: &mut Src, texts: &[&str]) -> String {
    let mut out = texts[0].to_string();
    for (i, t) in texts.iter().enumerate().skip(1) {
        if i > 1 && s.chance(1, 10) {
            out.push_str(s.pick(&[" ", "  ", "     "]));
        }
        out.push('\t');
        if i > 1 && s.chance(1, 12) {
            out.push_str(s.pick(&[" ", "   "]));
        }
        out.push_str(t);
    }
    out
}

/// Lines of a list with comments, blank lines and a layout of their own.
pub fn lay(s: &mut Src, recs: &[String], c: &mut Case) -> String {
    let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let noise = s.draw(4);
    let mut out = String::new();
    let extra = |s: &mut Src, out: &mut String, c: &mut Case| {
        while noise > 0 && s.chance(noise, 10) {
            match s.draw(4) {
                0 => {
                    c.label("blank line");
                    out.push_str(nl);
                }
                1 => {
                    c.label("line of blanks");
                    out.push_str(s.pick(&["  ", "\t", " \t "]));
                    out.push_str(nl);
                }
                _ => {
                    c.label("comment line");
                    out.push_str(s.pick(&["; comment", ";", "//", "// EDDM\tA\tB\tC", ";=====", "; DLH\tX\tY\tZ", " ; x", ";; ä"]));
                    out.push_str(nl);
                }
            }
        }
    };
    extra(s, &mut out, c);
    for (i, r) in recs.iter().enumerate() {
        out.push_str(r);
        if noise > 0 && s.chance(1, 10) {
            out.push_str(s.pick(&[" ", "\t", "  "]));
            c.label("trailing blanks");
            out.push_str(nl);
        } else if i + 1 < recs.len() || !s.chance(1, 6) {
            out.push_str(nl);
        } else {
            c.label("no final line break");
            return out;
        }
        extra(s, &mut out, c);
    }
    out
}

/// The first record of each code.
fn first<T: Clone>(recs: &[(String, T)]) -> BTreeMap<String, T> {
    let mut m = BTreeMap::new();
    for (k, v) in recs {
        m.entry(k.clone()).or_insert(v.clone());
    }
    m
}

fn finish<T: Clone + serde::Serialize>(recs: &[(String, T)], got: serde_json::Value, c: &mut Case, what: &str) -> Res {
    let want = first(recs);
    if want.len() < recs.len() {
        c.label("duplicates");
    }
    c.nontrivial = recs.len() >= 2;
    json_close(&got, &serde_json::to_value(&want).unwrap(), what).map_err(Fail::from)
}

fn code(s: &mut Src, pool: &[&str], f: fn(&mut Src) -> String) -> String {
    match s.weighted(&[3, 2]) {
        0 => s.pick(pool).to_string(),
        _ => f(s),
    }
}

/// How many records there are at most: a handful, now and then hundreds.
fn size(s: &mut Src) -> usize {
    if s.chance(1, 150) { 500 } else { 8 }
}

fn aircraft(s: &mut Src, c: &mut Case) -> Res {
    let n = size(s);
    let mut lines = vec![];
    let recs: Vec<(String, Aircraft)> = s.vec(1, n, |s| {
        let designator = code(s, &["A320", "C172", "GLID", "H60", "B2"], |s| if s.chance(1, 8) { odd_code(s) } else { s.word(1, 4, UD) });
        let w = *s.pick(&["L", "M", "H", "J", "-"]);
        let t = *s.pick(&["L", "S", "A", "G", "H", "T", "-"]);
        let n = *s.pick(&["0", "1", "2", "3", "4", "8", "C", "-"]);
        let e = *s.pick(&["P", "T", "J", "E", "R", "-"]);
        let f = |s: &mut Src| if s.chance(1, 5) { designator.clone() } else { text0(s) };
        let (manufacturer, name) = (f(s), f(s));
        let mut line = columns(s, &[&designator, &format!("{w}{t}{n}{e}"), &manufacturer, &name]);
        // long names run on over lines
        while s.chance(1, 8) {
            let t = s.pick(&["UH-60, S-70", "Foo Bar,", "A320", "(x)"]).to_string();
            line = format!("{line}\n{t}");
        }
        lines.push(line);
        let a = Aircraft {
            designator: designator.clone(),
            wtc: Wtc::from_str(w).unwrap(),
            aircrafttype: AircraftType::from_str(t).unwrap(),
            num_engines: n.parse().unwrap_or(0),
            enginetype: EngineType::from_str(e).unwrap(),
            manufacturer,
            name,
        };
        ((designator), a)
    });
    let file = lay(s, &lines, c);
    c.input = file.clone();
    if lines.iter().any(|l| l.contains('\n')) {
        c.label("continued name");
    }
    let got = no_panic("parse_aircraft", || parse_aircraft(file.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    // independent reading of the letters
    for (k, a) in first(&recs) {
        let l = lines.iter().find(|l| l.split('\t').next() == Some(&k)).unwrap();
        let l: Vec<char> = l.split('\t').nth(1).unwrap().chars().collect();
        let w = match l[0] {
            'L' => Wtc::LIGHT,
            'M' => Wtc::MEDIUM,
            'H' => Wtc::HEAVY,
            'J' => Wtc::SUPER,
            _ => Wtc::UNKNOWN,
        };
        let t = match l[1] {
            'L' => AircraftType::LANDPLANE,
            'S' => AircraftType::SEAPLANE,
            'A' => AircraftType::AMPHIBIAN,
            'G' => AircraftType::GYROCOPTER,
            'H' => AircraftType::HELICOPTER,
            'T' => AircraftType::TILTROTOR,
            _ => AircraftType::UNKNOWN,
        };
        let e = match l[3] {
            'J' => EngineType::JET,
            'T' => EngineType::TURBOPROP,
            'P' => EngineType::PISTON,
            'E' => EngineType::ELECTRIC,
            'R' => EngineType::ROCKET,
            _ => EngineType::UNKNOWN,
        };
        ensure_eq!(got.wtc(Some(&k)), w, "wake category of {k}");
        let x = got.get(&k).ok_or_else(|| Fail::from(format!("{k} is missing")))?;
        ensure!(x.aircrafttype == t && x.enginetype == e && a.wtc == w, "{k}: {x:?}");
    }
    ensure_eq!(got.wtc(None), Wtc::UNKNOWN, "wake category of no type");
    let known = s.pick(&recs).0.clone();
    let near = match s.draw(10) {
        0 => s.word(0, 5, UD),
        1 => format!("{known}{}", s.word(1, 2, UD)),
        2 => known.chars().take(known.chars().count() - 1).collect(),
        3 => known.to_lowercase(),
        4 => format!("{known}/{}", s.word(0, 2, "LMH")),
        5 => format!("{}{known}", s.pick(&["H/", "1/", " ", "X", "\u{feff}"])),
        6 => format!("{known}{}", s.pick(&[" ", "\t", "\n", "\0", "-", "ä", "\u{feff}"])),
        7 => known.chars().rev().collect(),
        8 => recs.iter().map(|r| r.1.name.clone()).next().unwrap(),
        _ => format!("{}{}", known.chars().next().unwrap(), s.word(0, 3, UD)),
    };
    if !recs.iter().any(|r| r.0 == near) {
        c.label("near miss");
        ensure_eq!(got.wtc(Some(&near)), Wtc::UNKNOWN, "wake category of {near:?}");
    }
    finish(&recs, serde_json::to_value(&got).unwrap(), c, "aircraft")
}

fn airlines(s: &mut Src, c: &mut Case) -> Res {
    let n = size(s);
    let recs: Vec<(String, Airline)> = s.vec(1, n, |s| {
        let designator = code(s, &["DLH", "AUA", "BAW"], |s| s.word(3, 3, U));
        let f = |s: &mut Src| if s.chance(1, 5) { designator.clone() } else { text0(s) };
        let (name, callsign, country) = (f(s), f(s), f(s));
        (designator.clone(), Airline { designator, name, callsign, country })
    });
    let lines: Vec<String> = recs.iter().map(|(k, a)| columns(s, &[k, &a.name, &a.callsign, &a.country])).collect();
    let file = lay(s, &lines, c);
    c.input = file.clone();
    let got = no_panic("parse_airlines", || parse_airlines(file.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    finish(&recs, serde_json::to_value(&got).unwrap(), c, "airlines")
}

fn airports(s: &mut Src, c: &mut Case) -> Res {
    let n = size(s);
    let recs: Vec<(String, IcaoAirport)> = s.vec(1, n, |s| {
        let designator = code(s, &["EDDM", "EDMO", "LOWI"], |s| if s.chance(1, 8) { odd_code(s) } else { s.word(1, 4, UD) });
        let f = |s: &mut Src| if s.chance(1, 5) { designator.clone() } else { text0(s) };
        let (name, country) = (f(s), f(s));
        (designator.clone(), IcaoAirport { designator, name, country })
    });
    let lines: Vec<String> = recs.iter().map(|(k, a)| columns(s, &[k, &a.name, &a.country])).collect();
    let file = lay(s, &lines, c);
    c.input = file.clone();
    let got = no_panic("parse_airports", || parse_airports(file.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    finish(&recs, serde_json::to_value(&got).unwrap(), c, "airports")
}

fn number(s: &mut Src, max: i64) -> String {
    let sign = *s.pick(&["", "", "-", "+"]);
    match s.weighted(&[4, 1, 1]) {
        0 => format!("{sign}{}.{}", s.int(0, max), s.word(1, 6, "0123456789")),
        1 => format!("{sign}{}", s.int(0, max)),
        _ => format!("{sign}.{}", s.word(1, 3, "0123456789")),
    }
}

fn navdata(s: &mut Src, c: &mut Case) -> Res {
    let n = size(s);
    let mut lines = vec![];
    let recs: Vec<(String, NavdataAirport)> = s.vec(0, n, |s| {
        let designator = code(s, &["EDDM", "EDMO", "LOWI"], |s| if s.chance(1, 8) { odd_code(s) } else { s.word(1, 4, UD) });
        let (mut lat, mut lng, name) = (number(s, 90), number(s, 180), text(s));
        if s.chance(1, 12) {
            // where the equator meets the prime meridian, or one of them
            let zero = |s: &mut Src| s.pick(&["0", "0.0", "-0.000", "00.00000", "+0"]).to_string();
            match s.weighted(&[3, 1, 1]) {
                0 => (lat, lng) = (zero(s), zero(s)),
                1 => lat = zero(s),
                _ => lng = zero(s),
            }
        }
        let sep = |s: &mut Src| *s.pick(&["\t", " ", "\t\t", "  "]);
        let (a, b, d) = (sep(s), sep(s), sep(s));
        lines.push(format!("{designator}{a}{lat}{b}{lng}{d}{name}"));
        let location = Point::new(lng.parse().unwrap(), lat.parse().unwrap());
        (designator.clone(), NavdataAirport { designator, name, location })
    });
    let mut file = lay(s, &lines, c);
    // blanks at the end of a line belong to the name here
    for b in [" ", "\t"] {
        for _ in 0..3 {
            file = file.replace(&format!("{b}\r\n"), "\r\n").replace(&format!("{b}\n"), "\n");
        }
    }
    c.input = file.clone();
    let got = no_panic("parse_navdata_airports", || parse_navdata_airports(file.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    finish(&recs, serde_json::to_value(&got).unwrap(), c, "navdata airports")
}

/// A file of aircraft and one of airlines.
pub fn lists(s: &mut Src) -> (String, String) {
    let a = s.vec(1, 6, |s| {
        let wtc = *s.pick(&["L", "M", "H", "J", "-"]);
        let kind = *s.pick(&["L", "S", "A", "G", "H", "T", "-"]);
        let (n, e) = (*s.pick(&["0", "1", "2", "8", "C", "-"]), *s.pick(&["P", "T", "J", "E", "R", "-"]));
        format!("{}\t{wtc}{kind}{n}{e}\t{}\t{}\n", s.word(1, 4, UD), text(s), text(s))
    });
    let b = s.vec(1, 4, |s| format!("{}\t{}\t{}\t{}\n", s.word(3, 3, U), text(s), text(s), text(s)));
    (a.concat(), b.concat())
}

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "list files of up to eight (sometimes five hundred) records (codes from a small pool so that duplicates occur, texts with blanks, punctuation, umlauts, comment marks inside), comment lines, blank lines, LF/CRLF, missing final line break, continued aircraft names; non-trivial: at least two records. Oracle: a map filled with the first record of each code; wake category and type letters read independently",
        assumptions: &["texts contain no tab or line break, neither start nor end with blanks and do not start with a comment mark", "a continued aircraft name keeps its first line"],
        subs: vec![
            Sub { name: "aircraft", quick: 15_000, thorough: 500_000, f: aircraft },
            Sub { name: "airlines", quick: 15_000, thorough: 500_000, f: airlines },
            Sub { name: "airports", quick: 15_000, thorough: 500_000, f: airports },
            Sub { name: "navdata", quick: 15_000, thorough: 500_000, f: navdata },
        ],
        probes: vec![],
    }
}
