//! Generators shared by several properties.
use crate::engine::Src;
use geo::{Coord, Point};
use serde_json::Value;
use vatsim_parser::{DegMinSecExt, Location, Sign};

pub const UPPER: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
pub const UPPER_DIGIT: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
/// Characters of Windows-1252 outside ASCII whose bytes alone are no valid UTF-8 sequence.
pub const WIN1252: &str = "äöüßÄÖÜéèàçñøåœŠžŸ€·°£±½«»–—’“”…™ÿ";

/// A coordinate as a file writes it, in milliseconds of arc.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Dms {
    pub lat: i64,
    pub lng: i64,
}

fn part(ms: i64, h: [char; 2], s: Option<&mut Src>) -> String {
    let hemi = if ms < 0 { h[1] } else { h[0] };
    let a = ms.unsigned_abs();
    let (d, m, sec, mil) = (a / 3_600_000, a / 60_000 % 60, a / 1000 % 60, a % 1000);
    if let Some(s) = s {
        let hemi = if s.chance(1, 8) { hemi.to_ascii_lowercase() } else { hemi };
        let deg = match s.weighted(&[16, 4, 1, 1]) {
            1 => format!("{d}"),
            2 => format!("{d:04}"),
            3 => format!("{d:08}"),
            _ => format!("{d:03}"),
        };
        let sw = if s.chance(1, 12) { format!("{sec}") } else { format!("{sec:02}") };
        let secs = match s.weighted(&[6, 1, 1, 1]) {
            1 if mil == 0 => sw,
            2 if mil % 100 == 0 => format!("{sw}.{}", mil / 100),
            3 => format!("{sw}.{mil:03}{}", s.pick(&["0", "00", "000000"])),
            _ => format!("{sw}.{mil:03}"),
        };
        let min = match s.weighted(&[32, 4, 2, 1]) {
            1 => format!("{m}"),
            2 => format!("{m:03}"),
            3 => format!("{m:05}"),
            _ => format!("{m:02}"),
        };
        return format!("{hemi}{deg}.{min}.{secs}");
    }
    format!("{hemi}{d:03}.{m:02}.{sec:02}.{mil:03}")
}

fn dms_of(ms: i64) -> (Sign, u16, u8, f64) {
    let a = ms.unsigned_abs();
    (
        if ms < 0 { Sign::Neg } else { Sign::Pos },
        (a / 3_600_000) as u16,
        (a / 60_000 % 60) as u8,
        (a % 60_000) as f64 / 1000.0,
    )
}

impl Dms {
    pub fn lat_text(&self, s: &mut Src) -> String {
        part(self.lat, ['N', 'S'], Some(s))
    }
    pub fn lng_text(&self, s: &mut Src) -> String {
        part(self.lng, ['E', 'W'], Some(s))
    }
    pub fn canon(&self) -> String {
        format!("{} {}", part(self.lat, ['N', 'S'], None), part(self.lng, ['E', 'W'], None))
    }
    pub fn canon_colon(&self) -> String {
        format!("{}:{}", part(self.lat, ['N', 'S'], None), part(self.lng, ['E', 'W'], None))
    }
    pub fn coord(&self) -> Coord {
        Coord::from_deg_min_sec(dms_of(self.lat), dms_of(self.lng))
    }
    pub fn point(&self) -> Point {
        self.coord().into()
    }
}

/// Any coordinate; biased to a small area so that coordinates repeat and relate.
pub fn dms(s: &mut Src) -> Dms {
    let one = |s: &mut Src, max: i64, base: i64| match s.weighted(&[5, 3, 2, 1]) {
        0 => base * 3_600_000 + s.int(0, 7_200_000),
        1 => (base + s.int(0, 3)) * 3_600_000 + s.int(0, 59) * 60_000,
        2 => {
            let v = s.int(0, max * 3_600_000);
            if s.bool() {
                -v
            } else {
                v
            }
        }
        _ => {
            let v = *s.pick(&[0, 1, 59_999, 60_000, 3_599_999, 1000, 999, max * 3_600_000]);
            if s.bool() {
                -v
            } else {
                v
            }
        }
    };
    // where both parts are special: origin, poles, date line
    if s.chance(1, 40) {
        let lat = *s.pick(&[0, 324_000_000, -324_000_000]);
        let lng = *s.pick(&[0, 648_000_000, -648_000_000]);
        return Dms { lat, lng };
    }
    Dms { lat: one(s, 90, 48), lng: one(s, 180, 11) }
}

/// A coordinate from a small grid (so that equal ones occur).
pub fn grid_dms(s: &mut Src) -> Dms {
    Dms { lat: 48 * 3_600_000 + s.int(0, 3) * 600_000, lng: 11 * 3_600_000 + s.int(0, 3) * 600_000 }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Loc {
    Fix(String),
    At(Dms),
}
impl Loc {
    pub fn value(&self) -> Location {
        match self {
            Loc::Fix(f) => Location::Fix(f.clone()),
            Loc::At(c) => Location::Coordinate(c.point()),
        }
    }
}

pub fn fix_name(s: &mut Src) -> String {
    match s.weighted(&[18, 6, 3, 1]) {
        0 => s.pick(&["ARMUT", "MIQ", "OTT", "EDDM", "DKB", "NAXAV", "A", "AB", "ABA", "DM060"]).to_string(),
        1 => s.word(1, 5, UPPER),
        2 => s.word(1, 5, UPPER_DIGIT),
        _ => s.word(6, 30, UPPER_DIGIT),
    }
}

pub fn icao(s: &mut Src) -> String {
    match s.weighted(&[5, 2]) {
        0 => s.pick(&["EDDM", "EDDN", "EDDF", "LOWI", "EDMO"]).to_string(),
        _ => s.word(4, 4, UPPER),
    }
}

pub fn runway_designator(s: &mut Src) -> String {
    format!("{:02}{}", s.int(1, 36), s.pick(&["", "L", "R", "C", "G"]))
}

pub fn ident(s: &mut Src, alphabet: &str, min: usize, max: usize) -> String {
    s.word(min, max, alphabet)
}

/// Approximate comparison of JSON renderings: numbers to 1e-9.
pub fn json_close(a: &Value, b: &Value, path: &str) -> Result<(), String> {
    json_close_tol(a, b, path, 1e-9)
}
pub fn json_close_tol(a: &Value, b: &Value, path: &str, tol: f64) -> Result<(), String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            if x == y || (x - y).abs() <= tol {
                Ok(())
            } else {
                Err(format!("{path}: got {x}, expected {y}"))
            }
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Err(format!(
                    "{path}: got {} elements, expected {}\n  got:      {a}\n  expected: {b}",
                    x.len(),
                    y.len()
                ));
            }
            for (i, (p, q)) in x.iter().zip(y).enumerate() {
                json_close_tol(p, q, &format!("{path}[{i}]"), tol)?;
            }
            Ok(())
        }
        (Value::Object(x), Value::Object(y)) => {
            for (k, p) in x {
                match y.get(k) {
                    Some(q) => json_close_tol(p, q, &format!("{path}.{k}"), tol)?,
                    None => return Err(format!("{path}: unexpected key {k:?} = {p}")),
                }
            }
            for (k, q) in y {
                if !x.contains_key(k) {
                    return Err(format!("{path}: missing key {k:?} (expected {q})"));
                }
            }
            Ok(())
        }
        _ if a == b => Ok(()),
        _ => Err(format!("{path}: got {a}, expected {b}")),
    }
}

/// Windows-1252 bytes of a text, if it has them.
pub fn to_win1252(text: &str) -> Option<Vec<u8>> {
    const HIGH: [char; 32] = [
        '€', '\u{81}', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '\u{8d}', 'Ž',
        '\u{8f}', '\u{90}', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '\u{9d}',
        'ž', 'Ÿ',
    ];
    text.chars()
        .map(|c| {
            let u = c as u32;
            if u < 0x80 || (0xa0..=0xff).contains(&u) {
                Some(u as u8)
            } else {
                HIGH.iter().position(|h| *h == c).map(|i| 0x80 + i as u8)
            }
        })
        .collect()
}

/// Line layout of a text file: line ending, blank and comment lines, separators.
#[derive(Clone)]
pub struct Layout {
    pub nl: &'static str,
    pub comment: &'static [&'static str],
    pub noise: u64,
}
impl Layout {
    pub fn new(s: &mut Src, comment: &'static [&'static str]) -> Self {
        Layout { nl: if s.chance(1, 4) { "\r\n" } else { "\n" }, comment, noise: s.draw(4) }
    }
    pub fn comment_text(&self, s: &mut Src) -> String {
        let body = s.pick(&[" note", "", "; x", " [GEO]", " N048.20.26.408 E011.45.03.661", "=====;", " #define a 1", " ä", " \"q"]);
        format!("{}{body}", s.pick(self.comment))
    }
    /// End of a record line: optional trailing blanks and comment, newline, optional blank or
    /// comment lines.
    pub fn eol(&self, s: &mut Src, trailing_comment: bool) -> String {
        let mut out = String::new();
        if self.noise > 0 && s.chance(self.noise, 12) {
            out.push_str(s.pick(&[" ", "\t", "  "]));
        }
        if trailing_comment && self.noise > 0 && !self.comment.is_empty() && s.chance(self.noise, 16) {
            out.push(' ');
            out.push_str(&self.comment_text(s));
        }
        out.push_str(self.nl);
        while self.noise > 0 && s.chance(self.noise, 16) {
            match s.draw(3) {
                0 => out.push_str(self.nl),
                1 if !self.comment.is_empty() => {
                    out.push_str(&self.comment_text(s));
                    out.push_str(self.nl);
                }
                _ => {
                    out.push_str("  ");
                    out.push_str(self.nl);
                }
            }
        }
        out
    }
    pub fn sep(&self, s: &mut Src) -> &'static str {
        if self.noise == 0 {
            " "
        } else {
            *s.pick(&[" ", "  ", "\t", "     ", " \t "])
        }
    }
    pub fn indent(&self, s: &mut Src) -> &'static str {
        if self.noise > 0 && s.chance(self.noise, 12) {
            *s.pick(&[" ", "\t", "    "])
        } else {
            ""
        }
    }
}
