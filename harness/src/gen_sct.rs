//! Model of a sector file: records, rendering with layout noise, expected parse result.
use std::collections::HashMap;

use crate::engine::Src;
use crate::gen::*;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::locations::{Fix, Runway, NDB, VOR};
use vatsim_parser::sct::{
    Airport, Airway, Artcc, ColouredLines, Geo, Label, Region, Sct, SctInfo, Sid, Star,
};
use vatsim_parser::topsky::map::MapLine;
use vatsim_parser::Location;

#[derive(Clone, Debug)]
pub struct Seg {
    pub start: Loc,
    pub end: Loc,
    pub colour: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Drawing {
    pub name: String,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug)]
pub enum Rec {
    Vor(String, String, Dms),
    Ndb(String, String, Dms),
    Fix(String, Dms),
    Broken(String),
    Airport(String, Option<String>, Dms, char),
    Runway { d: (String, String), h: (u32, u32), c: (Dms, Dms), ap: String, rest: String },
    Airway(String, Loc, Loc),
    Drawing(Drawing),
    Region(String, String, Vec<Dms>),
    Label(String, Dms, String),
    Colour(String, i64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Vor,
    Ndb,
    Fixes,
    Airport,
    Runway,
    Sid,
    Star,
    ArtccHigh,
    Artcc,
    ArtccLow,
    Geo,
    Regions,
    Labels,
    HighAirway,
    LowAirway,
}
pub const KINDS: [Kind; 15] = [
    Kind::Vor,
    Kind::Ndb,
    Kind::Fixes,
    Kind::Airport,
    Kind::Runway,
    Kind::Sid,
    Kind::Star,
    Kind::ArtccHigh,
    Kind::Artcc,
    Kind::ArtccLow,
    Kind::Geo,
    Kind::Regions,
    Kind::Labels,
    Kind::HighAirway,
    Kind::LowAirway,
];

#[derive(Clone, Debug)]
pub struct Info {
    pub name: String,
    pub callsign: String,
    pub airport: String,
    pub centre: Dms,
    pub nums: Vec<String>,
    pub colours_before: Vec<(String, i64)>,
    pub colours_after: Vec<(String, i64)>,
}
#[derive(Clone, Debug)]
pub enum Part {
    Info(Info),
    Section(Kind, Vec<Rec>),
    Colour(String, i64),
}
#[derive(Clone, Debug)]
pub struct SctModel {
    pub parts: Vec<Part>,
}

pub struct Opts {
    /// Non-ASCII characters in free text.
    pub unicode: bool,
    pub info: u64,
    pub max_recs: usize,
    pub repeat_sections: bool,
    pub broken: bool,
    /// Segments of a drawing, points of a region.
    pub max_len: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { unicode: true, info: 3, max_recs: 5, repeat_sections: true, broken: true, max_len: 6 }
    }
}

pub fn colour_name(s: &mut Src) -> String {
    match s.weighted(&[15, 6, 1]) {
        0 => s.pick(&["colour_APP", "COLOR_Stopbar", "red", "a-b", "taxi_1", "Map_Info", "G1"]).to_string(),
        1 => s.word(1, 8, "abcXYZ019_-"),
        _ => s.word(9, 40, "abcXYZ019_-"),
    }
}

fn colour_value(s: &mut Src) -> i64 {
    match s.weighted(&[5, 2, 1]) {
        0 => s.int(0, 0xff_ffff),
        1 => *s.pick(&[0, 255, 256, 65_280, 16_711_680, 16_777_215]),
        // not a colour: the definition is ignored
        _ => *s.pick(&[16_777_216, 2_147_483_647]),
    }
}

/// Free-text drawing name: words, none of which is a prefix of the next (a doubled word would
/// read as a fix), none containing brackets.
pub fn drawing_name(s: &mut Src, unicode: bool) -> String {
    let words = s.vec(1, 4, |s| match s.weighted(&[15, 6, 6, if unicode { 6 } else { 0 }, 1]) {
        0 => s
            .pick(&["EDDM", "SID", "26R", "STAR", "GIVMI1N", "AoR", "Taxiway", "APP", "CTR-2", "(old)", "Holding", "x_y", "EDDM/EDDF", "a:b", "A.1"])
            .to_string(),
        1 => s.word(1, 6, "abcdefgh"),
        2 => s.word(1, 4, UPPER_DIGIT),
        3 => s.word(1, 5, "aMüßéñÅ°ł"),
        _ => s.word(10, 40, "abcdefgh"),
    });
    let mut out: Vec<String> = vec![];
    for w in words {
        if let Some(last) = out.last() {
            let run: String = last.chars().rev().take_while(|c| c.is_ascii_uppercase() || c.is_ascii_digit()).collect();
            if !run.is_empty() && run.len() == last.len() && w.starts_with(last.as_str()) {
                continue;
            }
        }
        out.push(w);
    }
    out.join(" ")
}

fn free_text(s: &mut Src, unicode: bool) -> String {
    let a: Vec<char> = "AbcdEFG 0123/-_.();:"
        .chars()
        .chain(if unicode { "äöüéß€·ł".chars() } else { "".chars() })
        .collect();
    let first: Vec<char> = "AbcdEFG0123(".chars().collect();
    let mut t = String::new();
    if s.chance(1, 12) {
        return t;
    }
    t.push(*s.pick(&first));
    let max = if s.chance(1, 12) { 70 } else { 12 };
    t.push_str(&s.string(0, max, &a));
    let mut t = t.trim_end().to_string();
    // (blanks before the text are not part of it, blanks after it are)
    if s.chance(1, 12) {
        t.push_str(*s.pick(if unicode { &[" ", "  ", "\u{a0}", " \u{a0}"][..] } else { &[" ", "  ", "   "][..] }));
    }
    t
}

fn decimal(s: &mut Src) -> String {
    match s.weighted(&[4, 3, 1, 1, 1]) {
        0 => format!("{}", s.int(0, 90)),
        1 => format!("{}.{}", s.int(0, 90), s.int(0, 999)),
        2 => format!("-{}.{}", s.int(0, 9), s.int(0, 99)),
        3 => format!("{}{}.{}", s.pick(&["", "-", "+"]), s.int(0, 99_999), s.word(4, 9, "0123456789")),
        _ => s.pick(&["+1.5", "-3", ".5", "0", "-0.25"]).to_string(),
    }
}

fn frequency(s: &mut Src) -> String {
    match s.weighted(&[16, 1, 1]) {
        0 => format!("{}.{:03}", s.int(108, 500), s.int(0, 999)),
        1 => format!("{}", s.int(0, 1_999)),
        _ => format!("{}.{}", s.int(0, 99_999), s.word(1, 8, "0123456789")),
    }
}

pub fn loc(s: &mut Src) -> Loc {
    match s.weighted(&[4, 3, 3]) {
        0 => Loc::At(grid_dms(s)),
        1 => Loc::At(dms(s)),
        _ => Loc::Fix(fix_name(s)),
    }
}

pub fn segs(s: &mut Src, max: usize) -> Vec<Seg> {
    let mut last: Option<Loc> = None;
    let colours = [None, Some(colour_name(s)), Some(colour_name(s))];
    s.vec(1, max, |s| {
        let start = match &last {
            // continue the previous line
            Some(l) if !s.chance(1, 3) => l.clone(),
            _ => loc(s),
        };
        let end = if s.chance(1, 10) { start.clone() } else { loc(s) };
        last = Some(end.clone());
        Seg { start, end, colour: colours[s.weighted(&[4, 3, 1])].clone() }
    })
}

pub fn rec(s: &mut Src, kind: Kind, o: &Opts) -> Rec {
    match kind {
        Kind::Vor => Rec::Vor(fix_name(s), frequency(s), dms(s)),
        Kind::Ndb if o.broken && s.chance(1, 10) => Rec::Broken(broken(s)),
        Kind::Fixes if o.broken && s.chance(1, 10) => Rec::Broken(broken(s)),
        Kind::Ndb => Rec::Ndb(fix_name(s), frequency(s), dms(s)),
        Kind::Fixes => {
            let n = match s.weighted(&[6, 2]) {
                0 => fix_name(s),
                _ => odd_fix(s, o.unicode),
            };
            Rec::Fix(n, dms(s))
        }
        Kind::Airport => {
            let freq = match s.weighted(&[4, 2, 1]) {
                0 => Some(frequency(s)),
                1 => None,
                _ => Some(".".to_string()),
            };
            Rec::Airport(icao(s), freq, dms(s), *s.pick(&['A', 'B', 'C', 'D', 'E', 'F', 'G']))
        }
        Kind::Runway => Rec::Runway {
            d: (runway_designator(s), runway_designator(s)),
            h: (s.int(0, 360) as u32, s.int(0, 360) as u32),
            c: (dms(s), dms(s)),
            ap: icao(s),
            rest: if s.chance(1, 4) { s.pick(&["Muenchen", "Belfast/City", "Bad Ems", "-"]).to_string() } else { String::new() },
        },
        Kind::HighAirway | Kind::LowAirway => {
            let n = match s.weighted(&[4, 1]) {
                0 if s.chance(1, 12) => s.word(8, 40, UPPER_DIGIT),
                0 => format!("{}{}", s.pick(&["L", "UL", "T", "Z"]), s.int(1, 999)),
                _ => odd_fix(s, o.unicode),
            };
            Rec::Airway(n, loc(s), loc(s))
        }
        Kind::Regions => Rec::Region(
            drawing_name(s, o.unicode),
            colour_name(s),
            {
                let mut pts = s.vec(1, o.max_len, dms);
                // closed explicitly, or the same point again
                if s.chance(1, 4) {
                    pts.push(pts[0]);
                }
                if s.chance(1, 6) {
                    let i = s.idx(pts.len());
                    pts.insert(i, pts[i]);
                }
                pts
            },
        ),
        Kind::Labels => Rec::Label(free_text(s, o.unicode), dms(s), colour_name(s)),
        _ => {
            let segs = segs(s, o.max_len);
            let mut name = drawing_name(s, o.unicode);
            // "X" before the fix "X X" (or "XY XY") would read as a fix itself
            let last = name.rsplit(' ').next().unwrap_or("").to_string();
            if let Loc::Fix(f) = &segs[0].start {
                if f.starts_with(&last) {
                    name.push_str(" x");
                }
            }
            Rec::Drawing(Drawing { name, segs })
        }
    }
}

/// Every character that the name of a fix can have.
fn odd_fix(s: &mut Src, unicode: bool) -> String {
    let mut n = if unicode && s.bool() {
        format!("{}{}", s.word(1, 1, "AZaz09ÄéßŁΩя"), s.word(0, 6, "ABCZazxy0189!()/-_.[]ÄéßŁΩя中"))
    } else {
        format!("{}{}", s.word(1, 1, "ABCaz09!(-_./]"), s.word(0, 6, "ABCZazxy0189!()/-_.[]"))
    };
    // the start of a comment
    while n.contains("//") {
        n = n.replace("//", "/");
    }
    n
}

fn broken(s: &mut Src) -> String {
    s.pick(&["AB CD N048.20.26.408 E011.45.03.661", "FOO", "X N048.20.26.408", "(A) N12 E13", "BROKEN LINE HERE", "é N048.20.26.408"])
        .to_string()
}

fn info(s: &mut Src, o: &Opts) -> Info {
    let colours = |s: &mut Src| {
        if s.chance(1, 4) {
            s.vec(0, 2, |s| (colour_name(s), colour_value(s)))
        } else {
            vec![]
        }
    };
    let mut name = drawing_name(s, o.unicode).replace('°', "").trim().to_string();
    if name.is_empty() {
        name = "EDMM".into();
    }
    Info {
        name,
        callsign: s.word(1, 8, "ABXYZ_019ab"),
        airport: s.word(4, 4, UPPER),
        centre: dms(s),
        nums: {
            let n = if s.chance(1, 4) { 3 } else { 4 };
            (0..n).map(|_| decimal(s)).collect()
        },
        colours_before: colours(s),
        colours_after: colours(s),
    }
}

pub fn model(s: &mut Src, o: &Opts) -> SctModel {
    let mut parts = vec![];
    let mut kinds: Vec<Kind> = vec![];
    for k in KINDS {
        if s.chance(1, 2) {
            kinds.push(k);
            if o.repeat_sections && s.chance(1, 10) {
                kinds.push(k);
            }
        }
    }
    if s.chance(1, 2) {
        s.shuffle(&mut kinds);
    }
    let info_at = s.draw(4) < o.info;
    let colour_parts = |s: &mut Src, parts: &mut Vec<Part>| {
        while s.chance(1, 6) {
            parts.push(Part::Colour(colour_name(s), colour_value(s)));
        }
    };
    colour_parts(s, &mut parts);
    let info_pos = if info_at { Some(if s.chance(1, 6) { s.idx(kinds.len() + 1) } else { 0 }) } else { None };
    for (i, k) in kinds.iter().enumerate() {
        if info_pos == Some(i) {
            parts.push(Part::Info(info(s, o)));
            colour_parts(s, &mut parts);
        }
        let mut recs = vec![];
        for r in s.vec(0, o.max_recs, |s| rec(s, *k, o)) {
            if s.chance(1, 12) {
                recs.push(Rec::Colour(colour_name(s), colour_value(s)));
            }
            recs.push(r);
        }
        // the same record again
        if !recs.is_empty() && s.chance(1, 6) {
            let again = s.pick(&recs).clone();
            let i = s.idx(recs.len() + 1);
            recs.insert(i, again);
        }
        parts.push(Part::Section(*k, recs));
    }
    if info_pos.is_some_and(|p| p >= kinds.len()) {
        parts.push(Part::Info(info(s, o)));
    }
    SctModel { parts }
}

pub fn heading(s: &mut Src, k: Kind) -> &'static str {
    match k {
        Kind::Vor => "[VOR]",
        Kind::Ndb => "[NDB]",
        Kind::Fixes => "[FIXES]",
        Kind::Airport => "[AIRPORT]",
        Kind::Runway => "[RUNWAY]",
        Kind::Sid => "[SID]",
        Kind::Star => "[STAR]",
        Kind::ArtccHigh => "[ARTCC HIGH]",
        Kind::Artcc => "[ARTCC]",
        Kind::ArtccLow => "[ARTCC LOW]",
        Kind::Geo => "[GEO]",
        Kind::Regions => {
            if s.bool() {
                "[Regions]"
            } else {
                "[REGIONS]"
            }
        }
        Kind::Labels => "[LABELS]",
        Kind::HighAirway => "[HIGH AIRWAY]",
        Kind::LowAirway => "[LOW AIRWAY]",
    }
}

fn coord_text(s: &mut Src, l: &Layout, c: &Dms) -> String {
    format!("{}{}{}", c.lat_text(s), l.sep(s), c.lng_text(s))
}
fn loc_text(s: &mut Src, l: &Layout, loc: &Loc) -> String {
    match loc {
        Loc::Fix(f) => format!("{f}{}{f}", l.sep(s)),
        Loc::At(c) => coord_text(s, l, c),
    }
}
fn colour_line(s: &mut Src, l: &Layout, name: &str, v: i64) -> String {
    let plus = if s.chance(1, 12) { "+" } else { "" };
    format!("#define{}{name}{}{plus}{v}", l.sep(s), l.sep(s))
}

impl SctModel {
    pub fn render(&self, s: &mut Src) -> String {
        let l = Layout::new(s, &[";", "//"]);
        self.render_with(s, &l)
    }
    pub fn render_with(&self, s: &mut Src, l: &Layout) -> String {
        let mut out = String::new();
        if l.noise > 0 && s.chance(1, 10) {
            out.push('\u{feff}');
        }
        if l.noise > 0 && s.chance(1, 3) {
            out.push_str(&l.comment_text(s));
            out.push_str(&l.eol(s, false));
        }
        for p in &self.parts {
            match p {
                Part::Colour(n, v) => {
                    out.push_str(&colour_line(s, l, n, *v));
                    out.push_str(&l.eol(s, true));
                }
                Part::Info(i) => {
                    out.push_str("[INFO]");
                    out.push_str(&l.eol(s, true));
                    for (n, v) in &i.colours_before {
                        out.push_str(&colour_line(s, l, n, *v));
                        out.push_str(&l.eol(s, true));
                    }
                    out.push_str(l.indent(s));
                    out.push_str(&i.name);
                    out.push_str(l.nl);
                    for t in [&i.callsign, &i.airport] {
                        out.push_str(l.indent(s));
                        out.push_str(t);
                        out.push_str(&l.eol(s, true));
                    }
                    out.push_str(&i.centre.lat_text(s));
                    out.push_str(&l.eol(s, true));
                    out.push_str(&i.centre.lng_text(s));
                    out.push_str(&l.eol(s, true));
                    for t in &i.nums {
                        out.push_str(l.indent(s));
                        out.push_str(t);
                        out.push_str(&l.eol(s, true));
                    }
                    for (n, v) in &i.colours_after {
                        out.push_str(&colour_line(s, l, n, *v));
                        out.push_str(&l.eol(s, true));
                    }
                }
                Part::Section(k, recs) => {
                    out.push_str(heading(s, *k));
                    out.push_str(&l.eol(s, true));
                    for r in recs {
                        out.push_str(l.indent(s));
                        out.push_str(&render_rec(s, l, r));
                    }
                }
            }
        }
        // a final newline is not required
        if l.noise > 0 && s.chance(1, 4) {
            while out.ends_with('\n') || out.ends_with('\r') {
                out.pop();
            }
        }
        out
    }

    pub fn expected(&self) -> Sct {
        let mut e = Sct {
            info: SctInfo::default(),
            colours: HashMap::new(),
            airports: vec![],
            fixes: vec![],
            ndbs: vec![],
            vors: vec![],
            runways: vec![],
            sids: vec![],
            stars: vec![],
            artccs_high: vec![],
            artccs: vec![],
            artccs_low: vec![],
            high_airways: vec![],
            low_airways: vec![],
            regions: vec![],
            labels: vec![],
            geo: vec![],
        };
        let put = |m: &mut HashMap<String, Colour>, n: &str, v: i64| {
            if v <= 0xff_ffff {
                m.insert(
                    n.to_string(),
                    Colour::from_rgb((v & 255) as u8, (v >> 8 & 255) as u8, (v >> 16) as u8),
                );
            }
        };
        for p in &self.parts {
            match p {
                Part::Colour(n, v) => put(&mut e.colours, n, *v),
                Part::Info(i) => {
                    for (n, v) in i.colours_before.iter().chain(&i.colours_after) {
                        put(&mut e.colours, n, *v);
                    }
                    let num = |k: usize| i.nums.get(k).map_or(0.0, |t| t.parse::<f64>().unwrap());
                    e.info = SctInfo {
                        name: i.name.clone(),
                        default_callsign: i.callsign.clone(),
                        default_airport: i.airport.clone(),
                        centre_point: i.centre.point(),
                        miles_per_deg_lat: num(0),
                        miles_per_deg_lng: num(1),
                        magnetic_variation: num(2),
                        scale_factor: num(3),
                    };
                }
                Part::Section(k, recs) => {
                    for r in recs {
                        match r {
                            Rec::Colour(n, v) => put(&mut e.colours, n, *v),
                            Rec::Broken(_) => {}
                            Rec::Vor(d, f, c) => e.vors.push(VOR {
                                designator: d.clone(),
                                frequency: f.clone(),
                                coordinate: c.point(),
                            }),
                            Rec::Ndb(d, f, c) => e.ndbs.push(NDB {
                                designator: d.clone(),
                                frequency: f.clone(),
                                coordinate: c.point(),
                            }),
                            Rec::Fix(d, c) => {
                                e.fixes.push(Fix { designator: d.clone(), coordinate: c.point() })
                            }
                            Rec::Airport(d, _, c, a) => e.airports.push(Airport {
                                designator: d.clone(),
                                coordinate: c.point(),
                                ctr_airspace: a.to_string(),
                            }),
                            Rec::Runway { d, h, c, ap, .. } => e.runways.push(Runway {
                                designators: d.clone(),
                                headings: *h,
                                location: (c.0.point(), c.1.point()),
                                aerodrome: ap.clone(),
                            }),
                            Rec::Airway(d, a, b) => {
                                let v = Airway {
                                    designator: d.clone(),
                                    start: a.value(),
                                    end: b.value(),
                                };
                                if *k == Kind::HighAirway {
                                    e.high_airways.push(v)
                                } else {
                                    e.low_airways.push(v)
                                }
                            }
                            Rec::Region(n, col, pts) => e.regions.push(Region {
                                name: n.clone(),
                                colour_name: col.clone(),
                                polygon: pts.iter().map(Dms::coord).collect(),
                            }),
                            Rec::Label(n, c, col) => e.labels.push(Label {
                                name: n.clone(),
                                coordinate: Location::Coordinate(c.point()),
                                colour_name: col.clone(),
                            }),
                            Rec::Drawing(d) => {
                                let name = d.name.clone();
                                let line_groups = groups(&d.segs);
                                match k {
                                    Kind::Sid => e.sids.push(Sid { name, line_groups }),
                                    Kind::Star => e.stars.push(Star { name, line_groups }),
                                    Kind::ArtccHigh => e.artccs_high.push(Artcc { name, line_groups }),
                                    Kind::Artcc => e.artccs.push(Artcc { name, line_groups }),
                                    Kind::ArtccLow => e.artccs_low.push(Artcc { name, line_groups }),
                                    _ => e.geo.push(Geo { name, line_groups }),
                                }
                            }
                        }
                    }
                }
            }
        }
        e
    }
}

/// Consecutive segments of one colour form a group; within it a segment that starts where the
/// previous one ended extends that line; a segment without length is a single point.
pub fn groups(segs: &[Seg]) -> Vec<ColouredLines> {
    let mut out: Vec<(Option<String>, Vec<Vec<Loc>>)> = vec![];
    for seg in segs {
        if out.last().map(|g| &g.0) != Some(&seg.colour) {
            out.push((seg.colour.clone(), vec![]));
        }
        let lines = &mut out.last_mut().unwrap().1;
        let joins = lines.last().and_then(|l| l.last()) == Some(&seg.start);
        if !joins {
            lines.push(vec![seg.start.clone()]);
        }
        if seg.end != seg.start {
            lines.last_mut().unwrap().push(seg.end.clone());
        }
    }
    out.into_iter()
        .map(|(colour_name, lines)| ColouredLines {
            colour_name,
            lines: lines
                .into_iter()
                .map(|l| MapLine { points: l.iter().map(Loc::value).collect() })
                .collect(),
        })
        .collect()
}

pub fn render_rec(s: &mut Src, l: &Layout, r: &Rec) -> String {
    let mut out = String::new();
    match r {
        Rec::Colour(n, v) => out.push_str(&colour_line(s, l, n, *v)),
        Rec::Broken(t) => {
            out.push_str(t);
            out.push_str(l.nl);
            return out;
        }
        Rec::Vor(d, f, c) | Rec::Ndb(d, f, c) => {
            out.push_str(&format!("{d}{}{f}{}{}", l.sep(s), l.sep(s), coord_text(s, l, c)));
        }
        Rec::Fix(d, c) => out.push_str(&format!("{d}{}{}", l.sep(s), coord_text(s, l, c))),
        Rec::Airport(d, f, c, a) => {
            let f = f.as_ref().map(|f| format!("{}{f}", l.sep(s))).unwrap_or_default();
            out.push_str(&format!("{d}{f}{}{}{}{a}", l.sep(s), coord_text(s, l, c), l.sep(s)));
        }
        Rec::Runway { d, h, c, ap, rest } => {
            out.push_str(&format!(
                "{}{}{}{}{:03}{}{:03}{}{}{}{}{}{}",
                d.0, l.sep(s), d.1, l.sep(s), h.0, l.sep(s), h.1, l.sep(s),
                coord_text(s, l, &c.0), l.sep(s), coord_text(s, l, &c.1), l.sep(s), ap
            ));
            if !rest.is_empty() {
                out.push(' ');
                out.push_str(rest);
            }
        }
        Rec::Airway(d, a, b) => out.push_str(&format!(
            "{d}{}{}{}{}", l.sep(s), loc_text(s, l, a), l.sep(s), loc_text(s, l, b)
        )),
        Rec::Label(n, c, col) => out.push_str(&format!(
            "\"{n}\"{}{}{}{col}", l.sep(s), coord_text(s, l, c), l.sep(s)
        )),
        Rec::Region(n, col, pts) => {
            // the first line may do without the keyword and stand before the first point
            match if l.noise > 0 { s.weighted(&[12, 1, 1]) } else { 0 } {
                0 => {
                    out.push_str(&format!("REGIONNAME {n}"));
                    out.push_str(l.nl);
                }
                1 => {
                    out.push_str(n);
                    out.push_str(l.nl);
                }
                _ => out.push_str(&format!("REGIONNAME {n}\t")),
            }
            out.push_str(&format!("{}{col}{}{}", l.indent(s), l.sep(s), coord_text(s, l, &pts[0])));
            for p in &pts[1..] {
                out.push_str(&l.eol(s, true));
                out.push_str(&format!("{}{}", l.indent(s), coord_text(s, l, p)));
            }
        }
        Rec::Drawing(d) => {
            out.push_str(&d.name);
            out.push_str(l.sep(s));
            for (i, g) in d.segs.iter().enumerate() {
                if i > 0 {
                    out.push_str(&l.eol(s, true));
                    out.push_str(l.indent(s));
                }
                out.push_str(&format!("{}{}{}", loc_text(s, l, &g.start), l.sep(s), loc_text(s, l, &g.end)));
                if let Some(c) = &g.colour {
                    out.push_str(&format!("{}{c}", l.sep(s)));
                }
            }
        }
    }
    out.push_str(&l.eol(s, true));
    out
}
