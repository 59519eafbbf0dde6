//! Model of an ese file: records, rendering with layout noise, expected parse result.
use std::collections::HashMap;

use crate::engine::Src;
use crate::gen::*;
use geo::{Coord, LineString};
use vatsim_parser::adaptation::maps::active::RunwayIdentifier;
use vatsim_parser::ese::{Constraint, Ese, Position, Sector, SectorLine, SidStar, SID, STAR};

/// A coordinate in either notation.
#[derive(Clone, Debug, PartialEq)]
pub enum Pt {
    At(Dms),
    /// Decimal texts of latitude and longitude.
    Dec(String, String),
}
impl Pt {
    pub fn coord(&self) -> Coord {
        match self {
            Pt::At(d) => d.coord(),
            Pt::Dec(a, b) => Coord { y: a.parse().unwrap(), x: b.parse().unwrap() },
        }
    }
    pub fn text(&self, s: &mut Src) -> String {
        match self {
            Pt::At(d) => format!("{}:{}", d.lat_text(s), d.lng_text(s)),
            Pt::Dec(a, b) => format!("{a}:{b}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Pos {
    pub name: String,
    pub callsign: String,
    pub frequency: String,
    pub identifier: String,
    pub middle: String,
    pub prefix: String,
    pub suffix: String,
    pub unused: (String, String),
    pub squawk: Squawk,
    pub points: Vec<Pt>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Squawk {
    Range(u16, u16),
    /// `::`
    Empty,
    /// Not a range of codes that fits.
    Huge,
}

#[derive(Clone, Debug)]
pub enum Setting {
    Owner(Vec<String>),
    AltOwner(String, Vec<String>),
    Border(Vec<String>),
    Guest(String, String, String),
    Active(String, String),
    DepApt(Vec<String>),
    ArrApt(Vec<String>),
}
#[derive(Clone, Debug)]
pub enum Air {
    /// Display lines are given with the number of coordinates before them.
    Line { id: String, points: Vec<Pt>, displays: Vec<(usize, [String; 3])> },
    Circle { id: String, fix: String, radius: String, displays: Vec<[String; 3]> },
    DisplayLine([String; 4]),
    Sector { id: String, bottom: u32, top: u32, settings: Vec<Setting> },
    Cop { fir: bool, c: Constraint },
    Msaw { id: String, level: u32, points: Vec<Pt> },
}
#[derive(Clone, Debug)]
pub struct Proc {
    pub sid: bool,
    pub airport: String,
    pub runway: Option<String>,
    pub name: String,
    pub route: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Section {
    Positions(Vec<Pos>),
    Airspace(Vec<Air>),
    SidsStars(Vec<Proc>),
    Other(String, Vec<String>),
}
#[derive(Clone, Debug, Default)]
pub struct EseModel {
    pub sections: Vec<Section>,
}

pub struct Opts {
    pub unicode: bool,
    pub max_recs: usize,
    /// Other sections, repeats, ignored records.
    pub noise: bool,
    /// Points of a line, names in a list, waypoints of a route (a handful more or less).
    pub max_len: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { unicode: true, max_recs: 6, noise: true, max_len: 6 }
    }
}

/// Text of one colon-delimited field.
pub fn field(s: &mut Src, o: &Opts) -> String {
    match s.weighted(&[4, 2, 2, if o.unicode { 2 } else { 0 }]) {
        0 => s.pick(&["ALB", "EDMM", "Muenchen Radar", "EDMM_ALB_CTR", "-", "APP", "x/y (z)", "A*B", "[1]", "a,b", "COPX"]).to_string(),
        1 => s.word(0, 5, UPPER_DIGIT),
        2 => s.word(1, 6, "abcXYZ019_/.-+'\"\\=,@#!?&()[]<>|^~%"),
        _ => format!("{}{}", s.word(1, 2, "EDMA"), s.word(1, 6, "·äöüßÉ·A1ł€")),
    }
    .replace("//", "/")
}

pub fn sector_id(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(&["EDMM·ALB·000·105", "EDMM·ALB·105·245", "EDMM·BBG·245·315", "EDGG·KTG·000·245", "A", "B", "C"]).to_string(),
        1 => s.word(1, 3, "ABC"),
        _ => s.word(1, 8, "EDM·019abc#"),
    }
}
pub fn line_id(s: &mut Src) -> String {
    match s.weighted(&[5, 1]) {
        0 => s.int(1, 8).to_string(),
        _ => s.word(1, 4, "12AB_·"),
    }
}
pub fn owner(s: &mut Src) -> String {
    match s.weighted(&[6, 1]) {
        0 => s.pick(&["ALB", "BBG", "KTG", "FRK", "TEG", "DMVL"]).to_string(),
        _ => s.word(1, 4, UPPER_DIGIT),
    }
}
pub fn designator(s: &mut Src) -> String {
    match s.weighted(&[4, 1]) {
        0 => icao(s),
        _ => s.word(1, 6, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-"),
    }
}
fn decimal_part(s: &mut Src, max: i64) -> String {
    let sign = *s.pick(&["", "", "-", "+"]);
    match s.weighted(&[4, 1]) {
        0 => format!("{sign}{}.{}", s.int(0, max), s.word(1, 6, "0123456789")),
        _ => format!("{sign}.{}", s.word(1, 3, "0123456789")),
    }
}
pub fn pt(s: &mut Src) -> Pt {
    match s.weighted(&[5, 2, 2]) {
        0 => Pt::At(dms(s)),
        1 => Pt::At(grid_dms(s)),
        _ => Pt::Dec(decimal_part(s, 90), decimal_part(s, 180)),
    }
}
pub fn level(s: &mut Src) -> u32 {
    match s.weighted(&[5, 2, 1]) {
        0 => s.int(0, 66) as u32 * 1000,
        1 => s.int(0, 99_999) as u32,
        _ => *s.pick(&[0, 1, 999_999_999]),
    }
}

pub fn constraint(s: &mut Src, o: &Opts) -> Constraint {
    fn place(s: &mut Src) -> String {
        match s.weighted(&[8, 1, 1]) {
            0 => fix_name(s),
            1 => s.word(0, 6, "ABCabc019-_./()[] ").trim().replace("//", "/"),
            _ => s.pick(&["ÄRMUT", "N048.00.00.000", "A*", "-", "COPX"]).to_string(),
        }
    }
    fn rwy(s: &mut Src) -> String {
        if s.chance(1, 8) { designator(s) } else { runway_designator(s) }
    }
    fn sector(s: &mut Src, o: &Opts) -> String {
        if s.chance(1, 10) { field(s, o) } else { sector_id(s) }
    }
    let wild = |s: &mut Src, f: fn(&mut Src) -> String| if s.chance(1, 2) { Some(f(s)) } else { None };
    Constraint {
        previous_fix: wild(s, place),
        departure_runway: wild(s, rwy),
        fix: wild(s, place),
        subsequent_fix: wild(s, place),
        arrival_runway: wild(s, rwy),
        exit_sector: sector(s, o),
        entry_sector: sector(s, o),
        climb_level: if s.chance(1, 2) { Some(level(s)) } else { None },
        descent_level: if s.chance(1, 2) { Some(level(s)) } else { None },
        description: field(s, o),
        coord_timing: None,
    }
}

pub fn position(s: &mut Src, o: &Opts) -> Pos {
    Pos {
        name: field(s, o),
        callsign: field(s, o),
        frequency: match s.weighted(&[5, 1]) {
            0 => format!("{}.{:03}", s.int(118, 137), s.int(0, 999)),
            _ => s.pick(&["199.998", "0", "-1.5", "+122.8", ".5", "123"]).to_string(),
        },
        identifier: match s.weighted(&[4, 1]) {
            0 => owner(s),
            _ => field(s, o),
        },
        middle: field(s, o),
        prefix: field(s, o),
        suffix: field(s, o),
        unused: (s.pick(&["", "-", "x"]).to_string(), s.pick(&["", "-", "y"]).to_string()),
        squawk: match s.weighted(&[5, 3, 1]) {
            0 => {
                let a = s.int(0, 7777) as u16;
                Squawk::Range(a, s.int(0, 7777) as u16)
            }
            1 => Squawk::Empty,
            _ => Squawk::Huge,
        },
        points: s.vec(0, 4, pt),
    }
}

pub fn setting(s: &mut Src, o: &Opts) -> Setting {
    match s.weighted(&[4, 1, 4, 1, 2, 2, 2]) {
        0 => Setting::Owner(s.vec(1, o.max_len - 2, owner)),
        1 => Setting::AltOwner(field(s, o), s.vec(1, o.max_len - 3, owner)),
        2 => Setting::Border(s.vec(1, o.max_len - 1, line_id)),
        3 => Setting::Guest(
            field(s, o),
            if s.bool() { "*".into() } else { designator(s) },
            if s.bool() { "*".into() } else { designator(s) },
        ),
        4 => Setting::Active(icao(s), if s.chance(1, 6) { designator(s) } else { runway_designator(s) }),
        5 => Setting::DepApt(s.vec(1, o.max_len - 3, designator)),
        _ => Setting::ArrApt(s.vec(1, o.max_len - 3, designator)),
    }
}

fn three(s: &mut Src) -> [String; 3] {
    [sector_id(s), sector_id(s), sector_id(s)]
}

pub fn air(s: &mut Src, o: &Opts) -> Air {
    match s.weighted(&[5, if o.noise { 1 } else { 0 }, if o.noise { 1 } else { 0 }, 4, 3, if o.noise { 1 } else { 0 }]) {
        0 => {
            let points = s.vec(0, o.max_len, pt);
            let n = points.len();
            let mut displays = if o.noise { s.vec(0, 3, |s| (s.us(0, n), three(s))) } else { vec![] };
            displays.sort_by_key(|d| d.0);
            Air::Line { id: line_id(s), points, displays }
        }
        1 => Air::Circle {
            id: line_id(s),
            fix: if s.bool() {
                fix_name(s)
            } else {
                format!("{}{}", s.word(1, 1, "ABaz09"), s.word(0, 6, "ABCxyz019()/-_.é")).replace("//", "/")
            },
            radius: s.pick(&["5", "2.5", "10.0", ".5", "+3"]).to_string(),
            displays: s.vec(0, 2, three),
        },
        2 => Air::DisplayLine([line_id(s), sector_id(s), sector_id(s), sector_id(s)]),
        3 => Air::Sector { id: sector_id(s), bottom: level(s), top: level(s), settings: s.vec(0, o.max_len, |s| setting(s, o)) },
        4 => Air::Cop { fir: s.chance(1, 3), c: constraint(s, o) },
        _ => Air::Msaw { id: field(s, o), level: level(s), points: s.vec(1, o.max_len - 2, pt) },
    }
}

pub fn procedure(s: &mut Src, o: &Opts) -> Proc {
    Proc {
        sid: s.bool(),
        airport: icao(s),
        runway: if s.chance(3, 4) { Some(runway_designator(s)) } else { None },
        name: match s.weighted(&[3, 1]) {
            0 => format!("{}{}{}", fix_name(s), s.int(1, 9), s.pick(&["A", "N", "xRNP"])),
            _ => field(s, o),
        },
        route: s.vec(0, o.max_len, |s| if s.chance(1, 8) { designator(s) } else { fix_name(s) }),
    }
}

fn other(s: &mut Src) -> Section {
    let n = s.pick(&["FREETEXT", "RADAR", "GROUND", "SITUATION DATA", "X"]).to_string();
    Section::Other(
        n,
        s.vec(0, 4, |s| {
            s.pick(&[
                "N048.20.26.408:E011.45.03.661:Group:Text",
                "SID:EDDM:26R:GIVMI1N:DM060",
                "COPX:*:*:A:*:*:B:C:*:1000:A",
                "RADAR2:x",
                "SECTOR:A:0:100",
                "any ; thing [x] äß",
            ])
            .to_string()
        }),
    )
}

pub fn model(s: &mut Src, o: &Opts) -> EseModel {
    let mut sections = vec![];
    let n = s.us(1, if o.noise { 5 } else { 3 });
    for i in 0..n {
        let which = if o.noise { s.weighted(&[3, 3, 3, 2]) } else { i };
        sections.push(match which {
            0 => Section::Positions(s.vec(0, o.max_recs, |s| position(s, o))),
            1 => Section::Airspace(s.vec(0, o.max_recs * 2, |s| air(s, o))),
            2 => Section::SidsStars(s.vec(0, o.max_recs, |s| procedure(s, o))),
            _ => other(s),
        });
    }
    EseModel { sections }
}

impl EseModel {
    pub fn render(&self, s: &mut Src) -> String {
        let l = Layout::new(s, &[";"]);
        self.render_with(s, &l)
    }
    pub fn render_with(&self, s: &mut Src, l: &Layout) -> String {
        let mut out = String::new();
        if l.noise > 0 && s.chance(1, 3) {
            out.push_str(&l.comment_text(s));
            out.push_str(&l.eol(s, false));
        }
        let put = |s: &mut Src, out: &mut String, t: String| {
            out.push_str(l.indent(s));
            out.push_str(&t);
            out.push_str(&l.eol(s, true));
        };
        let lvl = |s: &mut Src, v: u32| match s.weighted(&[8, 1, 1, 1]) {
            3 => format!("{v:012}"),
            0 => v.to_string(),
            1 => format!("+{v}"),
            _ => format!("0{v}"),
        };
        for section in &self.sections {
            match section {
                Section::Positions(ps) => {
                    put(s, &mut out, "[POSITIONS]".into());
                    for p in ps {
                        let mut t = format!(
                            "{}:{}:{}:{}:{}:{}:{}:{}:{}:",
                            p.name, p.callsign, p.frequency, p.identifier, p.middle, p.prefix, p.suffix, p.unused.0, p.unused.1
                        );
                        let tail = s.draw(3);
                        match &p.squawk {
                            Squawk::Range(a, b) => t.push_str(&format!("{a:04}:{b:04}")),
                            Squawk::Huge => t.push_str(s.pick(&["99999:0001", "0001:70000", "-1:77"])),
                            // the empty fields may be left out at the end of the line
                            Squawk::Empty if p.points.is_empty() && tail == 0 => {}
                            // or be missing altogether
                            Squawk::Empty if tail == 1 => {}
                            Squawk::Empty => t.push(':'),
                        }
                        for (i, pt) in p.points.iter().enumerate() {
                            if !(i == 0 && p.squawk == Squawk::Empty && tail == 1) {
                                t.push(':');
                            }
                            t.push_str(&pt.text(s));
                        }
                        put(s, &mut out, t);
                    }
                }
                Section::Airspace(airs) => {
                    put(s, &mut out, "[AIRSPACE]".into());
                    for a in airs {
                        match a {
                            Air::Line { id, points, displays } => {
                                put(s, &mut out, format!("SECTORLINE:{id}"));
                                for i in 0..=points.len() {
                                    for (_, d) in displays.iter().filter(|d| d.0 == i) {
                                        put(s, &mut out, format!("DISPLAY:{}", d.join(":")));
                                    }
                                    if let Some(p) = points.get(i) {
                                        let t = p.text(s);
                                        put(s, &mut out, format!("COORD:{t}"));
                                    }
                                }
                            }
                            Air::Circle { id, fix, radius, displays } => {
                                put(s, &mut out, format!("CIRCLE_SECTORLINE:{id}:{fix}:{radius}"));
                                for d in displays {
                                    put(s, &mut out, format!("DISPLAY:{}", d.join(":")));
                                }
                            }
                            Air::DisplayLine(f) => put(s, &mut out, format!("DISPLAY_SECTORLINE:{}", f.join(":"))),
                            Air::Sector { id, bottom, top, settings } => {
                                let (b, t) = (lvl(s, *bottom), lvl(s, *top));
                                put(s, &mut out, format!("SECTOR:{id}:{b}:{t}"));
                                for x in settings {
                                    let t = match x {
                                        Setting::Owner(v) => format!("OWNER:{}", v.join(":")),
                                        Setting::AltOwner(n, v) => format!("ALTOWNER:{n}:{}", v.join(":")),
                                        Setting::Border(v) => format!("BORDER:{}", v.join(":")),
                                        Setting::Guest(a, b, c) => format!("GUEST:{a}:{b}:{c}"),
                                        Setting::Active(a, b) => format!("ACTIVE:{a}:{b}"),
                                        Setting::DepApt(v) => format!("DEPAPT:{}", v.join(":")),
                                        Setting::ArrApt(v) => format!("ARRAPT:{}", v.join(":")),
                                    };
                                    put(s, &mut out, t);
                                }
                            }
                            Air::Cop { fir, c } => {
                                let w = |o: &Option<String>| o.clone().unwrap_or("*".into());
                                let a = c.climb_level.map_or("*".into(), |v| lvl(s, v));
                                let b = c.descent_level.map_or("*".into(), |v| lvl(s, v));
                                put(
                                    s,
                                    &mut out,
                                    format!(
                                        "{}COPX:{}:{}:{}:{}:{}:{}:{}:{a}:{b}:{}",
                                        if *fir { "FIR_" } else { "" },
                                        w(&c.previous_fix),
                                        w(&c.departure_runway),
                                        w(&c.fix),
                                        w(&c.subsequent_fix),
                                        w(&c.arrival_runway),
                                        c.exit_sector,
                                        c.entry_sector,
                                        c.description
                                    ),
                                );
                            }
                            Air::Msaw { id, level, points } => {
                                let v = lvl(s, *level);
                                put(s, &mut out, format!("MSAW:{id}:{v}"));
                                for p in points {
                                    let t = p.text(s);
                                    put(s, &mut out, format!("COORD:{t}"));
                                }
                            }
                        }
                    }
                }
                Section::SidsStars(ps) => {
                    put(s, &mut out, "[SIDSSTARS]".into());
                    for p in ps {
                        let mut route = String::new();
                        for (i, w) in p.route.iter().enumerate() {
                            if i > 0 {
                                route.push_str(l.sep(s));
                            }
                            route.push_str(w);
                        }
                        put(
                            s,
                            &mut out,
                            format!(
                                "{}:{}:{}:{}:{route}",
                                if p.sid { "SID" } else { "STAR" },
                                p.airport,
                                p.runway.as_deref().unwrap_or(""),
                                p.name
                            ),
                        );
                    }
                }
                Section::Other(n, lines) => {
                    out.push_str(&format!("[{n}]"));
                    out.push_str(&l.eol(s, false));
                    for t in lines {
                        out.push_str(t);
                        out.push_str(&l.eol(s, false));
                    }
                }
            }
        }
        if l.noise > 0 && s.chance(1, 6) {
            out.truncate(out.trim_end().len());
        }
        out
    }

    pub fn expected(&self) -> Ese {
        let mut positions = HashMap::new();
        let mut lines: HashMap<String, SectorLine> = HashMap::new();
        let mut sectors: HashMap<String, (Sector, Vec<String>)> = HashMap::new();
        let mut constraints = vec![];
        let mut sids_stars = vec![];
        for section in &self.sections {
            match section {
                Section::Positions(ps) => {
                    for p in ps {
                        positions.insert(
                            p.identifier.clone(),
                            Position {
                                name: p.name.clone(),
                                callsign: p.callsign.clone(),
                                frequency: p.frequency.clone(),
                                identifier: p.identifier.clone(),
                                prefix: p.prefix.clone(),
                                middle: p.middle.clone(),
                                suffix: p.suffix.clone(),
                                squawk_range: match p.squawk {
                                    Squawk::Range(a, b) => Some((a, b)),
                                    _ => None,
                                },
                                visibility_points: p.points.iter().map(Pt::coord).collect(),
                            },
                        );
                    }
                }
                Section::Airspace(airs) => {
                    for a in airs {
                        match a {
                            Air::Line { id, points, .. } => {
                                let points = LineString(points.iter().map(Pt::coord).collect());
                                lines.insert(id.clone(), SectorLine { points });
                            }
                            Air::Sector { id, bottom, top, settings } => {
                                let mut x = Sector {
                                    id: id.clone(),
                                    bottom: *bottom,
                                    top: *top,
                                    border: vec![],
                                    owner_priority: vec![],
                                    departure_airports: vec![],
                                    arrival_airports: vec![],
                                    runway_filter: vec![],
                                };
                                let (mut o, mut b, mut d, mut r) = (None, None, None, None);
                                for t in settings {
                                    match t {
                                        Setting::Owner(v) => o = o.or(Some(v.clone())),
                                        Setting::Border(v) => b = b.or(Some(v.clone())),
                                        Setting::DepApt(v) => d = d.or(Some(v.clone())),
                                        Setting::ArrApt(v) => r = r.or(Some(v.clone())),
                                        Setting::Active(i, d) => x
                                            .runway_filter
                                            .push(RunwayIdentifier { icao: i.clone(), designator: d.clone() }),
                                        Setting::AltOwner(..) | Setting::Guest(..) => {}
                                    }
                                }
                                x.owner_priority = o.unwrap_or_default();
                                x.departure_airports = d.unwrap_or_default();
                                x.arrival_airports = r.unwrap_or_default();
                                sectors.insert(id.clone(), (x, b.unwrap_or_default()));
                            }
                            Air::Cop { c, .. } => constraints.push(c.clone()),
                            _ => {}
                        }
                    }
                }
                Section::SidsStars(ps) => {
                    for p in ps {
                        let (name, airport, runway, waypoints) =
                            (p.name.clone(), p.airport.clone(), p.runway.clone(), p.route.clone());
                        sids_stars.push(if p.sid {
                            SidStar::Sid(SID { name, airport, runway, waypoints })
                        } else {
                            SidStar::Star(STAR { name, airport, runway, waypoints })
                        });
                    }
                }
                Section::Other(..) => {}
            }
        }
        let sectors = sectors
            .into_iter()
            .map(|(id, (mut x, border))| {
                x.border = border.iter().filter_map(|b| lines.get(b).cloned()).collect();
                (id, x)
            })
            .collect();
        Ese { positions, sectors, constraints, sids_stars }
    }
}
