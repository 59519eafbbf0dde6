//! TopSky folders: random definitions, their files and what the files say.
use crate::engine::Src;
use crate::gen::{dms, fix_name, icao, runway_designator, Dms};
use crate::gen_sym::script;
use geo::Point;
use std::collections::BTreeMap;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::line_styles::LineStyle;
use vatsim_parser::adaptation::maps::active::*;
use vatsim_parser::adaptation::symbols::SymbolRule;
use vatsim_parser::topsky::map::{FontSize, Label, MapLine, MapRule, MapSymbol, OverrideSct, Text};
use vatsim_parser::Location;

pub struct Cfg<'a> {
    /// colour names maps may use
    pub colours: Vec<String>,
    /// names of places
    pub places: Vec<String>,
    /// coordinates
    pub coord: &'a dyn Fn(&mut Src) -> Dms,
    /// only records the adaptation makes something of
    pub drawing: bool,
    /// number of maps and rules per map
    pub maps: usize,
    pub rules: usize,
}

impl Default for Cfg<'_> {
    fn default() -> Self {
        Cfg {
            colours: ["Active_Map_Type_20", "Lake", "Map_Land", "nothing", "Stopbar", "Größe 1", "a-b.c/d"].map(String::from).to_vec(),
            places: vec![],
            coord: &dms,
            drawing: false,
            maps: 4,
            rules: 14,
        }
    }
}

#[derive(Default)]
pub struct Sky {
    pub maps_text: String,
    pub symbols_text: Option<String>,
    pub settings_text: String,
    pub maps: Vec<(String, Vec<MapRule>)>,
    pub symbols: BTreeMap<String, Vec<SymbolRule>>,
    pub colours: BTreeMap<String, Colour>,
    pub settings: BTreeMap<String, String>,
    pub line_styles: BTreeMap<String, (String, String, Vec<f32>)>,
    pub overrides: Vec<OverrideSct>,
    pub records: usize,
}

/// A text field: no delimiter of the syntax and nothing that looks like a comment.
pub fn text(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => s
            .pick(&[
                "SECTORLINES", "AOR ALTMUEHL", "EDMO_RNP22", "FIXES", "CTR", "TWR", "A", "EDDM_APP", "Map 1",
                "MAP", "1", "0", "LINE", "x y z",
            ])
            .to_string(),
        1 => s.word(1, 8, "ABCDEFGHIJKLMNOPQRSTUVWXYZabc0123456789_"),
        2 => {
            let t = format!("{} {}", s.word(1, 3, "ABCxyz/()=+-_.#&!?'\"@%<>|[]{}^~$`"), s.word(1, 4, "ABC123*/.()+-_=#&!?'\"<>[]"));
            t.replace("//", "/-").replace("/ ", "- ").replace("//", "/-").trim_end_matches(['/', ' ']).to_string()
        }
        _ => s.word(1, 5, "äöüßéèåœŽ€·°abc"),
    }
}

/// Names of maps and folders, which meet again when they are drawn.
fn title(s: &mut Src, cfg: &Cfg) -> String {
    if cfg.drawing && s.chance(3, 5) {
        return s.pick(&["CTR", "TWR", "AUTO", "CTR_2"]).to_string();
    }
    text(s)
}

fn place(s: &mut Src, cfg: &Cfg) -> String {
    let p = match cfg.places.is_empty() {
        true if s.chance(1, 8) => text(s),
        true => fix_name(s),
        _ => s.pick(&cfg.places).clone(),
    };
    // a number before a number is a coordinate
    if p.parse::<f64>().is_ok() {
        format!("X{p}")
    } else {
        p
    }
}

/// A location in the two-part form of coordinates or as a name.
pub fn location(s: &mut Src, cfg: &Cfg) -> (String, Location) {
    if s.chance(2, 5) {
        let p = place(s, cfg);
        return (p.clone(), Location::Fix(p));
    }
    coordinate(s, cfg)
}

fn coordinate(s: &mut Src, cfg: &Cfg) -> (String, Location) {
    let d = (cfg.coord)(s);
    let (lat, lng) = (d.lat as f64 / 3.6e6, d.lng as f64 / 3.6e6);
    if s.chance(2, 3) {
        let t = format!("{}:{}", d.lat_text(s), d.lng_text(s));
        (t, Location::Coordinate(Point::new(lng, lat)))
    } else {
        let (a, b) = (format!("{lat:.*}", s.us(1, 6)), format!("{lng:.*}", s.us(1, 6)));
        let p = Point::new(b.parse().expect("lng"), a.parse().expect("lat"));
        (format!("{a}:{b}"), Location::Coordinate(p))
    }
}

fn names(s: &mut Src) -> Vec<String> {
    let mut v = s.vec(1, 4, |s| {
        let t = text(s).replace(',', "");
        if t.is_empty() {
            "A".into()
        } else {
            t
        }
    });
    // nothing between two commas, or after the last
    if s.chance(1, 20) {
        let i = s.us(1, v.len());
        v.insert(i, String::new());
    }
    v
}

fn folder(s: &mut Src) -> String {
    if s.chance(1, 15) { String::new() } else { text(s).replace('\\', "") }
}

fn wild(s: &mut Src) -> (String, Option<Vec<String>>) {
    if s.bool() {
        ("*".into(), None)
    } else {
        let n = names(s);
        (n.join(","), Some(n))
    }
}

fn runways(s: &mut Src) -> (String, Option<Vec<RunwayIdentifier>>) {
    if s.chance(1, 3) {
        return ("*".into(), None);
    }
    let v = s.vec(1, 3, |s| RunwayIdentifier { icao: icao(s), designator: runway_designator(s) });
    let t: Vec<_> = v.iter().map(|r| format!("{}{}", r.icao, r.designator)).collect();
    (t.join(","), Some(v))
}

fn active(s: &mut Src) -> (String, Active) {
    match s.idx(10) {
        0 => ("1".into(), Active::True),
        i @ (1 | 2) => {
            let v: Vec<_> = (0..4).map(|_| wild(s)).collect();
            let t = v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(":");
            let a = ActiveIds {
                own: v[0].1.clone(),
                own_excludes: v[1].1.clone(),
                online: v[2].1.clone(),
                online_excludes: v[3].1.clone(),
            };
            if i == 1 {
                (format!("ID:{t}"), Active::Id(a))
            } else {
                (format!("CALLSIGN:{t}"), Active::Callsign(a))
            }
        }
        3 => {
            let areas = names(s);
            let t = areas.join(",");
            if s.bool() {
                let x = names(s);
                let t = format!("AREA:{t}:{}", x.join(","));
                (t, Active::Area(ActiveAreas { areas, area_excludes: Some(x) }))
            } else {
                (format!("AREA:{t}"), Active::Area(ActiveAreas { areas, area_excludes: None }))
            }
        }
        4 => {
            let v = names(s);
            (format!("AUP:{}", v.join(",")), Active::Aup(v))
        }
        5 => {
            let (i, v) = (icao(s), names(s));
            (format!("NOTAM:{i}:{}", v.join(",")), Active::Notam(i, v))
        }
        6 => {
            let (f, n) = (folder(s), if s.chance(1, 15) { String::new() } else { text(s) });
            let (o, op) = if s.bool() { ("=", ActiveMapOperator::Same) } else { ("!", ActiveMapOperator::Opposite) };
            (format!("MAP:{o}:{f}\\{n}"), Active::Map(op, f, n))
        }
        7 => {
            let (a, d) = (runways(s), runways(s));
            (
                format!("RWY:ARR:{}:DEP:{}", a.0, d.0),
                Active::Runway(ActiveRunways {
                    arrival: a.1,
                    arrival_excludes: None,
                    departure: d.1,
                    departure_excludes: None,
                }),
            )
        }
        8 => {
            let (a, b, d, e) = (runways(s), runways(s), runways(s), runways(s));
            (
                format!("RWY:ARR:{}:{}:DEP:{}:{}", a.0, b.0, d.0, e.0),
                Active::Runway(ActiveRunways {
                    arrival: a.1,
                    arrival_excludes: b.1,
                    departure: d.1,
                    departure_excludes: e.1,
                }),
            )
        }
        _ => {
            let day = |s: &mut Src| {
                let md = format!("{:02}{:02}", s.int(1, 12), s.int(1, 31));
                if s.bool() {
                    md
                } else {
                    format!("{:02}{md}", s.int(0, 99))
                }
            };
            let hm = |s: &mut Src| format!("{:02}{:02}", s.int(0, 23), s.int(0, 59));
            let t = format!(
                "{}:{}:{}:{}:{}",
                day(s), day(s), s.pick(&["0", "1234567", "67"]), hm(s), hm(s)
            );
            (t, Active::Schedule)
        }
    }
}

/// Lines of one record, whether a trailing comment may follow them, and what it says.
type Record = (Vec<String>, bool, Vec<MapRule>);

fn f32_text(s: &mut Src, lo: i64, hi: i64) -> (String, f32) {
    let t = match s.weighted(&[3, 1]) {
        0 => format!("{}", s.int(lo, hi)),
        _ => format!("{}.{}", s.int(lo, hi), s.word(1, 2, "0123456789")),
    };
    let v = t.parse().expect("number");
    (t, v)
}

fn lines(s: &mut Src, cfg: &Cfg) -> Record {
    let n = s.int(1, 5);
    let mut out = vec![];
    let mut rule = vec![];
    let mut last: Option<(String, Location)> = None;
    for _ in 0..n {
        // continue at the end of the previous line, often
        let a = match &last {
            Some(l) if s.chance(1, 2) => l.clone(),
            _ => location(s, cfg),
        };
        let same_kind = |l: &Location| matches!(l, Location::Fix(_)) == matches!(a.1, Location::Fix(_));
        let b = if s.chance(1, 10) {
            a.clone()
        } else {
            loop {
                let b = location(s, cfg);
                if same_kind(&b.1) {
                    break b;
                }
                // both ends of a line are of one kind
                let b = if matches!(a.1, Location::Fix(_)) {
                    let p = place(s, cfg);
                    (p.clone(), Location::Fix(p))
                } else {
                    coordinate(s, cfg)
                };
                break b;
            }
        };
        out.push(format!("LINE:{}:{}", a.0, b.0));
        rule.push(MapLine { points: vec![a.1, b.1.clone()] });
        last = Some((b.0, b.1));
    }
    let closed = matches!(last, Some((_, Location::Coordinate(_))));
    (out, closed, vec![MapRule::Line(rule)])
}

fn record(s: &mut Src, cfg: &Cfg) -> Record {
    let one = |t: String, closed: bool, r: MapRule| (vec![t], closed, vec![r]);
    let align = |s: &mut Src| {
        let h = *s.pick(&["", "L", "C", "R"]);
        let v = *s.pick(&["", "T", "C", "B"]);
        format!("{h}{v}")
    };
    let slash = |s: &mut Src| if s.chance(1, 4) { format!("/{}", align(s)) } else { String::new() };
    let ignored = if cfg.drawing { 1 } else { 4 };
    match s.weighted(&[2, 3, 2, 3, 2, 3, 2, 2, 2, 6, 3, 1, 1, 4, 1, 2, ignored]) {
        0 => {
            let f = title(s, cfg);
            one(format!("FOLDER:{f}"), false, MapRule::Folder(f))
        }
        1 => {
            let c = s.pick(&cfg.colours).clone();
            let t = match s.weighted(&[4, 1, 1]) {
                0 => format!("COLOR:{c}"),
                1 => format!("COLOR:{c}:{}", s.pick(&cfg.colours)),
                _ => format!("COLOR:{c}:{}:{}", s.pick(&cfg.colours), s.pick(&cfg.colours)),
            };
            one(t, false, MapRule::Colour(c))
        }
        2 => {
            let (t, v) = wild(s);
            one(format!("ASRDATA:{t}"), v.is_none(), MapRule::AsrData(v))
        }
        3 => {
            let (t, a) = active(s);
            let closed = matches!(a, Active::True | Active::Schedule | Active::Runway(_));
            let mut r = one(format!("ACTIVE:{t}"), closed, MapRule::Active(a));
            while s.chance(1, 3) {
                let (t, a) = active(s);
                r.0.push(format!("AND_ACTIVE:{t}"));
                r.1 = matches!(a, Active::True | Active::Schedule | Active::Runway(_));
                r.2.push(MapRule::AndActive(a));
            }
            r
        }
        4 => {
            let n = s.int(-20, 20);
            one(format!("LAYER:{n}"), true, MapRule::Layer(n as f32))
        }
        5 => {
            let (n, l) = (text(s), location(s, cfg));
            let mut t = format!("SYMBOL{}:{n}:{}", slash(s), l.0);
            let label = s.opt(1, 2, |s| {
                let (x, y) = (crate::gen_sym::number(s), crate::gen_sym::number(s));
                let lt = text(s);
                t.push_str(&format!(":{lt}:{}:{}", x.0, y.0));
                Label { text: lt, pos: (x.1, y.1) }
            });
            let closed = label.is_some() || matches!(l.1, Location::Coordinate(_));
            one(t, closed, MapRule::Symbol(MapSymbol { name: n, location: l.1, label, label_alignment: None }))
        }
        6 => match s.weighted(&[1, 4]) {
            0 => one("FONTSIZE:0".into(), true, MapRule::FontSize(FontSize::Default)),
            _ => {
                let (t, v) = f32_text(s, 0, 12);
                let (o, r) = match s.idx(4) {
                    0 => ("=", FontSize::Exact(v)),
                    1 => ("+", FontSize::Add(v)),
                    2 => ("-", FontSize::Subtract(v)),
                    _ => ("*", FontSize::Multiply(v)),
                };
                one(format!("FONTSIZE:{o}:{t}"), true, MapRule::FontSize(r))
            }
        },
        7 => {
            let (t, v) = f32_text(s, 0, 99);
            one(format!("ZOOM:{t}"), true, MapRule::Zoom(v))
        }
        8 => {
            let n = s.pick(&["Solid", "Dot", "DASH", "dashdot", "Alternate", "Fence", "DASHDOTDOT", "x"]).to_string();
            let w = s.opt(1, 2, |s| s.int(0, 9) as i32);
            let t = match w {
                Some(w) => format!("STYLE:{n}:{w}"),
                None => format!("STYLE:{n}"),
            };
            let style = LineStyle { width: w.unwrap_or(1), style: n.to_uppercase() };
            one(t, w.is_some(), MapRule::LineStyle(style))
        }
        9 => lines(s, cfg),
        10 => {
            let l = location(s, cfg);
            let c = match s.weighted(&[3, 1]) {
                0 => text(s),
                _ => format!("{}:{} \\ {}", text(s), text(s), text(s)),
            };
            one(format!("TEXT{}:{}:{c}", slash(s), l.0), true, MapRule::Text(Text { location: l.1, content: c, alignment: None }))
        }
        11 => one("HIDDEN".into(), true, MapRule::Hidden),
        12 => match s.bool() {
            true => one("GLOBAL".into(), true, MapRule::Global),
            _ => one("SCREEN-SPECIFIC".into(), true, MapRule::ScreenSpecific),
        },
        13 => {
            // a line or polygon of coordinates
            let mut r: Record = (vec![], true, vec![]);
            let min = if cfg.drawing { 2 } else { 0 };
            for _ in 0..s.int(min, 6) {
                let l = location(s, cfg);
                r.0.push(format!("COORD:{}", l.0));
                r.2.push(MapRule::Coord(l.1));
                if s.chance(1, 10) {
                    r.0.push("GLOBAL".into());
                    r.2.push(MapRule::Global);
                }
            }
            if s.bool() {
                r.0.push("COORDLINE".into());
                r.2.push(MapRule::CoordLine);
            } else {
                let h = s.int(-1, 100).to_string();
                r.0.push(format!("COORDPOLY:{h}"));
                r.2.push(MapRule::CoordPoly(h));
            }
            r
        }
        14 => {
            let l = location(s, cfg);
            one(format!("COORD:{}", l.0), matches!(l.1, Location::Coordinate(_)), MapRule::Coord(l.1))
        }
        15 => {
            let c = s.pick(&cfg.colours).clone();
            one(format!("COLOR:{c}"), false, MapRule::Colour(c))
        }
        _ => {
            // recognised, but nothing is made of them
            let d = |s: &mut Src| f32_text(s, 0, 360).0;
            let (l, m) = (location(s, cfg).0, coordinate(s, cfg).0);
            let t = match s.idx(10) {
                0 => format!("CIRCLE:{m}:{}:{}", d(s), d(s)),
                1 => format!("COORD_CIRCLE:{m}:{}:{}", d(s), d(s)),
                2 => "FONTSTYLE:0".to_string(),
                3 => format!("FONTSTYLE:{}:{}:0:1", s.int(100, 900), s.int(0, 1)),
                4 => format!("TEXTALIGN:{}", align(s)),
                5 => format!("SCTDATA:{}\\{}", folder(s), folder(s)),
                6 => format!("SCTFILEDATA{}:{}\\{}", s.pick(&["", "/MONO"]), text(s), text(s)),
                7 => format!("COORD_AF:{l}:{}:{}:{}:{}:{}", d(s), d(s), d(s), s.pick(&["<", ">"]), d(s)),
                8 => format!("COORD_HM:{l}:{}{}:{}:{}{}:{}{}:{}", d(s), s.pick(&["", "M"]), s.pick(&["L", "R"]), d(s), s.pick(&["", "MIN"]), d(s), s.pick(&["", "KTS"]), d(s)),
                _ => format!("COORD_PBD:{}/{}:{}:{}", icao(s), runway_designator(s), d(s), if s.chance(1, 3) { s.int(10, 100_000) } else { s.int(0, 9) }),
            };
            (vec![t], false, vec![])
        }
    }
}

const COMMENTS: [&str; 4] = ["//", "// a comment", ";LINE:A:B", "; x // y ; COLOR:nothing"];

struct Out {
    t: String,
    eol: &'static str,
    comments: bool,
}
impl Out {
    fn new(s: &mut Src) -> Self {
        let mut o = Out { t: String::new(), eol: *s.pick(&["\n", "\r\n"]), comments: s.chance(2, 3) };
        if s.chance(1, 4) {
            o.blank(s);
        }
        o
    }
    fn blank(&mut self, s: &mut Src) {
        for _ in 0..s.int(1, 2) {
            if self.comments && s.bool() {
                self.t.push_str(*s.pick(&["", " ", "\t"]));
                self.t.push_str(*s.pick(&COMMENTS));
            } else {
                self.t.push_str(*s.pick(&["", "", "  ", "\t"]));
            }
            self.t.push_str(self.eol);
        }
    }
    fn line(&mut self, s: &mut Src, l: &str, closed: bool) {
        self.t.push_str(l);
        if closed && self.comments && s.chance(1, 12) {
            self.t.push_str(*s.pick(&[" ", "\t", "", "  "]));
            self.t.push_str(*s.pick(&COMMENTS));
        } else if s.chance(1, 20) {
            self.t.push_str(*s.pick(&[" ", "\t", "  "]));
        }
        self.t.push_str(self.eol);
        if s.chance(1, 15) {
            self.blank(s);
        }
    }
}

fn symbol(s: &mut Src, o: &mut Out, head: &str) -> (String, Vec<SymbolRule>) {
    let n = match s.weighted(&[3, 1]) {
        0 => s.pick(&["AIRPORT", "NDB", "HISTORY", "APPFix", "FIX", "Tower"]).to_string(),
        _ => text(s),
    };
    let (lines, rules) = script(s, 5);
    o.line(s, &format!("{head}:{n}"), false);
    for l in lines {
        o.line(s, &l, true);
    }
    (n, rules)
}

fn settings(s: &mut Src, sky: &mut Sky) {
    let mut o = Out::new(s);
    for _ in 0..s.int(0, 8) {
        let sp = |s: &mut Src| *s.pick(&["", "", "", " "]);
        match s.weighted(&[4, 4, 1]) {
            0 => {
                let n = match s.weighted(&[3, 1]) {
                    0 => s.pick(&["Lake", "Active_Map_Type_20", "Map_Land", "Sky/1", "1"]).to_string(),
                    _ => s.word(1, 6, "ABCabc019_/").replace("//", "_"),
                };
                let v: Vec<i64> = (0..3)
                    .map(|_| if s.chance(1, 20) { *s.pick(&[256, 300, 1000]) } else { s.int(0, 255) })
                    .collect();
                let l = format!("Color_{n}{}={}{},{},{}", sp(s), sp(s), v[0], v[1], v[2]);
                o.line(s, &l, true);
                if v.iter().all(|x| *x < 256) {
                    sky.colours.insert(n, Colour::from_rgb(v[0] as u8, v[1] as u8, v[2] as u8));
                }
            }
            1 => {
                let n = match s.weighted(&[3, 1]) {
                    0 => s.pick(&["Setup_COOPANS", "Font_Size", "Maps_FontSize", "Track_HistoryDots", "X/Y"]).to_string(),
                    _ => format!("k{}", s.word(1, 6, "ABCabc019_")),
                };
                let v = match s.weighted(&[3, 3, 1]) {
                    0 => s.int(-5, 99).to_string(),
                    1 => s.pick(&["EuroScope", "a b  c", "x=y", "1,2,3", "[x]", "Ä", "C:\\x\\y.txt"]).to_string(),
                    _ => String::new(),
                };
                o.line(s, &format!("{n}={v}"), !v.is_empty());
                sky.settings.insert(n, v);
            }
            _ => {
                let n = s.pick(&["Unset ", "Lake "]);
                o.line(s, &format!("Color_{n}"), true);
            }
        }
    }
    for _ in 0..s.int(0, 2) {
        // values for particular positions are not the folder's
        let n = s.pick(&["_APP", "EDMM_", "EDDM_TWR"]);
        let l = if s.bool() { format!("[{n}]") } else { format!("{{{n}}}") };
        o.line(s, &l, true);
        for _ in 0..s.int(0, 2) {
            let l = *s.pick(&["Font_Size=77", "Color_Lake=7,7,7", "Setup_COOPANS=0", "Only_Here=1", "Color_Here=1,1,1"]);
            o.line(s, l, true);
        }
    }
    sky.settings_text = o.t;
}

pub fn sky(s: &mut Src, cfg: &Cfg) -> Sky {
    let mut sky = Sky::default();
    settings(s, &mut sky);
    if s.chance(3, 4) {
        let mut o = Out::new(s);
        for _ in 0..s.int(1, 4) {
            let (n, r) = symbol(s, &mut o, "SYMBOL");
            sky.symbols.insert(n, r);
        }
        sky.symbols_text = Some(o.t);
    }
    let mut o = Out::new(s);
    let mut maps_left = s.int(1, cfg.maps as i64);
    let mut before = s.int(0, 4);
    // a file may do without maps
    if before > 0 && !cfg.drawing && s.chance(1, 12) {
        maps_left = 0;
    }
    let mut after = if s.chance(1, 4) { s.int(1, 2) } else { 0 };
    while maps_left > 0 || before > 0 || after > 0 {
        // definitions may stand anywhere, overrides of the sector file before the maps
        let def = before > 0 || maps_left == 0 || s.chance(1, 4);
        if before > 0 {
            before -= 1;
        } else if maps_left == 0 {
            after -= 1;
        }
        if def {
            let kinds = if sky.maps.is_empty() { 5 } else { 3 };
            match s.idx(kinds) {
                0 => {
                    let n = s.pick(&cfg.colours).clone();
                    let v: Vec<i64> = (0..3)
                        .map(|_| if s.chance(1, 20) { *s.pick(&[256, -1, 1000]) } else { s.int(0, 255) })
                        .collect();
                    o.line(s, &format!("COLORDEF:{n}:{}:{}:{}", v[0], v[1], v[2]), true);
                    if v.iter().all(|x| (0..256).contains(x)) {
                        sky.colours.insert(n, Colour::from_rgb(v[0] as u8, v[1] as u8, v[2] as u8));
                    }
                }
                1 => {
                    let (n, r) = symbol(s, &mut o, "SYMBOLDEF");
                    sky.symbols.insert(n, r);
                }
                2 => {
                    let n = s.pick(&["Fence", "Long", "x", "DASH", "fence", "Dots"]).to_string();
                    let (b, h) = (s.pick(&["Solid", "None"]).to_string(), s.pick(&["None", "Cross"]).to_string());
                    let d: Vec<i64> = s.vec(0, 6, |s| s.int(0, 30));
                    let mut l = format!("LINESTYLEDEF:{n}:{b}:{h}");
                    if !d.is_empty() {
                        l.push(':');
                        l.push_str(&d.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                    }
                    o.line(s, &l, !d.is_empty());
                    sky.line_styles.insert(n, (b, h, d.iter().map(|x| *x as f32).collect()));
                }
                3 => {
                    let folder = if s.chance(1, 15) { String::new() } else { title(s, cfg).replace('\\', "") };
                    let name = s.opt(1, 2, text);
                    let l = match &name {
                        Some(n) => format!("OVERRIDE_SCT_MAP:{folder}\\{n}"),
                        None => format!("OVERRIDE_SCT_MAP:{folder}"),
                    };
                    o.line(s, &l, false);
                    sky.overrides.push(OverrideSct { folder, name });
                }
                _ => o.line(s, "SCTFILEPATH:\\x.sct", false),
            }
            sky.records += 1;
            continue;
        }
        maps_left -= 1;
        let name = title(s, cfg);
        o.line(s, &format!("MAP:{name}"), false);
        let mut rules = vec![];
        for i in 0..s.int(1, cfg.rules as i64) {
            let (lines, closed, mut r) = if i == 0 && cfg.drawing && s.chance(3, 4) {
                let n = s.pick(&cfg.colours).clone();
                (vec![format!("COLOR:{n}")], false, vec![MapRule::Colour(n)])
            } else {
                record(s, cfg)
            };
            for (i, l) in lines.iter().enumerate() {
                let pad = if s.chance(1, 30) { *s.pick(&[" ", "\t"]) } else { "" };
                // the lines of one block of lines stand at the margin
                let pad = if l.starts_with("LINE") { "" } else { pad };
                o.t.push_str(pad);
                o.line(s, l, closed && i + 1 == lines.len());
            }
            sky.records += lines.len();
            rules.append(&mut r);
        }
        sky.maps.push((name, rules));
    }
    if s.chance(1, 4) {
        let n = o.t.trim_end().len();
        o.t.truncate(n);
    }
    sky.maps_text = o.t;
    sky
}

/// Comparable form of a location: places to a billionth of a degree.
pub fn key(l: &Location) -> String {
    match l {
        Location::Fix(f) => format!("fix {f}"),
        Location::Coordinate(p) => format!("{} {}", (p.y() * 1e9).round() + 0.0, (p.x() * 1e9).round() + 0.0),
    }
}

/// Connected lines as the file's lines make them, whichever way they are grouped.
fn connect(lines: &[&MapLine]) -> String {
    let mut out: Vec<Vec<String>> = vec![];
    for l in lines {
        let p: Vec<String> = l.points.iter().map(key).collect();
        let pairs: Vec<(String, String)> = if p.len() == 1 {
            vec![(p[0].clone(), p[0].clone())]
        } else {
            p.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect()
        };
        for (a, b) in pairs {
            match out.last_mut() {
                Some(l) if l.last() == Some(&a) => {
                    if a != b {
                        l.push(b);
                    }
                }
                _ => out.push(if a == b { vec![a] } else { vec![a, b] }),
            }
        }
    }
    format!("{out:?}")
}

/// Comparable form of a list of rules.
pub fn canon(rules: &[MapRule]) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < rules.len() {
        let t = match &rules[i] {
            MapRule::Line(_) => {
                let mut run: Vec<&MapLine> = vec![];
                while let Some(MapRule::Line(l)) = rules.get(i) {
                    run.extend(l);
                    i += 1;
                }
                out.push(format!("lines {}", connect(&run)));
                continue;
            }
            MapRule::Symbol(x) => {
                format!("symbol {:?} at {} label {:?} {:?}", x.name, key(&x.location), x.label, x.label_alignment)
            }
            MapRule::Text(x) => format!("text {:?} at {} {:?}", x.content, key(&x.location), x.alignment),
            MapRule::Coord(l) => format!("coord {}", key(l)),
            r => format!("{r:?}"),
        };
        out.push(t);
        i += 1;
    }
    out
}
