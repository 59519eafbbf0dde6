//! Symbology values reach the settings they belong to; omitted items have their defaults.
use crate::engine::*;
use crate::gen_sym::{number, script};
use crate::world::*;
use crate::{ensure, ensure_eq};
use std::collections::{BTreeMap, HashMap};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::symbols::SymbolRule::{self, *};
use vatsim_parser::adaptation::{Adaptation, Alignment, HorizontalAlignment as H, VerticalAlignment as V};
use vatsim_parser::symbology::{Item, SymbolType, Symbology};

/// Every item the adaptation reads, plus relatives it must not mistake for them.
const ITEMS: [(&str, &str); 52] = [
    ("Fixes", "symbol"), ("Fixes", "name"),
    ("Airports", "symbol"), ("Airports", "name"),
    ("NDBs", "symbol"), ("NDBs", "name"), ("NDBs", "frequency"),
    ("VORs", "symbol"), ("VORs", "name"), ("VORs", "frequency"),
    ("Low airways", "line"), ("Low airways", "name"),
    ("High airways", "line"), ("High airways", "name"),
    ("Sids", "line"), ("Stars", "line"), ("Geo", "line"),
    ("ARTCC boundary", "line"), ("ARTCC low boundary", "line"), ("ARTCC high boundary", "line"),
    ("Runways", "centerline"), ("Runways", "extended centerline"), ("Runways", "name"),
    ("Other", "freetext"),
    ("Sector", "active sector background"), ("Sector", "inactive sector background"),
    // not read
    ("Fixes", "line"), ("Fixes", "frequency"), ("Airports", "line"), ("Airports", "freetext"),
    ("NDBs", "line"), ("VORs", "line"), ("Sids", "name"), ("Stars", "name"), ("Geo", "name"),
    ("ARTCC boundary", "name"), ("ARTCC low boundary", "name"), ("ARTCC high boundary", "name"),
    ("Runways", "line"), ("Runways", "symbol"), ("Runway", "name"), ("Other", "line"), ("Other", "name"),
    ("Sector", "msaw"), ("Sector", "name"), ("Sids", "centerline"), ("High airway", "line"),
    ("Low airways", "freetext"), ("sids", "line"), ("GEO", "line"), ("Datablock", "name"), ("", ""),
];

#[derive(Clone)]
struct It {
    colour: i64,
    scale: (String, f32),
    style: usize,
    weight: i64,
    align: i64,
}

fn colour(s: &mut Src) -> i64 {
    match s.weighted(&[8, 2, 1]) {
        0 => s.int(0, 0xff_ffff),
        1 => *s.pick(&[0, 1, 255, 256, 65535, 65536, 0xff_ffff, 8_881_798]),
        _ => *s.pick(&[-1, -256, 0x100_0000, i32::MAX as i64, i32::MIN as i64, 1 << 31, 1 << 40]),
    }
}

fn item(s: &mut Src) -> It {
    let scale = match s.weighted(&[5, 1]) {
        0 => format!("{}.{}", s.int(0, 9), s.int(0, 9)),
        _ => number(s).0,
    };
    let v = scale.parse().expect("scale");
    It {
        colour: colour(s),
        scale: (scale, v),
        style: s.idx(5),
        weight: match s.weighted(&[8, 1]) {
            0 => s.int(0, 12),
            _ => *s.pick(&[-1, -7, i32::MAX as i64, 1 << 31, 99_999_999_999]),
        },
        align: *s.pick(&[0, 1, 2, 6, 7, 8, 12, 13, 14]),
    }
}

fn rgb(n: i64) -> Colour {
    Colour::from_rgb((n & 255) as u8, (n >> 8 & 255) as u8, (n >> 16 & 255) as u8)
}

const STYLES: [&str; 5] = ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"];

impl It {
    /// An item that is not usable is not an item.
    fn valid(&self) -> bool {
        (0..=0xff_ffff).contains(&self.colour) && i32::try_from(self.weight).is_ok()
    }
    fn alignment(&self) -> Alignment {
        Alignment {
            horizontal: [H::Left, H::Center, H::Right][(self.align / 6) as usize],
            vertical: [V::Top, V::Center, V::Bottom][(self.align % 6) as usize],
        }
    }
    fn line(&self, k: &(String, String)) -> String {
        format!("{}:{}:{}:{}:{}:{}:{}", k.0, k.1, self.colour, self.scale.0, self.style, self.weight, self.align)
    }
    fn expected(&self, k: &(String, String)) -> Item {
        Item {
            folder: k.0.clone(),
            name: k.1.clone(),
            colour: rgb(self.colour),
            font_size_symbol_scale: self.scale.1,
            line_style: STYLES[self.style].to_string(),
            line_weight: self.weight as i32,
            text_alignment: self.alignment(),
        }
    }
}

pub struct Sym {
    pub text: String,
    items: BTreeMap<(String, String), It>,
    symbols: BTreeMap<usize, Vec<SymbolRule>>,
}

const TYPES: [SymbolType; 24] = {
    use SymbolType as T;
    [
        T::Airport, T::NDB, T::VOR, T::Fix, T::AircraftStandby, T::AircraftPrimaryOnly,
        T::AircraftCorrAlphaCharlieSecondaryOnly, T::AircraftCorrModeSierraSecondaryOnly,
        T::AircraftCorrModeAlphaCharlie, T::AircraftCorrModeSierra,
        T::AircraftCorrModeAlphaCharlieIdent, T::AircraftCorrModeSierraIdent,
        T::AircraftFlightPlanTrack, T::AircraftCoasting, T::HistoryDot, T::GroundAircraft,
        T::AircraftUncorrModeAlphaCharlieSecondaryOnly, T::AircraftUncorrModeSierraSecondaryOnly,
        T::AircraftUncorrModeAlphaCharlie, T::AircraftUncorrModeSierra,
        T::AircraftUncorrModeAlphaCharlieIdent, T::AircraftUncorrModeSierraIdent,
        T::GroundVehicle, T::GroundRotorcraft,
    ]
};

pub fn symbology(s: &mut Src) -> Sym {
    let eol = *s.pick(&["\n", "\r\n"]);
    let mut t = String::new();
    let nl = |s: &mut Src, t: &mut String| {
        if s.chance(1, 40) {
            t.push_str(*s.pick(&[" ", "\t", "  "]));
        }
        t.push_str(eol);
        if s.chance(1, 25) {
            t.push_str(*s.pick(&["\n", "  \n", "\t\r\n"]));
        }
    };
    if s.chance(1, 6) {
        nl(s, &mut t);
    }
    t.push_str("SYMBOLOGY");
    nl(s, &mut t);
    t.push_str("SYMBOLSIZE");
    nl(s, &mut t);
    // density of the file: from almost nothing to everything
    let (num, den) = *s.pick(&[(1, 8), (1, 2), (3, 4), (15, 16)]);
    let mut order: Vec<(String, String, It)> = vec![];
    for (f, n) in ITEMS {
        if s.chance(num, den) {
            let it = item(s);
            order.push((f.to_string(), n.to_string(), it));
            if s.chance(1, 12) {
                let it = item(s);
                order.push((f.to_string(), n.to_string(), it));
            }
        }
    }
    if order.is_empty() {
        let it = item(s);
        order.push(("Fixes".into(), "name".into(), it));
    }
    if s.bool() {
        s.shuffle(&mut order);
    }
    let mut items = BTreeMap::new();
    for (f, n, it) in order {
        let k = (f, n);
        t.push_str(&it.line(&k));
        nl(s, &mut t);
        if it.valid() {
            items.insert(k, it);
        }
    }
    let mut symbols = BTreeMap::new();
    for _ in 0..s.int(1, 12) {
        let id = match s.weighted(&[6, 6, 1]) {
            0 => *s.pick(&[0, 1, 2, 3, 5, 13, 14, 18, 9]),
            1 => s.int(0, 23),
            _ => *s.pick(&[24, 25, 99, -1, 1 << 33]),
        };
        let (lines, rules) = script(s, 6);
        t.push_str(&format!("SYMBOL:{id}"));
        nl(s, &mut t);
        for l in lines {
            t.push_str(&format!("SYMBOLITEM:{l}"));
            nl(s, &mut t);
        }
        if (0..24).contains(&id) {
            symbols.insert(id as usize, rules);
        }
    }
    t.push_str(&format!("m_ClipArea:{}", s.int(0, 9)));
    nl(s, &mut t);
    t.push_str("END");
    if s.bool() {
        nl(s, &mut t);
    }
    Sym { text: t, items, symbols }
}

fn parse(s: &mut Src, c: &mut Case) -> Res {
    let m = symbology(s);
    c.input = m.text.clone();
    c.nontrivial = m.items.len() >= 2 && !m.symbols.is_empty();
    c.label(format!("items:{}", (m.items.len() / 16) * 16));
    c.label(format!("symbols:{}", m.symbols.len().min(4)));
    let got = no_panic("Symbology::parse", || Symbology::parse(m.text.as_bytes()))?
        .map_err(|e| Fail::from(format!("symbology rejected: {e}")))?;
    for (k, it) in &m.items {
        let g = got.items.0.get(k);
        ensure!(g == Some(&it.expected(k)), "item {k:?} is {g:?}, written {:?}", it.expected(k));
    }
    ensure_eq!(got.items.0.len(), m.items.len(), "number of items");
    for (i, rules) in &m.symbols {
        let g = got.symbols.get(&TYPES[*i]);
        ensure!(g == Some(rules), "symbol {i} is {g:?}, written {rules:?}");
    }
    ensure_eq!(got.symbols.len(), m.symbols.len(), "number of symbols");
    Ok(())
}

// the defaults of the program
fn poly(p: &[(f64, f64)]) -> Vec<SymbolRule> {
    let mut v = vec![Move(p[0])];
    v.extend(p[1..].iter().map(|q| Line(*q)));
    v
}
fn default_symbol(name: &str) -> Vec<SymbolRule> {
    match name {
        "HISTORY" => vec![Polygon(vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)])],
        "FIX" => poly(&[(-5.0, 5.0), (0.0, -5.0), (5.0, 5.0), (-5.0, 5.0)]),
        "NDB" => vec![
            Pixel((0.0, 0.0)),
            Arc((0.0, 0.0), 1.0, 0, 360),
            Arc((0.0, 0.0), 3.0, 0, 360),
            Arc((0.0, 0.0), 5.0, 0, 360),
        ],
        "VOR" => [
            poly(&[(-6.0, 0.0), (-2.0, -5.0), (2.0, -5.0), (6.0, 0.0), (2.0, 5.0), (-2.0, 5.0), (-6.0, 0.0)]),
            poly(&[(-6.0, -5.0), (-6.0, 5.0), (6.0, 5.0), (6.0, -5.0), (-6.0, -5.0)]),
        ]
        .concat(),
        "AIRPORT" => [
            poly(&[(-3.0, -3.0), (3.0, -3.0), (3.0, 3.0), (-3.0, 3.0), (-3.0, -3.0)]),
            poly(&[(5.0, 0.0), (-6.0, 0.0)]),
            poly(&[(0.0, 5.0), (0.0, -6.0)]),
        ]
        .concat(),
        "PRIMARY" => [poly(&[(-3.0, -3.0), (4.0, 4.0)]), poly(&[(-3.0, 3.0), (4.0, -4.0)])].concat(),
        "COASTED" => poly(&[(-4.0, -4.0), (-4.0, 4.0), (4.0, 4.0), (4.0, -4.0)]),
        "UNCONTROLLED" => poly(&[(-4.0, 3.0), (0.0, -4.0), (3.0, 3.0), (-4.0, 3.0)]),
        "DAPS" => poly(&[(-5.0, 0.0), (0.0, -5.0), (5.0, 0.0), (0.0, 5.0), (-5.0, 0.0)]),
        _ => unreachable!(),
    }
}

/// Topsky name, symbology number and setting of every symbol an adaptation has.
const SYMBOLS: [(&str, usize); 9] = [
    ("HISTORY", 14), ("FIX", 3), ("NDB", 1), ("VOR", 2), ("AIRPORT", 0),
    ("PRIMARY", 5), ("COASTED", 13), ("UNCONTROLLED", 18), ("DAPS", 9),
];

fn close(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-5 * b.abs()
}

/// The TopSky values an adaptation shows.
struct Sky {
    symbols: HashMap<String, Vec<SymbolRule>>,
    colours: HashMap<String, Colour>,
    settings: HashMap<String, String>,
}

/// TopSky colour names the adaptation reads, with the two palettes' defaults (without, with COOPANS).
const UI: [(&str, [(u8, u8, u8); 2]); 14] = [
    ("Assumed", [(1, 0, 1), (220, 220, 220)]),
    ("Concerned", [(124, 1, 124), (111, 153, 110)]),
    ("Redundant", [(156, 96, 59), (185, 140, 89)]),
    ("Unconcerned", [(110, 98, 98), (135, 128, 118)]),
    ("VFR", [(110, 1, 10), (110, 1, 10)]),
    ("Flight_Leg", [(205, 252, 255), (170, 231, 197)]),
    ("Warning", [(236, 228, 108), (240, 225, 41)]),
    ("Urgency", [(236, 32, 0), (225, 25, 26)]),
    ("Proposition_In", [(254, 255, 255), (220, 125, 175)]),
    ("Rwy_Locked", [(124, 1, 124), (41, 210, 41)]),
    ("Arm", [(97, 97, 97), (97, 97, 97)]),
    ("Background", [(162, 163, 156), (74, 80, 85)]),
    ("Foreground", [(0, 1, 0), (200, 200, 200)]),
    ("Field_Highlight", [(209, 207, 211), (72, 72, 73)]),
];

fn sky(s: &mut Src, w: &mut World) -> Option<Sky> {
    if s.chance(1, 5) {
        for f in [MAPS_F, TSYMBOLS_F, TSETTINGS_F] {
            w.files.remove(f);
        }
        return None;
    }
    let mut sky = Sky { symbols: HashMap::new(), colours: HashMap::new(), settings: HashMap::new() };
    let names: Vec<&str> = SYMBOLS.iter().map(|x| x.0).chain(["TOWER", "Fix", "HISTORY2"]).collect();
    let mut def = |s: &mut Src, head: &str| {
        let n = s.pick(&names).to_string();
        let (lines, rules) = script(s, 4);
        sky.symbols.insert(n.clone(), rules);
        format!("{head}:{n}\n{}\n", lines.join("\n"))
    };
    if s.bool() {
        let mut t = String::new();
        for _ in 0..s.int(1, 7) {
            t.push_str(&def(s, "SYMBOL"));
        }
        w.set(TSYMBOLS_F, t);
    } else {
        w.files.remove(TSYMBOLS_F);
    }
    let mut settings = String::new();
    for (k, values) in [
        ("Setup_COOPANS", vec!["0", "1", "2", ""]),
        ("Maps_FontSize", vec!["8", "13.5", "0", "x", "-2", "inf", "1e39", "NaN"]),
        ("Track_HistoryDots", vec!["0", "1", "3", "8", "x", "-1", "2.5"]),
        ("Track_PredictionLine", vec!["0", "1", "0.5", "3", "15", "x", "0.0", "inf", "-1e39", "nan"]),
        ("Setup_COOPANS2", vec!["0"]),
    ] {
        if s.chance(2, 3) {
            let v = s.pick(&values).to_string();
            settings.push_str(&format!("{k}={v}\n"));
            sky.settings.insert(k.to_string(), v);
        }
    }
    let (num, den) = *s.pick(&[(0, 1), (1, 3), (7, 8)]);
    let mut maps = String::new();
    for (n, _) in UI {
        if s.chance(num, den) {
            let (r, g, b) = (s.int(0, 255), s.int(0, 255), s.int(0, 255));
            settings.push_str(&format!("Color_{n}={r},{g},{b}\n"));
            sky.colours.insert(n.to_string(), Colour::from_rgb(r as u8, g as u8, b as u8));
        }
        if s.chance(num, den * 4) {
            let (r, g, b) = (s.int(0, 255), s.int(0, 255), s.int(0, 255));
            maps.push_str(&format!("COLORDEF:{n}:{r}:{g}:{b}\n"));
            sky.colours.insert(n.to_string(), Colour::from_rgb(r as u8, g as u8, b as u8));
        }
    }
    for _ in 0..s.int(0, 2) {
        maps.push_str(&def(s, "SYMBOLDEF"));
    }
    maps.push_str("COLORDEF:Unrelated:1:2:3\n");
    w.set(MAPS_F, maps);
    w.set(TSETTINGS_F, settings);
    Some(sky)
}

fn settings(s: &mut Src, c: &mut Case) -> Res {
    let m = symbology(s);
    let mut w = World::seed();
    w.set(SYMBOLOGY_F, m.text.clone());
    let sky = sky(s, &mut w);
    c.input = format!("{}\n--\n{:?}", m.text, sky.as_ref().map(|k| (&k.symbols, &k.colours, &k.settings)));
    let known = ITEMS[..26].iter().filter(|(f, n)| m.items.contains_key(&(f.to_string(), n.to_string()))).count();
    c.nontrivial = known >= 1 && known < 26;
    c.label(format!("items:{}", known / 8 * 8));
    c.label(if sky.is_some() { "topsky" } else { "no topsky" });
    let a = load(&w, &c.scratch)?;
    judge(&a, &m, sky.as_ref())
}

fn judge(a: &Adaptation, m: &Sym, sky: Option<&Sky>) -> Res {
    let get = |f: &str, n: &str| m.items.get(&(f.to_string(), n.to_string()));
    let col = |f: &str, n: &str, d: i64| get(f, n).map_or(rgb(d), |i| rgb(i.colour));
    let mc = &a.colours.map;
    for (what, got, f, n) in [
        ("fix_symbol", mc.fix_symbol, "Fixes", "symbol"),
        ("fix_name", mc.fix_name, "Fixes", "name"),
        ("airport_symbol", mc.airport_symbol, "Airports", "symbol"),
        ("airport_name", mc.airport_name, "Airports", "name"),
        ("ndb_symbol", mc.ndb_symbol, "NDBs", "symbol"),
        ("ndb_name", mc.ndb_name, "NDBs", "name"),
        ("ndb_frequency", mc.ndb_frequency, "NDBs", "frequency"),
        ("vor_symbol", mc.vor_symbol, "VORs", "symbol"),
        ("vor_name", mc.vor_name, "VORs", "name"),
        ("vor_frequency", mc.vor_frequency, "VORs", "frequency"),
        ("low_airway_line", mc.low_airway_line, "Low airways", "line"),
        ("low_airway_name", mc.low_airway_name, "Low airways", "name"),
        ("high_airway_line", mc.high_airway_line, "High airways", "line"),
        ("high_airway_name", mc.high_airway_name, "High airways", "name"),
        ("sid", mc.sid, "Sids", "line"),
        ("star", mc.star, "Stars", "line"),
        ("geo", mc.geo, "Geo", "line"),
        ("artcc_boundary", mc.artcc_boundary, "ARTCC boundary", "line"),
        ("artcc_low_boundary", mc.artcc_low_boundary, "ARTCC low boundary", "line"),
        ("artcc_high_boundary", mc.artcc_high_boundary, "ARTCC high boundary", "line"),
        ("runway_centreline", mc.runway_centreline, "Runways", "centerline"),
        ("runway_extended_centreline", mc.runway_extended_centreline, "Runways", "extended centerline"),
        ("runway_name", mc.runway_name, "Runways", "name"),
        ("free_text", mc.free_text, "Other", "freetext"),
    ] {
        ensure_eq!(got, col(f, n, 0), "colours.map.{what}, item {f}:{n} written {}", get(f, n).is_some());
    }
    let sc = &a.colours.sector;
    ensure_eq!(sc.active_background, col("Sector", "active sector background", 0xc8_c8c8), "active sector background");
    ensure_eq!(sc.inactive_background, col("Sector", "inactive sector background", 0xc8_c8c8), "inactive background");

    let ls = &a.settings.maps.line_styles;
    for (what, got, f, n) in [
        ("runway_centreline", &ls.runway_centreline, "Runways", "centerline"),
        ("geo", &ls.geo, "Geo", "line"),
        ("sid", &ls.sid, "Sids", "line"),
        ("star", &ls.star, "Stars", "line"),
        ("high_airways", &ls.high_airways, "High airways", "line"),
        ("low_airways", &ls.low_airways, "Low airways", "line"),
        ("artcc_low", &ls.artcc_low, "ARTCC low boundary", "line"),
        ("artcc", &ls.artcc, "ARTCC boundary", "line"),
        ("artcc_high", &ls.artcc_high, "ARTCC high boundary", "line"),
    ] {
        let (w, st) = get(f, n).map_or((1, "SOLID"), |i| (i.weight as i32, STYLES[i.style]));
        ensure!(
            (got.width, got.style.as_str()) == (w, st),
            "line style {what} is {got:?}, item {f}:{n} says {w} {st} (written {})",
            get(f, n).is_some()
        );
    }
    let lb = &a.settings.maps.labels;
    for (what, al, size, f) in [
        ("vor", lb.vor_alignment, lb.vor_font_size, "VORs"),
        ("ndb", lb.ndb_alignment, lb.ndb_font_size, "NDBs"),
        ("fix", lb.fix_alignment, lb.fix_font_size, "Fixes"),
        ("airport", lb.airport_alignment, lb.airport_font_size, "Airports"),
        ("runway", lb.runway_alignment, lb.runway_font_size, "Runways"),
    ] {
        let i = get(f, "name");
        let want = i.map_or(Alignment { horizontal: H::Center, vertical: V::Center }, It::alignment);
        ensure!(al == want, "label alignment {what} is {al:?}, want {want:?} (written {})", i.is_some());
        let want = i.map_or(3.0, |i| i.scale.1) * 3.5;
        ensure!(close(size, want), "label size {what} is {size}, want {want} (written {})", i.is_some());
    }
    // symbols: TopSky, else symbology, else default
    let sy = &a.symbols;
    let by_name: [&Vec<SymbolRule>; 9] = [
        &sy.history_dot, &sy.fix, &sy.ndb, &sy.vor, &sy.airport, &sy.primary, &sy.coasted, &sy.uncontrolled,
        &sy.controlled,
    ];
    for ((name, id), got) in SYMBOLS.iter().zip(by_name) {
        let (src, want) = if let Some(r) = sky.and_then(|k| k.symbols.get(*name)) {
            ("TopSky", r.clone())
        } else if let Some(r) = m.symbols.get(id) {
            ("symbology", r.clone())
        } else {
            ("default", default_symbol(name))
        };
        ensure!(*got == want, "symbol {name} is {got:?}, {src} has {want:?}");
    }
    for n in ["TOWER", "Fix", "HISTORY2", "FIX", "DAPS", "nothing"] {
        let want = sky.and_then(|k| k.symbols.get(n)).map(Vec::as_slice);
        ensure!(sy.get(n) == want, "named symbol {n} is {:?}, want {want:?}", sy.get(n));
    }
    // TopSky settings and colours
    let set = |k: &str| sky.and_then(|y| y.settings.get(k)).map(String::as_str);
    let coopans = set("Setup_COOPANS") != Some("0");
    ensure_eq!(a.settings.coopans, coopans, "COOPANS");
    let font = set("Maps_FontSize").and_then(|v| v.parse().ok()).filter(|v: &f32| v.is_finite()).unwrap_or(12.0);
    ensure!(close(a.settings.maps.font_size, font), "map font size {} instead of {font}", a.settings.maps.font_size);
    let m = &a.settings.maps;
    ensure!(m.label_offset == (3.0, 3.0) && m.layer == 1.0 && m.font.is_none() && m.auto_folder == "AUTO", "map settings {:?} {} {:?} {}", m.label_offset, m.layer, m.font, m.auto_folder);
    let (dots, on) = match set("Track_HistoryDots") {
        Some("0") => (6, false),
        v => (v.and_then(|v| v.parse().ok()).unwrap_or(6u32), sky.is_some()),
    };
    let h = &a.settings.track.history_dots;
    ensure!((h.count, h.enabled) == (dots, on), "history dots {} {}, want {dots} {on}", h.count, h.enabled);
    let (len, on) = match set("Track_PredictionLine") {
        Some("0" | "0.0") => (1.0, false),
        v => (v.and_then(|v| v.parse().ok()).filter(|v: &f32| v.is_finite()).unwrap_or(1.0), sky.is_some()),
    };
    let v = &a.settings.track.vector;
    ensure!(close(v.length, len) && v.enabled == on, "vector {} {}, want {len} {on}", v.length, v.enabled);
    ensure_eq!(h.options, (0..=8).collect::<Vec<u32>>(), "choices of history dots");
    let lengths = [0.5, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 15.0, 20.0f32];
    ensure_eq!(v.options, lengths, "choices of vector lengths");
    let (t, u) = (&a.colours.track, &a.colours.ui);
    for (what, got, n) in [
        ("track.assumed", t.assumed, "Assumed"),
        ("track.advanced", t.advanced, "Concerned"),
        ("track.concerned", t.concerned, "Redundant"),
        ("track.unconcerned", t.unconcerned, "Unconcerned"),
        ("track.vfr", t.vfr, "VFR"),
        ("track.flight_leg", t.flight_leg, "Flight_Leg"),
        ("track.predicted_alert", t.predicted_alert, "Warning"),
        ("track.current_alert", t.current_alert, "Urgency"),
        ("track.reaction", t.reaction, "Proposition_In"),
        ("track.cleared", t.cleared, "Rwy_Locked"),
        ("ui.armed", u.armed, "Arm"),
        ("ui.background", u.background, "Background"),
        ("ui.window_title_background_selected", u.window_title_background_selected, "Background"),
        ("ui.foreground", u.foreground, "Foreground"),
        ("ui.text_input", u.text_input, "Field_Highlight"),
        ("ui.warning", u.warning, "Warning"),
        ("ui.alert", u.alert, "Urgency"),
    ] {
        let written = sky.and_then(|k| k.colours.get(n)).copied();
        let want = written.unwrap_or_else(|| {
            let (r, g, b) = UI.iter().find(|x| x.0 == n).unwrap().1[coopans as usize];
            Colour::from_rgb(r, g, b)
        });
        ensure!(got == want, "colours.{what} is {got:?}, {n} is {want:?} (written {}, coopans {coopans})", written.is_some());
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "at least one of the items the adaptation uses is written (and, for adaptations, at least one omitted) and symbols are drawn",
        assumptions: &["defaults are those of the pinned tree, copied into the check", "an item whose colour or line weight is no valid number counts as omitted"],
        subs: vec![
            Sub { name: "parse", quick: 4000, thorough: 120_000, f: parse },
            Sub { name: "settings", quick: 2500, thorough: 60_000, f: settings },
        ],
        probes: vec![],
    }
}
