//! Display (asr) files parse to exactly the settings they contain.
use crate::engine::*;
use crate::gen::{dms, icao, runway_designator, WIN1252};
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use vatsim_parser::asr::*;

fn name(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 2, 1]) {
        0 => s
            .pick(&[
                "EDDM", "EDDM 08L-26R", "EDDM SID 26R GIVMI1N", "Release line EDMM ARBAX Window", "MIQ", "L603",
                "A", "EDDM Taxiways", "name", "symbol", "ABOVE", "Gates/101", "*", "x=1,y=2", "CTR (D)",
            ])
            .to_string(),
        1 => s.word(1, 8, "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 -_./").trim().to_string(),
        2 => s.word(1, 6, "abcxyz;,[]()'&#").trim_start_matches(';').to_string(),
        _ => s.word(1, 4, WIN1252),
    }
}

fn nonempty(s: &mut Src) -> String {
    let n = name(s);
    if n.is_empty() {
        "X".to_string()
    } else {
        n
    }
}

/// Text up to the end of the line.
fn value(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 1, 1]) {
        0 => s
            .pick(&["EDMM", "\\EDMM.sct", "C:\\Sector Files\\EDMM.sct", "iCAS2-APP", "Matias (built in)", "TWR", "a;b", "1"])
            .to_string(),
        1 => nonempty(s),
        2 => String::new(),
        _ => format!("{}:{}", nonempty(s), nonempty(s)),
    }
}

/// What a file says, in a form that can be compared.
#[derive(Default)]
struct Model {
    /// setting -> first value written
    set: BTreeMap<&'static str, String>,
    window: Option<[f64; 4]>,
    plugins: BTreeMap<(String, String), String>,
    map: Vec<String>,
}

const NUMBERS: [&str; 5] = ["ABOVE", "BELOW", "LEADER", "HISTORY_DOTS", "SIMULATION_MODE"];
const BOOLS: [&str; 7] = [
    "DISABLEPANNING", "DISABLEZOOMING", "DisplayTypeGeoReferenced", "DisplayTypeNeedRadarContent",
    "SHOWLEADER", "SHOWC", "SHOWSB",
];
const TEXTS: [&str; 4] = ["SECTORFILE", "SECTORTITLE", "TAGFAMILY", "DisplayTypeName"];

struct Line {
    text: String,
    /// the line ends in a keyword or number, so a comment may follow it directly
    closed: bool,
}

fn number(s: &mut Src, k: &str) -> i64 {
    match k {
        "SIMULATION_MODE" => *s.pick(&[1, 4, 0, 2, 3, 5, 14]),
        "LEADER" => match s.weighted(&[4, 1]) {
            0 => s.int(-10, 10),
            _ => *s.pick(&[-255, 255, 254, -254, 100]),
        },
        "HISTORY_DOTS" => match s.weighted(&[4, 1]) {
            0 => s.int(0, 10),
            _ => *s.pick(&[255, 254, 128]),
        },
        _ => match s.weighted(&[2, 4, 1]) {
            0 => 0,
            1 => s.int(1, 66000),
            _ => *s.pick(&[1, 4_294_967_295, 65535, 65536, 99999]),
        },
    }
}

/// Numbers that are none of the setting's values: the setting keeps its default.
fn invalid(s: &mut Src, k: &str) -> Option<&'static str> {
    match k {
        "ABOVE" | "BELOW" => Some(*s.pick(&["-1", "4294967296", "-24500", "99999999999999"])),
        "LEADER" => Some(*s.pick(&["256", "-256", "32768", "-40000", "99999999999"])),
        "HISTORY_DOTS" => Some(*s.pick(&["256", "-1", "99999999"])),
        _ => None,
    }
}

fn setting(s: &mut Src, m: &mut Model) -> Line {
    let put = |m: &mut Model, k: &'static str, v: String| {
        m.set.entry(k).or_insert(v);
    };
    match s.weighted(&[5, 6, 4, 2, 2]) {
        0 => {
            let k = *s.pick(&NUMBERS);
            let n = number(s, k);
            let text = match s.weighted(&[6, 1]) {
                1 if n > 0 => format!("{k}:0{n}"),
                _ => format!("{k}:{n}"),
            };
            // an unusual spelling of a mode is another matter
            let text = if k == "SIMULATION_MODE" { format!("{k}:{n}") } else { text };
            put(m, k, n.to_string());
            Line { text, closed: true }
        }
        1 => {
            let k = *s.pick(&[BOOLS[0], BOOLS[1], BOOLS[2], BOOLS[3], BOOLS[4], BOOLS[5], BOOLS[6], "TURNLEADER"]);
            let v = s.int(0, 1).to_string();
            let text = format!("{k}:{v}");
            put(m, k, v);
            Line { text, closed: true }
        }
        2 => {
            let k = *s.pick(&TEXTS);
            let v = if k == "DisplayTypeName" {
                match s.weighted(&[2, 2, 1]) {
                    0 => "Ground Radar display".to_string(),
                    1 => "Standard ES radar screen".to_string(),
                    _ => value(s),
                }
            } else {
                value(s)
            };
            let v = v.trim_start_matches(';').to_string();
            let text = format!("{k}:{v}");
            put(m, k, v);
            Line { text, closed: false }
        }
        3 => {
            let v = match s.weighted(&[2, 3, 1]) {
                0 => "0.00000".to_string(),
                1 => format!("{}.{}", s.int(-360, 360), s.word(1, 6, "0123456789")),
                _ => format!("{}", s.int(-180, 180)),
            };
            // a number no type can represent is ignored
            let huge = s.chance(1, 30);
            let v = if huge { format!("{}{}", "9".repeat(s.us(309, 400)), v.trim_start_matches('-')) } else { v };
            let text = format!("DisplayRotation:{v}");
            if !huge {
                put(m, "DisplayRotation", v);
            }
            Line { text, closed: true }
        }
        _ => {
            let mut v = [0.0; 4];
            let mut t = vec![];
            for i in 0..2 {
                let mut d = dms(s);
                // some countries' dummies
                if s.chance(1, 12) {
                    d.lng = s.int(181, 9999) * 3_600_000;
                }
                if s.chance(1, 2) {
                    // coordinates as the sector file writes them
                    v[2 * i] = d.lat as f64 / 3.6e6;
                    v[2 * i + 1] = d.lng as f64 / 3.6e6;
                    t.push(d.lat_text(s).to_uppercase());
                    t.push(d.lng_text(s).to_uppercase());
                } else {
                    for (j, x) in [d.lat, d.lng].into_iter().enumerate() {
                        let x = format!("{:.*}", s.us(0, 6), x as f64 / 3.6e6);
                        v[2 * i + j] = x.parse().expect("decimal");
                        t.push(x);
                    }
                }
            }
            m.window.get_or_insert(v);
            Line { text: format!("WINDOWAREA:{}", t.join(":")), closed: true }
        }
    }
}

fn map_item(s: &mut Src, m: &mut Model) -> Line {
    let n = if s.chance(1, 15) { String::new() } else { nonempty(s) };
    let fix = |s: &mut Src| s.bool();
    let (text, key) = match s.idx(16) {
        0 => {
            let end = |s: &mut Src| {
                let d = runway_designator(s);
                if s.chance(1, 10) { format!("{}W", &d[..2]) } else { d }
            };
            let (a, d, e) = (if s.chance(1, 15) { String::new() } else { icao(s) }, end(s), end(s));
            let a = match s.weighted(&[3, 1]) {
                0 => a,
                _ => format!("{a} München"),
            };
            match s.weighted(&[2, 2, 1]) {
                0 => (format!("Runways:{a} {d}-{e}:centerline"), Some(format!("runways {a:?} {d} {e} Centreline"))),
                1 => (format!("Runways:{a} {d}-{e}:name"), Some(format!("runways {a:?} {d} {e} Name"))),
                _ => {
                    let x = s.int(1, 2);
                    let how = s.pick(&["", " left ticks", " left vectoring", " left base", " right ticks", " right vectoring", " right base"]);
                    (format!("Runways:{a} {d}-{e}:extended centerline {x}{how}"), None)
                }
            }
        }
        i @ (1 | 2) => {
            let (l, k) = [("Airports", "airports"), ("Fixes", "fixes")][i - 1];
            let (t, v) = if fix(s) { ("symbol", "Symbol") } else { ("name", "Name") };
            (format!("{l}:{n}:{t}"), Some(format!("{k} {n:?} {v}")))
        }
        i @ (3 | 4) => {
            let (l, k) = [("VORs", "vors"), ("NDBs", "ndbs")][i - 3];
            let (t, v) = *s.pick(&[("symbol", "Symbol"), ("name", "Name"), ("frequency", "Frequency")]);
            (format!("{l}:{n}:{t}"), Some(format!("{k} {n:?} {v}")))
        }
        i @ (5 | 6) => {
            let (l, k) = [("Low airways", "low_airways"), ("High airways", "high_airways")][i - 5];
            let (t, v) = if fix(s) { ("line", "Line") } else { ("name", "Name") };
            (format!("{l}:{n}:{t}"), Some(format!("{k} {n:?} {v}")))
        }
        7 => {
            let g = n.replace('\\', "/");
            let l = match s.weighted(&[9, 3, 1]) {
                0 => nonempty(s),
                2 => String::new(),
                _ => "101\\A".to_string(),
            };
            (format!("Free Text:{g}\\{l}:freetext"), Some(format!("free_text {g:?} {l:?}")))
        }
        8 => {
            let (t, v) = *s.pick(&[("exit", "Exit"), ("taxiway", "Taxiway"), ("terminal taxiway", "TerminalTaxiway")]);
            (format!("Ground Network:{n}:{t}"), Some(format!("ground_network {n:?} {v}")))
        }
        9 => (format!("Regions:{n}:polygon"), Some(format!("regions {n:?}"))),
        i => {
            let (l, k) = [
                ("Sids", "sids"), ("Stars", "stars"), ("Geo", "geo"), ("ARTCC boundary", "artcc_boundary"),
                ("ARTCC low boundary", "artcc_low_boundary"), ("ARTCC high boundary", "artcc_high_boundary"),
            ][i - 10];
            (format!("{l}:{n}:"), Some(format!("{k} {n:?}")))
        }
    };
    m.map.extend(key);
    Line { text, closed: true }
}

fn render_map(m: &AsrMap) -> Vec<String> {
    let mut v = vec![];
    v.extend(m.runways.iter().map(|(a, d, e, t)| format!("runways {a:?} {d} {e} {t:?}")));
    v.extend(m.airports.iter().map(|(n, t)| format!("airports {n:?} {t:?}")));
    v.extend(m.vors.iter().map(|(n, t)| format!("vors {n:?} {t:?}")));
    v.extend(m.ndbs.iter().map(|(n, t)| format!("ndbs {n:?} {t:?}")));
    v.extend(m.fixes.iter().map(|(n, t)| format!("fixes {n:?} {t:?}")));
    v.extend(m.low_airways.iter().map(|(n, t)| format!("low_airways {n:?} {t:?}")));
    v.extend(m.high_airways.iter().map(|(n, t)| format!("high_airways {n:?} {t:?}")));
    v.extend(m.free_text.iter().map(|(n, t)| format!("free_text {n:?} {t:?}")));
    v.extend(m.ground_network.iter().map(|(n, t)| format!("ground_network {n:?} {t:?}")));
    for (k, l) in [
        ("sids", &m.sids), ("stars", &m.stars), ("geo", &m.geo), ("regions", &m.regions),
        ("artcc_boundary", &m.artcc_boundary), ("artcc_low_boundary", &m.artcc_low_boundary),
        ("artcc_high_boundary", &m.artcc_high_boundary),
    ] {
        v.extend(l.iter().map(|n| format!("{k} {n:?}")));
    }
    v
}

/// Items of each kind keep the order of the file.
fn by_kind(v: &[String]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for x in v {
        m.entry(x.split(' ').next().unwrap().to_string()).or_default().push(x.clone());
    }
    m
}

fn lines(s: &mut Src, m: &mut Model) -> Vec<Line> {
    let mut out = vec![];
    let n = match s.weighted(&[33, 33, 33, 1]) {
        0 => 3,
        1 => 12,
        2 => 40,
        _ => 800,
    };
    for _ in 0..s.int(1, n) {
        let l = match s.weighted(&[4, 5, 2]) {
            0 => setting(s, m),
            1 => map_item(s, m),
            _ => {
                let (p, k) = match s.weighted(&[4, 1]) {
                    0 => (
                        s.pick(&["TopSky plugin", "Ground Radar plugin", "vSMR"]).to_string(),
                        s.pick(&["HideMapData", "ShowMapData", "Profile", "AirportIcao"]).to_string(),
                    ),
                    _ => (nonempty(s), nonempty(s)),
                };
                let v = value(s).trim_start_matches(';').to_string();
                let text = format!("PLUGIN:{p}:{k}:{v}");
                m.plugins.insert((p, k), v);
                Line { text, closed: false }
            }
        };
        out.push(l);
    }
    out
}

fn render(s: &mut Src, lines: &[Line]) -> String {
    let eol = *s.pick(&["\n", "\r\n"]);
    let mut t = String::new();
    if s.chance(1, 8) {
        t.push_str(eol);
    }
    for (i, l) in lines.iter().enumerate() {
        if s.chance(1, 12) {
            t.push_str(*s.pick(&[";", "; a comment", ";SHOWC:0", "; ABOVE:1 ; x"]));
            t.push_str(eol);
        }
        t.push_str(&l.text);
        let last = i + 1 == lines.len();
        if l.closed && s.chance(1, 20) {
            t.push_str(";comment");
            t.push_str(eol);
        } else if !last || s.chance(7, 8) {
            t.push_str(eol);
            if s.chance(1, 15) {
                t.push_str(eol);
            }
        }
    }
    t
}

fn parse(text: &str) -> Result<Asr, Fail> {
    no_panic("Asr::parse", || Asr::parse(text.as_bytes()))?.map_err(|e| Fail::from(format!("rejected: {e}")))
}

fn check(a: &Asr, m: &Model) -> Res {
    let get = |k: &str| m.set.get(k).map(String::as_str);
    let num = |k: &str| get(k).map(|v| v.parse::<i64>().expect("number"));
    let filter = |k: &str| num(k).filter(|v| *v != 0);
    ensure_eq!(a.above.map(i64::from), filter("ABOVE"), "ABOVE");
    ensure_eq!(a.below.map(i64::from), filter("BELOW"), "BELOW");
    let b = |k: &str, d: bool| get(k).map_or(d, |v| v == "1");
    ensure_eq!(a.disable_panning, b("DISABLEPANNING", false), "DISABLEPANNING");
    ensure_eq!(a.disable_zooming, b("DISABLEZOOMING", false), "DISABLEZOOMING");
    ensure_eq!(a.display_type_geo_referenced, b("DisplayTypeGeoReferenced", true), "DisplayTypeGeoReferenced");
    ensure_eq!(a.display_type_need_radar_content, b("DisplayTypeNeedRadarContent", true), "DisplayTypeNeedRadarContent");
    ensure_eq!(a.show_leader, b("SHOWLEADER", false), "SHOWLEADER");
    ensure_eq!(a.show_c, b("SHOWC", true), "SHOWC");
    ensure_eq!(a.show_standby, b("SHOWSB", false), "SHOWSB");
    ensure_eq!(a.turn_leader, b("TURNLEADER", false), "TURNLEADER");
    let rot: f64 = get("DisplayRotation").map_or(0.0, |v| v.parse().expect("rotation"));
    ensure_eq!(a.display_rotation, rot, "DisplayRotation");
    let ground = get("DisplayTypeName") == Some("Ground Radar display");
    ensure_eq!(a.display_type == DisplayType::GroundRadar, ground, "DisplayTypeName");
    ensure_eq!(i64::from(a.history_dots), num("HISTORY_DOTS").unwrap_or(5), "HISTORY_DOTS");
    let leader = match num("LEADER") {
        None => Leader::Minutes(3),
        Some(n) if n > 0 => Leader::Miles(n as u8),
        Some(n) => Leader::Minutes(n.unsigned_abs() as u8),
    };
    ensure_eq!(a.leader, leader, "LEADER");
    let mode = if num("SIMULATION_MODE") == Some(4) { SimulationMode::Ground } else { SimulationMode::Radar };
    ensure_eq!(a.simulation_mode, mode, "SIMULATION_MODE");
    ensure_eq!(a.sector_file.as_str(), get("SECTORFILE").unwrap_or(""), "SECTORFILE");
    ensure_eq!(a.sector_title.as_str(), get("SECTORTITLE").unwrap_or(""), "SECTORTITLE");
    ensure_eq!(a.tag_family.as_str(), get("TAGFAMILY").unwrap_or("Matias (built in)"), "TAGFAMILY");
    let w = m.window.unwrap_or([46.529122, 6.678287, 50.105536, 16.5999]);
    let (p, q) = a.window_area;
    for (i, g) in [p.y, p.x, q.y, q.x].into_iter().enumerate() {
        ensure!((g - w[i]).abs() < 1e-9, "WINDOWAREA value {i} is {g}, written {}", w[i]);
    }
    let got: BTreeMap<_, _> = a.plugin_settings.0.clone().into_iter().collect();
    ensure_eq!(got, m.plugins, "plugin settings");
    ensure_eq!(by_kind(&render_map(&a.map)), by_kind(&m.map), "map items");
    Ok(())
}

fn model(s: &mut Src, c: &mut Case) -> Res {
    let mut m = Model::default();
    let mut l = lines(s, &mut m);
    if s.chance(1, 6) {
        // a number out of range leaves the default
        let k = *s.pick(&NUMBERS);
        if let (None, Some(v)) = (m.set.get(k), invalid(s, k)) {
            let at = s.us(0, l.len());
            l.insert(at, Line { text: format!("{k}:{v}"), closed: true });
            c.label("number out of range");
        }
    }
    let text = render(s, &l);
    c.input = text.clone();
    c.nontrivial = m.set.len() + m.map.len() + m.plugins.len() >= 2;
    c.label(format!("settings:{}", m.set.len().min(8) / 2 * 2));
    c.label(format!("map items:{}", m.map.len().min(12) / 4 * 4));
    c.label(format!("plugin values:{}", m.plugins.len().min(2)));
    check(&parse(&text)?, &m)
}

/// The order of lines with different keys does not matter.
fn reordered(s: &mut Src, c: &mut Case) -> Res {
    let mut m = Model::default();
    let l = lines(s, &mut m);
    let key = |l: &Line| {
        let mut p = l.text.splitn(4, ':');
        let k = p.next().unwrap().to_string();
        if k == "PLUGIN" {
            format!("{k}:{}:{}", p.next().unwrap(), p.next().unwrap())
        } else {
            k
        }
    };
    // a random order that keeps the order of equal keys
    let mut rank: BTreeMap<String, u64> = BTreeMap::new();
    for x in &l {
        let r = s.draw(1000);
        rank.entry(key(x)).or_insert(r);
    }
    let mut idx: Vec<usize> = (0..l.len()).collect();
    idx.sort_by_key(|i| rank[&key(&l[*i])]);
    let plain: String = l.iter().map(|x| format!("{}\n", x.text)).collect();
    let moved: String = idx.iter().map(|i| format!("{}\n", l[*i].text)).collect();
    c.input = format!("{plain}--\n{moved}");
    c.nontrivial = plain != moved;
    c.label(if plain != moved { "moved" } else { "same" });
    let (a, b) = (parse(&plain)?, parse(&moved)?);
    check(&a, &m)?;
    check(&b, &m)
}

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "the file has at least two settings, plugin values or map items (or, when reordered, the order really changed)",
        assumptions: &[
            "defaults are those of the pinned tree, copied into the check",
            "texts do not begin with the comment character; lines of unknown kind are not generated (such a file is rejected as a whole)",
        ],
        subs: vec![
            Sub { name: "model", quick: 20_000, thorough: 600_000, f: model },
            Sub { name: "reordered", quick: 5000, thorough: 150_000, f: reordered },
        ],
        probes: vec![],
    }
}
