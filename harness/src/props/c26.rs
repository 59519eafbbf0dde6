//! What a reader returns can be written as JSON, with every value of it.
use super::{c10, c14, c17};
use crate::debug_tree::{self, Tree};
use crate::engine::*;
use crate::gen_ese;
use crate::gen_sct;
use crate::gen_sky::{self, Cfg};
use crate::gram::Format;
use crate::seeds::*;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::fmt::Debug;
use std::path::Path;

/// JSON as it is written, with members in order and repeated ones kept.
#[derive(Debug, Clone, PartialEq)]
enum Json {
    Null,
    Bool(bool),
    Num(f64),
    Text(String),
    List(Vec<Json>),
    Object(Vec<(String, Json)>),
}

impl<'de> Deserialize<'de> for Json {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Json;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_unit<E>(self) -> Result<Json, E> {
                Ok(Json::Null)
            }
            fn visit_bool<E>(self, b: bool) -> Result<Json, E> {
                Ok(Json::Bool(b))
            }
            fn visit_i64<E>(self, n: i64) -> Result<Json, E> {
                Ok(Json::Num(n as f64))
            }
            fn visit_u64<E>(self, n: u64) -> Result<Json, E> {
                Ok(Json::Num(n as f64))
            }
            fn visit_f64<E>(self, n: f64) -> Result<Json, E> {
                Ok(Json::Num(n))
            }
            fn visit_str<E>(self, t: &str) -> Result<Json, E> {
                Ok(Json::Text(t.to_string()))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Json, A::Error> {
                let mut l = vec![];
                while let Some(x) = a.next_element()? {
                    l.push(x);
                }
                Ok(Json::List(l))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Json, A::Error> {
                let mut l = vec![];
                while let Some(x) = a.next_entry()? {
                    l.push(x);
                }
                Ok(Json::Object(l))
            }
        }
        d.deserialize_any(V)
    }
}

/// Alternatives whose name has to be in the JSON.
const TAGGED: [&str; 37] = [
    "Fix", "Coordinate", "Miles", "Minutes", "Exact", "Add", "Subtract", "Multiply", "Folder", "Colour", "AsrData", "Active", "AndActive", "Layer",
    "Symbol", "Zoom", "FontSize", "LineStyle", "Line", "Text", "CoordPoly", "Coord", "Sid", "Star", "Aup", "Notam", "Area", "Id", "Callsign",
    "Runway", "Map", "Move", "Pixel", "Arc", "EllipticArc", "FilledArc", "FilledEllipticArc",
];

struct Cmp {
    leaves: usize,
}

fn number(a: &str, b: f64) -> bool {
    a.parse::<f64>().is_ok_and(|x| x == b || (x - b).abs() <= 1e-12 * b.abs() || single_tie(a, b))
}

/// A single-precision number can lie right between two shortest decimals (300000.125 is
/// 300000.12 or 300000.13), and the two printers may take either one.
fn single_tie(a: &str, b: f64) -> bool {
    let digits = |t: &str| t.chars().filter(char::is_ascii_digit).count();
    let b_text = format!("{b:?}");
    digits(a) <= 10 && digits(a) == digits(&b_text) && a.parse::<f32>().ok() == b_text.parse::<f32>().ok()
}

fn key(t: &Tree) -> Option<String> {
    match t {
        Tree::Atom(a) if a.starts_with('"') => Some(a.clone()),
        Tree::Atom(a) => Some(format!("{a:?}")),
        // a pair of keys
        Tree::Group(n, '(', l) if n.is_empty() && l.len() == 2 => {
            let (a, b) = (key(&l[0].1)?, key(&l[1].1)?);
            Some(format!("{}:{}", &a[..a.len() - 1], &b[1..]))
        }
        Tree::Group(_, '(', l) if l.len() == 1 => key(&l[0].1),
        _ => None,
    }
}

impl Cmp {
    fn point(&mut self, t: &Tree, j: &Json, at: &str) -> Res {
        let ok = match (t, j) {
            (Tree::Atom(a), Json::Object(m)) if m.len() == 2 => {
                let v: Vec<&str> = a.split_whitespace().collect();
                let get = |k: &str| m.iter().find(|x| x.0 == k).map(|x| &x.1);
                v.len() == 2
                    && [("x", v[0]), ("y", v[1])].iter().all(|(k, a)| match get(k) {
                        Some(Json::Num(n)) => number(a, *n),
                        _ => false,
                    })
            }
            _ => false,
        };
        self.leaves += 1;
        if ok {
            Ok(())
        } else {
            Err(Fail::from(format!("{at}: {j:?} for {t:?}")))
        }
    }
    fn list(&mut self, l: &[(Option<Tree>, Tree)], j: &Json, at: &str) -> Res {
        match j {
            Json::List(m) if m.len() == l.len() => {
                for (i, ((_, t), j)) in l.iter().zip(m).enumerate() {
                    self.cmp(t, j, &format!("{at}[{i}]"))?;
                }
                Ok(())
            }
            _ => Err(Fail::from(format!("{at}: {} for a list of {}", brief(j), l.len()))),
        }
    }
    fn cmp(&mut self, t: &Tree, j: &Json, at: &str) -> Res {
        let no = || Err(Fail::from(format!("{at}: {} for {}", brief(j), brief(t))));
        match t {
            Tree::Atom(a) => {
                self.leaves += 1;
                let ok = match j {
                    Json::List(l) if l.is_empty() => a == "LINESTRING EMPTY",
                    Json::Null => a == "None" || a == "PhantomData",
                    Json::Bool(b) => a == &b.to_string(),
                    Json::Num(n) => number(a, *n),
                    Json::Text(x) => a == &format!("{x:?}") || (a == x && !a.starts_with('"')),
                    _ => false,
                };
                if ok {
                    Ok(())
                } else {
                    no()
                }
            }
            Tree::Group(n, '(', l) => match n.as_str() {
                "" => self.list(l, j, at),
                "Some" if l.len() == 1 => self.cmp(&l[0].1, j, at),
                "POINT" | "COORD" if l.len() == 1 => self.point(&l[0].1, j, at),
                "LINESTRING" => match j {
                    Json::List(m) if m.len() == l.len() => {
                        for ((_, t), j) in l.iter().zip(m) {
                            self.point(t, j, at)?;
                        }
                        Ok(())
                    }
                    _ => no(),
                },
                "POLYGON" => {
                    let Json::Object(m) = j else { return no() };
                    let get = |k: &str| m.iter().find(|x| x.0 == k).map(|x| x.1.clone());
                    let (Some(e), Some(Json::List(i))) = (get("exterior"), get("interiors")) else { return no() };
                    if i.len() + 1 != l.len() {
                        return no();
                    }
                    for ((_, ring), j) in l.iter().zip(std::iter::once(&e).chain(&i)) {
                        let Tree::Group(_, _, r) = ring else { return no() };
                        self.cmp(&Tree::Group("LINESTRING".into(), '(', r.clone()), j, at)?;
                    }
                    Ok(())
                }
                _ => {
                    let inner = match j {
                        Json::Object(m) if m.len() == 1 && m[0].0 == *n => Some(&m[0].1),
                        _ if TAGGED.contains(&n.as_str()) => return Err(Fail::from(format!("{at}: {} for {n}", brief(j)))),
                        _ => None,
                    };
                    let at = &format!("{at}/{n}");
                    if l.len() == 1 {
                        self.cmp(&l[0].1, inner.unwrap_or(j), at)
                    } else {
                        self.list(l, inner.unwrap_or(j), at)
                    }
                }
            },
            Tree::Group(_, '[', l) => self.list(l, j, at),
            Tree::Group(n, _, l) if n == "Colour" => {
                let want: Vec<u8> = ["r", "g", "b"]
                    .iter()
                    .filter_map(|k| l.iter().find(|x| x.0 == Some(Tree::Atom(k.to_string()))))
                    .filter_map(|x| match &x.1 {
                        Tree::Atom(a) => a.parse().ok(),
                        _ => None,
                    })
                    .collect();
                self.leaves += 1;
                match j {
                    Json::Text(x) if want.len() == 3 && x.to_lowercase() == format!("#{:02x}{:02x}{:02x}", want[0], want[1], want[2]) => Ok(()),
                    _ => no(),
                }
            }
            Tree::Group(n, _, l) => {
                // a set
                if n.is_empty() && !l.is_empty() && l.iter().all(|x| x.0.is_none()) {
                    let Json::List(m) = j else { return no() };
                    let mut want: Vec<_> = l.iter().filter_map(|x| key(&x.1)).collect();
                    let mut got: Vec<_> = m
                        .iter()
                        .map(|x| match x {
                            Json::Text(x) => format!("{x:?}"),
                            x => format!("{x:?}"),
                        })
                        .collect();
                    want.sort();
                    got.sort();
                    self.leaves += l.len();
                    return if want == got { Ok(()) } else { no() };
                }
                if l.is_empty() && *j == Json::List(vec![]) {
                    return Ok(());
                }
                let Json::Object(m) = j else { return no() };
                // the fields of an alternative
                if m.len() == 1 && m[0].0 == *n && !n.is_empty() {
                    return self.cmp(&Tree::Group(String::new(), '{', l.clone()), &m[0].1, &format!("{at}/{n}"));
                }
                for (k, v) in l {
                    let Some(k) = k.as_ref().and_then(key) else { return no() };
                    let mut found = m.iter().filter(|x| format!("{:?}", x.0) == k);
                    let at = format!("{at}.{k}");
                    match (found.next(), found.next()) {
                        (Some(x), None) => self.cmp(v, &x.1, &at)?,
                        (None, _) => return Err(Fail::from(format!("{at} is not in the JSON"))),
                        _ => return Err(Fail::from(format!("{at} is twice in the JSON"))),
                    }
                }
                if m.len() != l.len() {
                    return Err(Fail::from(format!("{at}: {} members for {}", m.len(), l.len())));
                }
                Ok(())
            }
        }
    }
}

fn brief<T: Debug>(t: &T) -> String {
    format!("{t:?}").chars().take(300).collect()
}

type Shown = Option<(String, Result<String, String>)>;
type Reader = fn(&[u8], &Path) -> Shown;

fn show<T: serde::Serialize + Debug, E>(r: Result<T, E>) -> Shown {
    r.ok().map(|v| (format!("{v:?}"), serde_json::to_string(&v).map_err(|e| e.to_string())))
}

fn topsky(dir: &Path, which: &str, b: &[u8]) -> Shown {
    let dir = dir.join("topsky");
    std::fs::create_dir_all(&dir).expect("scratch");
    for (n, t) in [("TopSkyMaps.txt", MAPS), ("TopSkySymbols.txt", TSYMBOLS), ("TopSkySettings.txt", TSETTINGS)] {
        std::fs::write(dir.join(n), if n == which { b } else { t.as_bytes() }).expect("scratch");
    }
    show(vatsim_parser::topsky::Topsky::parse(&dir))
}

fn readers() -> Vec<(&'static Format, Reader)> {
    use vatsim_parser as v;
    vec![
        (&F_SCT, |b, _| show(v::sct::Sct::parse(b))),
        (&F_ESE, |b, _| show(v::ese::Ese::parse(b))),
        (&F_AIRWAY, |b, _| show(v::airway::parse_airway_txt(b))),
        (&F_ISEC, |b, _| show(v::isec::parse_isec_txt(b))),
        (&F_AIRCRAFT, |b, _| show(v::icao_aircraft::parse_aircraft(b))),
        (&F_AIRLINES, |b, _| show(v::icao_airlines::parse_airlines(b))),
        (&F_AIRPORTS, |b, _| show(v::icao_airports::parse_airports(b))),
        (&F_NAVDATA, |b, _| show(v::navdata_airports::parse_navdata_airports(b))),
        (&F_PRF, |b, d| {
            let p = d.join("x.prf");
            std::fs::write(&p, b).expect("scratch");
            show(v::prf::Prf::parse(&p, b))
        }),
        (&F_ASR, |b, _| show(v::asr::Asr::parse(b))),
        (&F_SYMBOLOGY, |b, _| show(v::symbology::Symbology::parse(b))),
        (&F_MAPS, |b, d| topsky(d, "TopSkyMaps.txt", b)),
        (&F_TSYMBOLS, |b, d| topsky(d, "TopSkySymbols.txt", b)),
        (&F_TSETTINGS, |b, d| topsky(d, "TopSkySettings.txt", b)),
    ]
}

fn judge(c: &mut Case, name: &str, shown: Shown) -> Res {
    let Some((debug, json)) = shown else {
        c.label(format!("{name} rejected"));
        return Ok(());
    };
    c.label(format!("{name} accepted"));
    let json = json.map_err(|e| Fail::from(format!("{name}: not written as JSON: {e}")))?;
    let j: Json = serde_json::from_str(&json).map_err(|e| Fail::from(format!("{name}: no JSON: {e}: {json}")))?;
    let t = debug_tree::read(&debug, &[]);
    let mut cmp = Cmp { leaves: 0 };
    cmp.cmp(&t, &j, name)?;
    c.nontrivial = cmp.leaves >= 5;
    Ok(())
}

/// Keys of pairs are joined by a colon.
fn ambiguous(name: &str, t: &str) -> bool {
    name == F_PRF.name && t.lines().any(|l| l.split('\t').take(2).any(|f| f.contains(':')))
}

fn texts(s: &mut Src, c: &mut Case) -> Res {
    let rs = readers();
    let (f, read) = s.pick(&rs);
    let mut t = match (s.weighted(&[1, 3]), f.grammar()) {
        (1, Some(g)) => g.sentence(s, f.start),
        _ => s.pick(f.seeds).to_string(),
    };
    // the lines of several files together
    if s.chance(1, 4) {
        let more = match f.grammar() {
            Some(g) if s.bool() => g.sentence(s, f.start),
            _ => s.pick(f.seeds).to_string(),
        };
        t = format!("{}\n{more}", t.trim_end_matches('\n'));
    }
    c.input = format!("{}:\n{t}", f.name);
    if ambiguous(f.name, &t) {
        return Ok(());
    }
    let shown = no_panic("reading", || read(t.as_bytes(), &c.scratch.clone()))?;
    judge(c, f.name, shown)
}

fn models(s: &mut Src, c: &mut Case) -> Res {
    use vatsim_parser as v;
    let (name, t): (&str, String) = match s.draw(7) {
        0 => ("sct", gen_sct::model(s, &gen_sct::Opts::default()).render(s)),
        1 => ("ese", gen_ese::model(s, &gen_ese::Opts::default()).render(s)),
        2 => ("symbology", c17::symbology(s).text),
        3 => ("airway", c10::table(s)),
        4 => ("aircraft", c14::lists(s).0),
        5 => ("airlines", c14::lists(s).1),
        _ => {
            let sky = gen_sky::sky(s, &Cfg::default());
            let dir = c.scratch.join("sky");
            std::fs::remove_dir_all(&dir).ok();
            std::fs::create_dir_all(&dir).expect("scratch");
            std::fs::write(dir.join("TopSkyMaps.txt"), &sky.maps_text).expect("scratch");
            std::fs::write(dir.join("TopSkySettings.txt"), &sky.settings_text).expect("scratch");
            if let Some(t) = &sky.symbols_text {
                std::fs::write(dir.join("TopSkySymbols.txt"), t).expect("scratch");
            }
            c.input = format!("topsky:\n{}\n{}", sky.maps_text, sky.settings_text);
            let shown = no_panic("reading", || show(v::topsky::Topsky::parse(&dir)))?;
            return judge(c, "topsky", shown);
        }
    };
    c.input = format!("{name}:\n{t}");
    let b = t.as_bytes();
    let shown = no_panic("reading", || match name {
        "sct" => show(v::sct::Sct::parse(b)),
        "ese" => show(v::ese::Ese::parse(b)),
        "symbology" => show(v::symbology::Symbology::parse(b)),
        "airway" => show(v::airway::parse_airway_txt(b)),
        "aircraft" => show(v::icao_aircraft::parse_aircraft(b)),
        _ => show(v::icao_airlines::parse_airlines(b)),
    })?;
    judge(c, name, shown)
}

/// Squawk lists have no debug text.
fn squawks(s: &mut Src, c: &mut Case) -> Res {
    let text = |s: &mut Src| s.string(0, 6, &['A', 'z', '0', ' ', 'ü', '"', '\\', '/', '\n', '日']);
    let colour = |s: &mut Src| format!("#{:06x}", s.draw(1 << 24));
    let (message, nd_colour) = (text(s), colour(s));
    let codes = s.vec(0, 4, |s| format!("{:04o}", s.draw(0o10000)));
    let defs = s.vec(0, 5, |s| {
        let code = s.opt(2, 3, |s| format!("{:o}", s.draw(0o10000)));
        let range = s.opt(1, 3, |s| (format!("{:04o}", s.draw(0o10000)), text(s)));
        (code, range, text(s), colour(s))
    });
    let mut given = vec![];
    let mut want = vec![];
    for (code, range, m, col) in &defs {
        let range = range.as_ref().map(|(a, b)| serde_json::json!({"start": a, "end": b}));
        let mut g = serde_json::json!({"message": m, "color": col});
        if code.is_some() || s.bool() {
            g["code"] = serde_json::json!(code);
        }
        if range.is_some() || s.bool() {
            g["range"] = serde_json::json!(range);
        }
        given.push(g);
        want.push(serde_json::json!({"code": code, "range": range, "message": m, "color": col}));
    }
    let given = serde_json::json!({"NonDiscreteColor": nd_colour, "NonDiscreteMessage": message, "NonDiscrete": codes, "Squawks": given});
    let want = serde_json::json!({"non_discrete_color": nd_colour, "non_discrete_message": message, "non_discrete": codes, "squawks": want});
    c.input = given.to_string();
    c.nontrivial = !defs.is_empty();
    let v = no_panic("parse_squawks_json", || vatsim_parser::squawks::parse_squawks_json(c.input.as_bytes()))?;
    let v = v.map_err(|e| Fail::from(format!("not read: {e}")))?;
    let got = serde_json::to_value(&v).map_err(|e| Fail::from(format!("not written as JSON: {e}")))?;
    crate::ensure_eq!(got, want, "JSON of the squawk list");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C26",
        rule: "texts of all 14 text formats (seed files, grammar sentences, both joined) and model-generated sector, ese, symbology, airway, aircraft, airline and TopSky files, and squawk lists; non-trivial: at least five values compared (squawk lists: an entry). Oracle: the JSON of the parsed value, read with its repeated members, against the value's debug text, member by member",
        assumptions: &["the debug text of a value shows all of it", "the categories and keys of a profile have no colon"],
        subs: vec![
            Sub { name: "texts", quick: 30_000, thorough: 800_000, f: texts },
            Sub { name: "models", quick: 6_000, thorough: 200_000, f: models },
            Sub { name: "squawks", quick: 5_000, thorough: 200_000, f: squawks },
        ],
        probes: vec![],
    }
}
