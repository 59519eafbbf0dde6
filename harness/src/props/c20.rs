//! Maps are drawn with the configuration in force at each element.
use super::c11::{coord_name, Db};
use super::c12::places;
use crate::engine::*;
use crate::gen_sct::{Kind, Part, Rec};
use crate::gen_sky::{self, Cfg, Sky};
use crate::world::*;
use crate::{ensure, ensure_eq};
use geo::Point;
use std::collections::BTreeMap;
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::line_styles::LineStyle;
use vatsim_parser::adaptation::maps::active::Active;
use vatsim_parser::adaptation::maps::Map;
use vatsim_parser::topsky::map::{FontSize, MapRule, OverrideSct};
use crate::palette;
use vatsim_parser::Location;

/// What an element is drawn with.
#[derive(Clone, Debug, PartialEq)]
struct Pen {
    colour: Colour,
    font: f32,
    layer: f32,
    asr: Option<Vec<String>>,
    zoom: Option<f32>,
    style: LineStyle,
}

impl Pen {
    fn same(&self, o: &Pen) -> bool {
        let near = |a: f32, b: f32| (a - b).abs() <= 1e-4 * a.abs().max(1.0);
        near(self.font, o.font)
            && near(self.layer, o.layer)
            && self.zoom.is_some() == o.zoom.is_some()
            && near(self.zoom.unwrap_or(0.0), o.zoom.unwrap_or(0.0))
            && (self.colour, &self.asr, &self.style) == (o.colour, &o.asr, &o.style)
    }
}

/// A place and how well it is known.
type At = (Point, f64);

#[derive(Clone, Debug)]
struct El {
    what: String,
    points: Vec<At>,
    pen: Pen,
}

#[derive(Default, Debug)]
struct Drawn {
    segments: Vec<El>,
    polygons: Vec<El>,
    symbols: Vec<El>,
    texts: Vec<El>,
}

struct Want {
    hidden: bool,
    active: Vec<Vec<Active>>,
    drawn: Drawn,
}

fn same(a: At, b: At) -> bool {
    let tol = a.1.max(b.1).max(1e-9);
    // east and west meet at 180 degrees
    let x = (a.0.x() - b.0.x()).abs();
    x.min((x - 360.0).abs()) <= tol && (a.0.y() - b.0.y()).abs() <= tol
}

fn segment(out: &mut Vec<El>, a: At, b: At, pen: &Pen) {
    if !same(a, b) {
        out.push(El { what: "line".into(), points: vec![a, b], pen: pen.clone() });
    }
}

fn compare(what: &str, got: &[El], want: &[El]) -> Res {
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        ensure!(
            g.what == w.what && g.points.len() == w.points.len() && g.points.iter().zip(&w.points).all(|(a, b)| same(*a, *b)),
            "{what} {i} is {} at {:?}, expected {} at {:?}", g.what, g.points, w.what, w.points
        );
        ensure!(g.pen.same(&w.pen), "{what} {i} ({} at {:?}) is drawn with {:?}, expected {:?}", g.what, g.points, g.pen, w.pen);
    }
    ensure!(
        got.len() == want.len(),
        "{} {what}s drawn, expected {}: got {got:?}, expected {want:?}", got.len(), want.len()
    );
    Ok(())
}

/// What a loaded map draws.
fn drawn(m: &Map) -> Drawn {
    let mut d = Drawn::default();
    for g in &m.map_groups {
        let pen = Pen {
            colour: g.colour,
            font: g.font_size,
            layer: g.layer,
            asr: g.asr_data.clone(),
            zoom: g.zoom,
            style: g.line_style.clone(),
        };
        let el = |what: String, points: Vec<At>| El { what, points, pen: pen.clone() };
        for l in &g.lines {
            for w in l.0.windows(2) {
                segment(&mut d.segments, (w[0].into(), 0.0), (w[1].into(), 0.0), &pen);
            }
        }
        for p in &g.polygons {
            let mut pts: Vec<At> = p.exterior().0.iter().map(|c| ((*c).into(), 0.0)).collect();
            close(&mut pts);
            if !pts.is_empty() {
                d.polygons.push(el("polygon".into(), pts));
            }
            for i in p.interiors() {
                d.polygons.push(el(format!("hole {i:?}"), vec![]));
            }
        }
        for x in &g.symbols {
            d.symbols.push(el(format!("{:?} label {:?} {:?}", x.name, x.label, x.label_offset), vec![(x.coordinate, 0.0)]));
        }
        for x in &g.labels {
            d.texts.push(el(format!("{:?}", x.text), vec![(x.coordinate, 0.0)]));
        }
    }
    d
}

/// Leaves out the point that closes a ring.
fn close(p: &mut Vec<At>) {
    while p.len() > 1 && same(p[0], p[p.len() - 1]) {
        p.pop();
    }
}

struct Ctx<'a> {
    db: &'a Db,
    sky: &'a Sky,
    sct_colours: &'a std::collections::HashMap<String, Colour>,
}

impl Ctx<'_> {
    fn at(&self, l: &Location) -> Option<At> {
        match l {
            Location::Coordinate(p) => Some((*p, 1e-9)),
            Location::Fix(n) => self.db.resolve(n).expect("judged").1.map(|x| (x.1, x.2)),
        }
    }
    fn colour(&self, n: &str) -> Option<Colour> {
        let coopans = self.sky.settings.get("Setup_COOPANS").is_none_or(|v| v != "0");
        let palette = || palette::colour(n, coopans).map(|(r, g, b)| Colour::from_rgb(r, g, b));
        self.sky.colours.get(n).or(self.sct_colours.get(n)).copied().or_else(palette)
    }
    fn font(&self) -> f32 {
        self.sky.settings.get("Maps_FontSize").and_then(|v| v.parse().ok()).filter(|v: &f32| v.is_finite()).unwrap_or(12.0)
    }
    /// The folder of a map and what it draws; None for a map without a colour.
    fn map(&self, rules: &[MapRule], c: &mut Case) -> Option<(String, Want)> {
        let first = rules.iter().find_map(|r| if let MapRule::Colour(n) = r { self.colour(n) } else { None });
        let Some(first) = first else {
            c.label("map without colour");
            return None;
        };
        let mut pen = Pen { colour: first, font: self.font(), layer: 1.0, asr: None, zoom: None, style: LineStyle { width: 1, style: "SOLID".into() } };
        let mut w = Want { hidden: false, active: vec![], drawn: Drawn::default() };
        let mut folder = "AUTO".to_string();
        let mut coords: Vec<&Location> = vec![];
        let d = &mut w.drawn;
        // whether something was drawn since the last change
        let mut drew = false;
        for r in rules {
            let change = matches!(
                r,
                MapRule::Colour(_) | MapRule::AsrData(_) | MapRule::Layer(_) | MapRule::Zoom(_) | MapRule::FontSize(_) | MapRule::LineStyle(_)
            );
            if change && drew {
                c.label("change after an element");
            }
            let poly = |coords: &[&Location]| -> Vec<Option<At>> { coords.iter().map(|l| self.at(l)).collect() };
            match r {
                MapRule::Folder(f) => folder = f.clone(),
                MapRule::Hidden => w.hidden = true,
                MapRule::Colour(n) => match self.colour(n) {
                    Some(x) => pen.colour = x,
                    None => c.label("unknown colour"),
                },
                MapRule::AsrData(x) => pen.asr = x.clone(),
                MapRule::Layer(x) => pen.layer = *x,
                MapRule::Zoom(x) => pen.zoom = Some(*x),
                MapRule::FontSize(f) => {
                    pen.font = match f {
                        FontSize::Exact(x) => *x,
                        FontSize::Add(x) => pen.font + x,
                        FontSize::Subtract(x) => pen.font - x,
                        FontSize::Multiply(x) => pen.font * x,
                        FontSize::Default => self.font(),
                    }
                }
                MapRule::LineStyle(x) => pen.style = x.clone(),
                MapRule::Active(a) => w.active.push(vec![a.clone()]),
                MapRule::AndActive(a) => {
                    if let Some(l) = w.active.last_mut() {
                        l.push(a.clone());
                    }
                }
                MapRule::Symbol(x) => match self.at(&x.location) {
                    Some(p) => {
                        let (l, o) = match &x.label {
                            Some(l) => (Some(&l.text), l.pos),
                            None => (None, (3.0, 3.0)),
                        };
                        d.symbols.push(El { what: format!("{:?} label {l:?} {o:?}", x.name), points: vec![p], pen: pen.clone() });
                    }
                    None => c.label("unknown place of a symbol"),
                },
                MapRule::Text(x) => match self.at(&x.location) {
                    Some(p) => d.texts.push(El { what: format!("{:?}", x.content), points: vec![p], pen: pen.clone() }),
                    None => c.label("unknown place of a text"),
                },
                MapRule::Line(v) => {
                    for l in v {
                        match poly(&l.points.iter().collect::<Vec<_>>())[..] {
                            [Some(a), Some(b)] => segment(&mut d.segments, a, b, &pen),
                            _ => c.label("unknown place of a line"),
                        }
                    }
                }
                MapRule::Coord(l) => coords.push(l),
                MapRule::CoordLine => {
                    for x in poly(&coords).windows(2) {
                        match *x {
                            [Some(a), Some(b)] => segment(&mut d.segments, a, b, &pen),
                            _ => c.label("unknown place of a polyline"),
                        }
                    }
                    coords.clear();
                }
                MapRule::CoordPoly(_) => {
                    let all = poly(&coords);
                    let mut p: Vec<At> = all.iter().flatten().copied().collect();
                    if p.len() < all.len() {
                        c.label("unknown place of a polygon");
                    }
                    close(&mut p);
                    if !p.is_empty() {
                        c.label("polygon");
                        d.polygons.push(El { what: "polygon".into(), points: p, pen: pen.clone() });
                    }
                    coords.clear();
                }
                MapRule::Global | MapRule::ScreenSpecific => (),
            }
            drew = if change { false } else { drew || matches!(r, MapRule::Symbol(_) | MapRule::Text(_) | MapRule::Line(_) | MapRule::CoordLine | MapRule::CoordPoly(_)) };
        }
        Some((folder, w))
    }
}

fn maps(s: &mut Src, c: &mut Case) -> Res {
    let mut m = places(s, &[]);
    m.parts.push(Part::Section(Kind::Fixes, vec![Rec::Fix("QQQ".into(), crate::gen::dms(s))]));
    for _ in 0..s.int(0, 3) {
        let n = s.pick(&["Lake", "Map_Land", "sctred", "other"]).to_string();
        m.parts.insert(0, Part::Colour(n, s.int(0, 0xff_ffff)));
    }
    let sct = m.render(s);
    let e = m.expected();
    let db = Db::of(&e, &[]);
    let mut names: Vec<String> = [&db.vors, &db.ndbs, &db.fixes].iter().flat_map(|l| l.iter().map(|x| x.0.clone())).collect();
    for a in &db.airports {
        names.push(a.0.clone());
        for r in &a.2 {
            names.push(format!("{}{}", a.0, r.0));
        }
    }
    names.truncate(12);
    names.retain(|n| !n.is_empty() && !n.contains([':', ';', '/', '\t', ' ']));
    for _ in 0..s.int(0, 2) {
        names.push(coord_name(s).0);
    }
    names.push(format!("QQQ{:03}{:03}", s.int(0, 360), s.int(0, 60)));
    for n in ["NOWHERE", "QQQ", "qqq"] {
        names.push(n.to_string());
    }
    names.retain(|n| db.resolve(n).is_some());
    let cfg = Cfg {
        colours: ["Active_Map_Type_20", "Lake", "Map_Land", "nothing", "sctred", "Lake"].map(String::from).to_vec(),
        places: names,
        drawing: true,
        maps: *s.pick(&[2, 5]),
        rules: *s.pick(&[8, 20]),
        ..Cfg::default()
    };
    let sky = gen_sky::sky(s, &cfg);
    let mut w = World::seed();
    w.set(SCT_F, sct.clone());
    w.set(NAVDATA_F, "");
    w.set(MAPS_F, sky.maps_text.clone());
    w.set(TSETTINGS_F, sky.settings_text.clone());
    match &sky.symbols_text {
        Some(t) => w.set(TSYMBOLS_F, t.clone()),
        None => {
            w.files.remove(TSYMBOLS_F);
        }
    }
    c.input = format!("{}\n== TopSkySettings.txt\n{}\n== sector file\n{sct}", sky.maps_text, sky.settings_text);
    let a = load(&w, &c.scratch)?;

    let ctx = Ctx { db: &db, sky: &sky, sct_colours: &e.colours };
    let mut want: BTreeMap<String, BTreeMap<String, Want>> = BTreeMap::new();
    for (n, rules) in &sky.maps {
        let Some((folder, x)) = ctx.map(rules, c) else { continue };
        let f = want.entry(folder).or_default();
        let mut key = n.clone();
        let mut i = 2;
        while f.contains_key(&key) {
            c.label("name used again");
            key = format!("{n}_{i}");
            i += 1;
        }
        f.insert(key, x);
    }
    c.nontrivial = want.values().flatten().any(|x| {
        let d = &x.1.drawn;
        let mut pens: Vec<&Pen> = vec![];
        for p in [&d.segments, &d.polygons, &d.symbols, &d.texts].into_iter().flatten().map(|x| &x.pen) {
            if !pens.contains(&p) {
                pens.push(p);
            }
        }
        pens.len() >= 2
    });
    let names = |m: &mut dyn Iterator<Item = &String>| {
        let mut v: Vec<String> = m.cloned().collect();
        v.sort();
        v
    };
    ensure_eq!(names(&mut a.maps.keys()), names(&mut want.keys()), "folders");
    for (fname, f) in &want {
        let g = &a.maps[fname];
        ensure_eq!(&g.name, fname, "name of a folder");
        let hide = fname == "AUTO" || sky.overrides.contains(&OverrideSct { folder: fname.clone(), name: None });
        if hide && fname != "AUTO" {
            c.label("overridden folder");
        }
        ensure_eq!(g.hidden, hide, "folder {fname} hidden");
        ensure_eq!(names(&mut g.maps.keys()), names(&mut f.keys()), "maps of folder {fname}");
        for (n, w) in f {
            let m = &g.maps[n];
            let what = format!("{fname} / {n}");
            ensure_eq!((&m.name, &m.folder), (n, fname), "name and folder of {what}");
            ensure_eq!(m.hidden, w.hidden, "{what} hidden");
            ensure_eq!(m.active, w.active, "{what} active");
            let d = drawn(m);
            compare(&format!("{what}: segment"), &d.segments, &w.drawn.segments)?;
            compare(&format!("{what}: polygon"), &d.polygons, &w.drawn.polygons)?;
            compare(&format!("{what}: symbol"), &d.symbols, &w.drawn.symbols)?;
            compare(&format!("{what}: text"), &d.texts, &w.drawn.texts)?;
        }
    }
    Ok(())
}

/// Many maps of one name stay maps of their own.
fn many(s: &mut Src, c: &mut Case) -> Res {
    let n = s.us(2, 320);
    let stem = s.pick(&["N", "N_2", "SECTOR", "A B", "Ä", "1", "_"]).to_string();
    let own = s.bool();
    let mut t = String::new();
    let mut want: BTreeMap<String, BTreeMap<String, i64>> = BTreeMap::new();
    let folders: Vec<&str> = if s.bool() { vec!["F"] } else { vec!["F", "G", "AUTO"] };
    for i in 0..n {
        let name = match s.draw(8) {
            0 => format!("{stem}_{}", s.us(1, n + 2)),
            1 if own => format!("{stem}{i}"),
            _ => stem.clone(),
        };
        let f = *s.pick(&folders);
        t += &format!("MAP:{name}\n");
        if f != "AUTO" || s.bool() {
            t += &format!("FOLDER:{f}\n");
        }
        t += &format!("COLOR:Active_Map_Type_20\nTEXT:N010.00.00.000:E010.00.00.000:{i}\n");
        let f = want.entry(f.to_string()).or_default();
        let (mut key, mut k) = (name.clone(), 2);
        while f.contains_key(&key) {
            key = format!("{name}_{k}");
            k += 1;
        }
        f.insert(key, i as i64);
    }
    c.nontrivial = want.values().any(|f| f.len() > 10);
    if want.values().any(|f| f.len() > 100) {
        c.label("more than a hundred maps in a folder");
    }
    let mut w = World::seed();
    w.set(MAPS_F, t.clone());
    c.input = t;
    let a = load(&w, &c.scratch)?;
    let mut got: BTreeMap<String, BTreeMap<String, i64>> = BTreeMap::new();
    for (f, x) in &a.maps {
        for (k, m) in &x.maps {
            ensure_eq!((&m.name, &m.folder), (k, f), "name and folder of a map");
            let l: Vec<i64> = m.map_groups.iter().flat_map(|g| &g.labels).map(|l| l.text.parse().unwrap()).collect();
            ensure!(l.len() == 1, "{f} / {k} has texts {l:?}");
            got.entry(f.clone()).or_default().insert(k.clone(), l[0]);
        }
    }
    for (f, m) in &want {
        let g = got.get(f);
        ensure!(g.is_some(), "no folder {f}");
        for (k, v) in m {
            ensure_eq!(g.unwrap().get(k), Some(v), "text of {f} / {k}");
        }
        ensure_eq!(g.unwrap().len(), m.len(), "number of maps in {f}");
    }
    Ok(())
}

const BUILT_IN: [(&str, &[(f32, f32)]); 6] = [
    ("SOLID", &[]),
    ("DOT", &[(1.0, 1.0)]),
    ("ALTERNATE", &[(1.0, 1.0)]),
    ("DASH", &[(3.0, 3.0)]),
    ("DASHDOT", &[(3.0, 3.0), (1.0, 3.0)]),
    ("DASHDOTDOT", &[(3.0, 3.0), (1.0, 3.0), (1.0, 3.0)]),
];

fn styles(s: &mut Src, c: &mut Case) -> Res {
    let mut w = World::seed();
    let mut t = String::new();
    let mut want: BTreeMap<String, Vec<Option<Vec<(f32, f32)>>>> = BTreeMap::new();
    let mut by_name: BTreeMap<String, Vec<i64>> = BTreeMap::new();
    for _ in 0..s.int(1, 7) {
        let n = match s.weighted(&[3, 1]) {
            0 => s.pick(&["Fence", "fence", "FENCE", "Long", "x", "DASH", "Dash", "dots", "Solid"]).to_string(),
            _ => s.word(1, 4, "abABäÄß1"),
        };
        let d: Vec<i64> = s.vec(0, 7, |s| s.int(0, 30));
        let sep = if d.is_empty() { "" } else { ":" };
        let l: Vec<String> = d.iter().map(|x| x.to_string()).collect();
        t += &format!("LINESTYLEDEF:{n}:Solid:None{sep}{}\n", l.join(","));
        by_name.insert(n, d);
    }
    t += "MAP:M\nCOLOR:Lake\n";
    for (n, d) in &by_name {
        let dashes = (d.len() > 1).then(|| d.chunks_exact(2).map(|x| (x[0] as f32, x[1] as f32)).collect());
        want.entry(n.to_uppercase()).or_default().push(dashes);
    }
    c.nontrivial = want.values().any(|v| v[0].is_some());
    if want.values().any(|v| v.len() > 1) {
        c.label("names that differ in case");
    }
    for (n, d) in BUILT_IN {
        if want.contains_key(n) {
            c.label("name of a standard style");
        }
        want.insert(n.into(), vec![if d.is_empty() { None } else { Some(d.to_vec()) }]);
    }
    w.set(MAPS_F, t.clone());
    c.input = t;
    let a = load(&w, &c.scratch)?;
    let mut got: BTreeMap<String, Option<Vec<(f32, f32)>>> = BTreeMap::new();
    for (k, v) in &a.line_styles {
        got.insert(k.clone(), v.as_ref().map(|v| v.iter().map(|d| (d.length, d.gap)).collect()));
    }
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "line styles");
    for (k, v) in &want {
        ensure!(v.contains(&got[k]), "line style {k} is {:?}, expected one of {v:?}", got[k]);
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "a map draws elements with at least two different configurations (styles: a definition with dashes)",
        assumptions: &[
            "an element is judged by its kind, its position among the elements of its kind in its map, its points and its configuration; how elements are grouped is not judged",
            "lines are judged segment by segment; a segment of no length may be left out",
            "positions of places agree to a billionth of a degree, of bearing and distance within the harness's tolerance",
            "of style names that differ only in case, any definition may win here (C24 judges that it is always the same)",
        ],
        subs: vec![
            Sub { name: "maps", quick: 15_000, thorough: 600_000, f: maps },
            Sub { name: "many", quick: 700, thorough: 30_000, f: many },
            Sub { name: "styles", quick: 3000, thorough: 50_000, f: styles },
        ],
        probes: vec![],
    }
}
