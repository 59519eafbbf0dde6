//! Map items of the sector file keep their geometry and colours.
use super::c11::Db;
use super::c12::places;
use crate::engine::*;
use crate::gen::{dms, fix_name, Dms, Loc};
use crate::gen_sct::{self, Kind, Part, Rec, Seg};
use crate::world::*;
use crate::{ensure, ensure_eq};
use geo::{Line, MultiLineString, Point};
use multimap::MultiMap;
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::sct_items::ColouredLines;
use crate::palette;

/// A place and how well it is known.
type At = (Point, f64);

fn same(a: At, b: At) -> bool {
    within(a.0, b.0, a.1.max(b.1).max(1e-9))
}

fn within(a: Point, b: Point, tol: f64) -> bool {
    // east and west meet at 180 degrees
    let x = (a.x() - b.x()).abs();
    x.min((x - 360.0).abs()) <= tol && (a.y() - b.y()).abs() <= tol
}

fn at(db: &Db, l: &Loc) -> Option<At> {
    match l {
        Loc::At(d) => Some((d.point(), 1e-9)),
        Loc::Fix(n) => db.resolve(n).expect("judged").1.map(|x| (x.1, x.2)),
    }
}

fn segments(m: &MultiLineString) -> Vec<Line> {
    m.iter().flat_map(|l| l.lines()).collect()
}

/// A coordinate a few milliseconds of arc or a few degrees away from others.
fn near_dms(s: &mut Src) -> Dms {
    Dms { lat: 48 * 3_600_000 + s.int(0, 3), lng: 11 * 3_600_000 + s.int(0, 3) * *s.pick(&[1, 1, 3_600_000]) }
}

fn place(s: &mut Src, names: &[String]) -> Loc {
    match s.weighted(&[4, 2, 3, 1]) {
        0 => Loc::Fix(s.pick(names).clone()),
        1 => Loc::At(near_dms(s)),
        2 => Loc::At(dms(s)),
        _ => Loc::Fix(fix_name(s)),
    }
}

fn airways(s: &mut Src, names: &[String]) -> Vec<Rec> {
    let mut out = vec![];
    for n in ["T1", "UL605", "Z-1"].iter().take(s.us(0, 3)) {
        let pool: Vec<Loc> = s.vec(2, 6, |s| place(s, names));
        let mut last: Option<Loc> = None;
        for _ in 0..s.int(1, 8) {
            let a = match &last {
                Some(l) if s.chance(3, 5) => l.clone(),
                _ => s.pick(&pool).clone(),
            };
            let b = s.pick(&pool).clone();
            last = Some(b.clone());
            out.push(Rec::Airway(n.to_string(), a, b));
        }
    }
    if s.chance(1, 3) {
        // lines of several airways mixed
        s.shuffle(&mut out);
    }
    out
}

const DRAWINGS: [Kind; 6] = [Kind::Sid, Kind::Star, Kind::ArtccHigh, Kind::Artcc, Kind::ArtccLow, Kind::Geo];

fn items(s: &mut Src, c: &mut Case) -> Res {
    let mut m = places(s, &[]);
    m.parts.push(Part::Section(Kind::Fixes, vec![Rec::Fix("QQQ".into(), dms(s))]));
    let db = Db::of(&m.expected(), &[]);
    // names a drawing can use
    let mut names: Vec<String> = [&db.vors, &db.ndbs, &db.fixes].iter().flat_map(|l| l.iter().map(|x| x.0.clone())).collect();
    names.extend(db.airports.iter().map(|a| a.0.clone()));
    names.retain(|n| n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit()) && db.resolve(n).is_some());
    // readable only as a fix
    names.retain(|n| !n.is_empty() && n.len() <= 5);
    for n in ["ZZNOT", "QQQ"] {
        names.push(n.to_string());
    }
    let judged = |l: &Loc| match l {
        Loc::At(_) => true,
        Loc::Fix(n) => db.resolve(n).is_some(),
    };
    let o = gen_sct::Opts::default();
    let colours = ["red", "taxi_1", "COLOR_Stopbar", "Map_Info", "Map_Land", "unknown"];
    let colour = |s: &mut Src| s.opt(2, 3, |s| s.pick(&colours).to_string());
    let mut used = vec![];
    for k in DRAWINGS {
        if !s.chance(1, 2) {
            continue;
        }
        let mut recs = vec![];
        for _ in 0..s.int(1, 3) {
            let Rec::Drawing(mut d) = gen_sct::rec(s, k, &o) else { unreachable!() };
            let palette = [None, colour(s), colour(s)];
            let mut last: Option<Loc> = None;
            d.segs = s.vec(1, 6, |s| {
                let start = match &last {
                    Some(l) if s.chance(2, 3) => l.clone(),
                    _ => place(s, &names),
                };
                let end = if s.chance(1, 10) { start.clone() } else { place(s, &names) };
                last = Some(end.clone());
                Seg { start, end, colour: s.pick(&palette).clone() }
            });
            d.segs.retain(|x| judged(&x.start) && judged(&x.end));
            if d.segs.is_empty() {
                d.segs.push(Seg { start: Loc::At(dms(s)), end: Loc::At(dms(s)), colour: None });
            }
            if s.chance(1, 2) {
                d.name = s.pick(&["AoR old", "(old)"]).to_string();
            } else {
                d.name.push_str(" end");
            }
            recs.push(Rec::Drawing(d));
        }
        used.push((k, recs));
    }
    for k in [Kind::HighAirway, Kind::LowAirway] {
        if s.chance(2, 3) {
            let mut r = airways(s, &names);
            r.retain(|x| matches!(x, Rec::Airway(_, a, b) if judged(a) && judged(b)));
            used.push((k, r));
        }
    }
    for k in [Kind::Regions, Kind::Labels] {
        if s.chance(1, 2) {
            let mut r: Vec<Rec> = s.vec(1, 4, |s| gen_sct::rec(s, k, &o));
            for x in &mut r {
                if let Rec::Region(n, ..) | Rec::Label(n, ..) = x {
                    if s.chance(1, 2) {
                        *n = "Same".into();
                    }
                }
            }
            used.push((k, r));
        }
    }
    s.shuffle(&mut used);
    for (k, r) in used {
        m.parts.push(Part::Section(k, r));
    }
    for n in colours {
        if s.chance(1, 2) && n != "unknown" {
            m.parts.insert(0, Part::Colour(n.into(), s.int(0, 0xff_ffff)));
        }
    }
    let sct = m.render(s);
    let e = m.expected();
    let mut maps = String::new();
    let mut plugin: BTreeMap<&str, Colour> = BTreeMap::new();
    for n in colours {
        if s.chance(1, 5) && n != "unknown" {
            let v = [s.int(0, 255), s.int(0, 255), s.int(0, 255)];
            maps += &format!("COLORDEF:{n}:{}:{}:{}\n", v[0], v[1], v[2]);
            plugin.insert(n, Colour::from_rgb(v[0] as u8, v[1] as u8, v[2] as u8));
        }
    }
    maps += "MAP:M\nCOLOR:Lake\n";
    // each kind of item with a colour of its own
    let mut sym = "SYMBOLOGY\nSYMBOLSIZE\nFixes:name:255:3.0:1:1:0\n".to_string();
    for f in ["Sids", "Stars", "Geo", "ARTCC boundary", "ARTCC low boundary", "ARTCC high boundary"] {
        if s.chance(4, 5) {
            sym += &format!("{f}:line:{}:3.0:0:0:7\n", s.int(0, 0xff_ffff));
        }
    }
    let sym = format!("{sym}SYMBOL:0\nSYMBOLITEM:MOVETO -3 -3\nm_ClipArea:4\nEND\n");
    let mut w = World::seed();
    w.set(SCT_F, sct.clone());
    w.set(NAVDATA_F, "");
    w.set(MAPS_F, maps.clone());
    w.set(TSETTINGS_F, "");
    w.set(SYMBOLOGY_F, sym.clone());
    c.input = format!("{sct}\n== maps\n{maps}== symbology\n{sym}");
    let a = load(&w, &c.scratch)?;
    let i = &a.sct_items;

    let map = &a.colours.map;
    let resolve = |n: &Option<String>, default: Colour| {
        let Some(n) = n else { return (default, "no colour") };
        if let Some(x) = plugin.get(n.as_str()).or(e.colours.get(n)) {
            return (*x, "known colour");
        }
        match palette::colour(n, true) {
            Some((r, g, b)) => (Colour::from_rgb(r, g, b), "colour of the palette"),
            None => (default, "unknown colour"),
        }
    };
    let mut drawn = 0;
    type Drawn<'a> = (Kind, &'a str, Colour, &'a MultiMap<String, ColouredLines>);
    let kinds: [Drawn; 6] = [
        (Kind::Sid, "SID", map.sid, &i.sids),
        (Kind::Star, "STAR", map.star, &i.stars),
        (Kind::ArtccHigh, "ARTCC HIGH", map.artcc_high_boundary, &i.artccs_high),
        (Kind::Artcc, "ARTCC", map.artcc_boundary, &i.artccs),
        (Kind::ArtccLow, "ARTCC LOW", map.artcc_low_boundary, &i.artccs_low),
        (Kind::Geo, "GEO", map.geo, &i.geo),
    ];
    let of = |k: Kind| {
        m.parts.iter().filter_map(move |p| match p {
            Part::Section(x, r) if *x == k => Some(r),
            _ => None,
        })
    };
    for (k, what, default, got) in kinds {
        let mut want: BTreeMap<&str, Vec<(At, At, Colour)>> = BTreeMap::new();
        let mut resolved: BTreeSet<&str> = BTreeSet::new();
        for r in of(k).flatten() {
            let Rec::Drawing(d) = r else { continue };
            let v = want.entry(&d.name).or_default();
            for x in &d.segs {
                match (at(&db, &x.start), at(&db, &x.end)) {
                    (Some(p), Some(q)) => {
                        resolved.insert(&d.name);
                        if !same(p, q) {
                            let (colour, l) = resolve(&x.colour, default);
                            c.label(l);
                            v.push((p, q, colour));
                        }
                    }
                    _ => c.label("unknown place in a drawing"),
                }
            }
        }
        for n in got.keys() {
            ensure!(want.contains_key(n.as_str()), "{what} {n:?} is not in the sector file");
        }
        for (n, w) in &want {
            let empty = vec![];
            let groups = got.get_vec(*n).unwrap_or(&empty);
            ensure!(!groups.is_empty() || !resolved.contains(n), "{what} {n:?} is missing");
            let mut g: Vec<(Line, Colour)> = vec![];
            for x in groups {
                g.extend(segments(&x.lines).into_iter().map(|l| (l, x.colour)));
            }
            g.retain(|x| !same((x.0.start_point(), 0.0), (x.0.end_point(), 0.0)));
            for (j, (g, w)) in g.iter().zip(w).enumerate() {
                ensure!(
                    same((g.0.start_point(), 0.0), w.0) && same((g.0.end_point(), 0.0), w.1),
                    "{what} {n:?}: segment {j} is {:?}, expected {:?} to {:?}", g.0, w.0, w.1
                );
                ensure!(g.1 == w.2, "{what} {n:?}: segment {j} has colour {:?}, expected {:?}", g.1, w.2);
            }
            ensure!(g.len() == w.len(), "{what} {n:?}: {} segments, expected {}: {g:?}, expected {w:?}", g.len(), w.len());
            drawn += w.len();
        }
    }

    // airways
    for (k, what, got) in [(Kind::HighAirway, "high airway", &i.high_airways), (Kind::LowAirway, "low airway", &i.low_airways)] {
        let mut want: BTreeMap<&str, Vec<(At, At)>> = BTreeMap::new();
        for r in of(k).flatten() {
            let Rec::Airway(n, p, q) = r else { continue };
            let v = want.entry(n).or_default();
            match (at(&db, p), at(&db, q)) {
                (Some(p), Some(q)) => v.push((p, q)),
                _ => c.label("unknown place of an airway"),
            }
        }
        for n in got.keys() {
            ensure!(want.contains_key(n.as_str()), "{what} {n:?} is not in the sector file");
        }
        for (n, w) in &want {
            let empty = vec![];
            let g: Vec<Line> = got.get_vec(*n).unwrap_or(&empty).iter().flat_map(segments).collect();
            // lines join where their ends differ by less than a millionth of a degree
            let tol = 4e-6;
            let long = |p: Point, q: Point| !within(p, q, 2.0 * tol);
            let is = |l: &Line, w: &(At, At)| {
                let (a, b) = (l.start_point(), l.end_point());
                (within(a, w.0 .0, tol) && within(b, w.1 .0, tol)) || (within(a, w.1 .0, tol) && within(b, w.0 .0, tol))
            };
            for x in w.iter().filter(|x| long(x.0 .0, x.1 .0)) {
                ensure!(g.iter().any(|l| is(l, x)), "{what} {n:?}: no line from {:?} to {:?}: {g:?}", x.0 .0, x.1 .0);
                drawn += 1;
            }
            let g: Vec<&Line> = g.iter().filter(|l| long(l.start_point(), l.end_point())).collect();
            for l in &g {
                ensure!(w.iter().any(|x| is(l, x)), "{what} {n:?}: {l:?} is drawn, but not in the sector file: {w:?}");
            }
            let times = w.iter().filter(|x| long(x.0 .0, x.1 .0)).count();
            ensure!(g.len() <= times, "{what} {n:?}: {} lines drawn of {times}", g.len());
            if times >= 3 {
                c.label("airway of three and more lines");
            }
        }
    }

    // regions and labels
    let mut want: BTreeMap<&str, Vec<_>> = BTreeMap::new();
    for r in &e.regions {
        want.entry(&r.name).or_default().push(r);
    }
    ensure_eq!(i.regions.keys().len(), want.len(), "number of region names");
    for (n, w) in want {
        let g: Vec<_> = i.regions.get_vec(n).map(|v| v.iter().collect()).unwrap_or_default();
        let v = |x: &[&vatsim_parser::sct::Region]| serde_json::to_value(x).expect("JSON");
        crate::gen::json_close(&v(&g), &v(&w), n).map_err(|e| Fail::from(format!("region: {e}")))?;
        drawn += w.len();
    }
    let mut want: BTreeMap<&str, Vec<_>> = BTreeMap::new();
    for r in &e.labels {
        want.entry(&r.name).or_default().push(r);
    }
    ensure_eq!(i.labels.keys().len(), want.len(), "number of label names");
    for (n, w) in want {
        let g: Vec<_> = i.labels.get_vec(n).map(|v| v.iter().collect()).unwrap_or_default();
        let v = |x: &[&vatsim_parser::sct::Label]| serde_json::to_value(x).expect("JSON");
        crate::gen::json_close(&v(&g), &v(&w), n).map_err(|e| Fail::from(format!("label: {e}")))?;
        drawn += w.len();
    }
    c.nontrivial = drawn >= 5;
    Ok(())
}

/// Long airways of many lines are drawn whole.
fn long(s: &mut Src, c: &mut Case) -> Res {
    let n = s.us(200, 3000);
    let mut lines = String::new();
    let p = |i: usize| format!("N{:03}.{:02}.00.000 E{:03}.{:02}.00.000", 10 + i / 60, i % 60, 10 + (i * 7) / 60, (i * 7) % 60);
    let mut order: Vec<usize> = (0..n).collect();
    if s.bool() {
        s.shuffle(&mut order);
    }
    for i in &order {
        lines += &format!("T1 {} {}\n", p(*i), p(*i + 1));
    }
    let sct = format!("{}\n[HIGH AIRWAY]\n{lines}", crate::seeds::SCT);
    c.input = format!("{n} lines, shuffled {}", order.first() != Some(&0));
    c.nontrivial = true;
    let mut w = World::seed();
    w.set(SCT_F, sct);
    let a = load(&w, &c.scratch)?;
    let g: Vec<Line> = a.sct_items.high_airways.get_vec("T1").map(|v| v.iter().flat_map(segments).collect()).unwrap_or_default();
    let key = |x: f64, y: f64| ((y * 60.0).round() as i64, (x * 60.0).round() as i64);
    let mut got: Vec<_> = g
        .iter()
        .map(|l| {
            let (a, b) = (key(l.start.x, l.start.y), key(l.end.x, l.end.y));
            (a.min(b), a.max(b))
        })
        .collect();
    got.sort_unstable();
    let q = |i: usize| (600 + i as i64, 600 + 7 * i as i64);
    let want: Vec<_> = (0..n).map(|i| (q(i), q(i + 1))).collect();
    ensure!(got == want, "{} lines of {} are drawn, or others", got.len(), want.len());
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "at least five segments, regions and labels are judged (long: always)",
        assumptions: &[
            "drawings are judged segment by segment in file order under their name; how segments are grouped is not judged, and a segment of no length may be left out",
            "airways are judged as sets of lines in either direction, to some millionths of a degree; a line that the file repeats may be drawn once",
            "the default colour of a drawing is the one the settings have for its kind of drawing",
        ],
        subs: vec![
            Sub { name: "items", quick: 20_000, thorough: 500_000, f: items },
            Sub { name: "long", quick: 40, thorough: 400, f: long },
        ],
        probes: vec![],
    }
}
