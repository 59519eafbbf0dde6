use crate::engine::*;
use crate::ensure;
use geo::Point;
use multimap::MultiMap;
use std::collections::HashMap;
use vatsim_parser::adaptation::locations::{Airport, Fix, GraphPosition, Locations, Runway, NDB, VOR};
use vatsim_parser::Location;

fn point(s: &mut Src) -> Point {
    match s.weighted(&[5, 2, 1]) {
        0 => Point::new(11.0 + s.int(0, 8) as f64 * 0.125, 48.0 + s.int(0, 8) as f64 * 0.125),
        1 => Point::new(s.int(-170, 170) as f64, s.int(-80, 80) as f64),
        _ => Point::new(11.0 + s.int(0, 3) as f64 * 1e-6, 48.0),
    }
}

/// Names that several kinds of location and the coordinate and bearing syntaxes share.
fn name(s: &mut Src) -> String {
    match s.weighted(&[6, 3, 2, 2, 1]) {
        0 => s.pick(&["MIQ", "OTT", "ARMUT", "SI", "EDDM", "EDDF", "MIQ08", "A1"]).to_string(),
        1 => coord_name(s).0,
        2 => format!("{}{:03}{:03}", s.pick(&["MIQ", "OTT", "EDDM", "A1"]), s.int(0, 360), s.int(0, 60)),
        3 => format!("{}{}", s.pick(&["EDDM", "EDDF"]), s.pick(&["08R", "26L", "08", "26"])),
        _ => s.word(1, 6, "AB1"),
    }
}

fn digits(v: i64, width: usize) -> String {
    format!("{v:0width$}")
}

/// A latitude/longitude name in range and what it stands for.
pub fn coord_name(s: &mut Src) -> (String, Option<(String, f64, f64)>) {
    let prec = s.draw(3) as usize;
    let (lat_d, lng_d) = (s.int(0, 89), s.int(0, 179));
    let part = |s: &mut Src| if s.chance(1, 3) { 0 } else { s.int(0, 59) };
    let (lm, ls, om, os) = (part(s), part(s), part(s), part(s));
    let (ns, ew) = (*s.pick(&["N", "S"]), *s.pick(&["E", "W"]));
    let (mut lat, mut lng) = (digits(lat_d, 2), digits(lng_d, 3));
    let (mut y, mut x) = (lat_d as f64, lng_d as f64);
    if prec > 0 {
        lat += &digits(lm, 2);
        lng += &digits(om, 2);
        y += lm as f64 / 60.0;
        x += om as f64 / 60.0;
    }
    if prec > 1 {
        lat += &digits(ls, 2);
        lng += &digits(os, 2);
        y += ls as f64 / 3600.0;
        x += os as f64 / 3600.0;
    }
    let full = format!("{lat}{ns}{lng}{ew}");
    if ns == "S" {
        y = -y;
    }
    if ew == "W" {
        x = -x;
    }
    // a single leading zero may be left out of either part
    let mut valid = true;
    let abbreviate = |s: &mut Src, t: String, valid: &mut bool| {
        if !s.chance(1, 3) || !t.starts_with('0') {
            return t;
        }
        if t[1..].starts_with('0') {
            *valid = false;
        }
        t[1..].to_string()
    };
    let a = abbreviate(s, lat, &mut valid);
    let b = abbreviate(s, lng, &mut valid);
    (format!("{a}{ns}{b}{ew}"), valid.then_some((full, x, y)))
}

/// The destination on the WGS84 ellipsoid (Vincenty's direct formulae).
fn destination(from: Point, bearing: f64, metres: f64) -> Point {
    let (a, f) = (6_378_137.0, 1.0 / 298.257_223_563);
    let b = a * (1.0 - f);
    let (phi, lam, alpha) = (from.y().to_radians(), from.x().to_radians(), bearing.to_radians());
    let tan_u = (1.0 - f) * phi.tan();
    let cos_u = 1.0 / (1.0 + tan_u * tan_u).sqrt();
    let sin_u = tan_u * cos_u;
    let sigma1 = tan_u.atan2(alpha.cos());
    let sin_a = cos_u * alpha.sin();
    let cos2 = 1.0 - sin_a * sin_a;
    let u2 = cos2 * (a * a - b * b) / (b * b);
    let ca = 1.0 + u2 / 16384.0 * (4096.0 + u2 * (-768.0 + u2 * (320.0 - 175.0 * u2)));
    let cb = u2 / 1024.0 * (256.0 + u2 * (-128.0 + u2 * (74.0 - 47.0 * u2)));
    let mut sigma = metres / (b * ca);
    let mut c2m;
    for _ in 0..200 {
        c2m = (2.0 * sigma1 + sigma).cos();
        let d = cb
            * sigma.sin()
            * (c2m
                + cb / 4.0
                    * (sigma.cos() * (-1.0 + 2.0 * c2m * c2m)
                        - cb / 6.0 * c2m * (-3.0 + 4.0 * sigma.sin().powi(2)) * (-3.0 + 4.0 * c2m * c2m)));
        let next = metres / (b * ca) + d;
        let done = (next - sigma).abs() < 1e-13;
        sigma = next;
        if done {
            break;
        }
    }
    c2m = (2.0 * sigma1 + sigma).cos();
    let (ss, cs) = (sigma.sin(), sigma.cos());
    let t = sin_u * ss - cos_u * cs * alpha.cos();
    let lat = (sin_u * cs + cos_u * ss * alpha.cos()).atan2((1.0 - f) * (sin_a * sin_a + t * t).sqrt());
    let l = (ss * alpha.sin()).atan2(cos_u * cs - sin_u * ss * alpha.cos());
    let c = f / 16.0 * cos2 * (4.0 + f * (4.0 - 3.0 * cos2));
    let dl = l - (1.0 - c) * f * sin_a * (sigma + c * ss * (c2m + c * cs * (-1.0 + 2.0 * c2m * c2m)));
    let mut lng = (lam + dl).to_degrees();
    while lng > 180.0 {
        lng -= 360.0;
    }
    while lng < -180.0 {
        lng += 360.0;
    }
    Point::new(lng, lat.to_degrees())
}

/// Reference database of named places.
#[derive(Default, Debug)]
pub struct Db {
    pub vors: Vec<(String, Point)>,
    pub ndbs: Vec<(String, Point)>,
    pub fixes: Vec<(String, Point)>,
    pub airports: Vec<(String, Point, Vec<Rwy>)>,
}
pub type Rwy = (String, String, Point, Point);

fn db(s: &mut Src) -> Db {
    let most = if s.chance(1, 300) { 200 } else { 5 };
    let named = |s: &mut Src| s.vec(0, most, |s| (name(s), point(s)));
    let (vors, ndbs, fixes) = (named(s), named(s), named(s));
    let mut airports: Vec<(String, Point, Vec<Rwy>)> = vec![];
    for (n, p) in s.vec(0, 4, |s| {
        let n = if s.chance(3, 4) { s.pick(&["EDDM", "EDDF", "EDDN"]).to_string() } else { name(s) };
        (n, point(s))
    }) {
        if airports.iter().any(|a| a.0 == n) {
            continue;
        }
        let rwys = s.vec(0, 3, |s| {
            let d = |s: &mut Src| s.pick(&["08R", "26L", "08", "26", "08L", "26R", "36", "1"]).to_string();
            (d(s), d(s), point(s), point(s))
        });
        airports.push((n, p, rwys));
    }
    Db { vors, ndbs, fixes, airports }
}

impl Db {
    fn real(&self) -> Locations {
        let mut l = Locations::default();
        l.vors = self.vors.iter().map(|(n, p)| (n.clone(), VOR { designator: n.clone(), frequency: "112.300".into(), coordinate: *p })).collect::<MultiMap<_, _>>();
        l.ndbs = self.ndbs.iter().map(|(n, p)| (n.clone(), NDB { designator: n.clone(), frequency: "410.000".into(), coordinate: *p })).collect();
        l.fixes = self.fixes.iter().map(|(n, p)| (n.clone(), Fix { designator: n.clone(), coordinate: *p })).collect();
        l.airports = self
            .airports
            .iter()
            .map(|(n, p, r)| {
                (
                    n.clone(),
                    Airport {
                        designator: n.clone(),
                        coordinate: *p,
                        name: None,
                        country: None,
                        runways: r
                            .iter()
                            .map(|(a, b, x, y)| Runway {
                                designators: (a.clone(), b.clone()),
                                headings: (80, 260),
                                location: (*x, *y),
                                aerodrome: n.clone(),
                            })
                            .collect(),
                    },
                )
            })
            .collect::<HashMap<_, _>>();
        l
    }
    fn named(&self, n: &str) -> Option<Point> {
        for list in [&self.vors, &self.ndbs, &self.fixes] {
            if let Some((_, p)) = list.iter().find(|(d, _)| d == n) {
                return Some(*p);
            }
        }
        if let Some((_, p, _)) = self.airports.iter().find(|(d, _, _)| d == n) {
            return Some(*p);
        }
        self.threshold(n)
    }
    fn threshold(&self, n: &str) -> Option<Point> {
        let c: Vec<char> = n.chars().collect();
        if !(c.len() == 6 || c.len() == 7) || !n.is_ascii() {
            return None;
        }
        let (ad, rwy) = (&n[..4], &n[4..]);
        let (_, _, r) = self.airports.iter().find(|(d, _, _)| d == ad)?;
        r.iter().find_map(|(a, b, x, y)| {
            if a == rwy {
                Some(*x)
            } else if b == rwy {
                Some(*y)
            } else {
                None
            }
        })
    }
    /// What a name stands for: kind, designator, place and tolerance; `None`: not judged.
    pub fn resolve(&self, n: &str) -> Option<(&'static str, Option<(String, Point, f64)>)> {
        Some(if let Some(p) = self.named(n) {
            ("named", Some((n.to_string(), p, 0.0)))
        } else if let Some(ll) = latlng(n) {
            let (full, p) = ll?;
            ("lat/lng", Some((full, p, 1e-9)))
        } else if let Some(p) = self.bearing(n) {
            ("bearing/range", Some((n.to_string(), p, 1e-6)))
        } else {
            ("nothing", None)
        })
    }
    /// The places of a sector file and of the navigation data's airports.
    pub fn of(sct: &vatsim_parser::sct::Sct, navdata: &[(String, Point)]) -> Db {
        let mut d = Db {
            vors: sct.vors.iter().map(|v| (v.designator.clone(), v.coordinate)).collect(),
            ndbs: sct.ndbs.iter().map(|v| (v.designator.clone(), v.coordinate)).collect(),
            fixes: sct.fixes.iter().map(|v| (v.designator.clone(), v.coordinate)).collect(),
            airports: vec![],
        };
        for a in &sct.airports {
            let r = sct.runways.iter().filter(|r| r.aerodrome == a.designator);
            let r = r.map(|r| (r.designators.0.clone(), r.designators.1.clone(), r.location.0, r.location.1)).collect();
            d.airports.retain(|x| x.0 != a.designator);
            d.airports.push((a.designator.clone(), a.coordinate, r));
        }
        for (n, p) in navdata {
            if !d.airports.iter().any(|x| x.0 == *n) {
                let r = sct.runways.iter().filter(|r| r.aerodrome == *n);
                let r = r.map(|r| (r.designators.0.clone(), r.designators.1.clone(), r.location.0, r.location.1)).collect();
                d.airports.push((n.clone(), *p, r));
            }
        }
        d
    }
    fn bearing(&self, n: &str) -> Option<Point> {
        let c: Vec<char> = n.chars().collect();
        if c.len() < 8 || c.len() > 11 || !c.iter().all(|c| c.is_ascii_digit() || c.is_ascii_uppercase()) {
            return None;
        }
        let (head, tail) = n.split_at(n.len() - 6);
        if !tail.chars().all(|c| c.is_ascii_digit()) {
            return None;
        }
        let from = self.named(head)?;
        Some(destination(from, tail[..3].parse().unwrap(), tail[3..].parse::<f64>().unwrap() * 1852.0))
    }
}

/// A latitude/longitude name: `None` if it is none, `Some(None)` if not judged (out of range).
fn latlng(n: &str) -> Option<Option<(String, Point)>> {
    if !n.is_ascii() {
        return None;
    }
    let h = n.find(|c: char| !c.is_ascii_digit())?;
    let (lat, rest) = n.split_at(h);
    let ns = &rest[..1];
    let rest = &rest[1..];
    if !(ns == "N" || ns == "S") || rest.is_empty() {
        return None;
    }
    let (lng, ew) = rest.split_at(rest.len() - 1);
    if !(ew == "E" || ew == "W") || lat.is_empty() || lng.is_empty() || !lng.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let full = |t: &str, w: usize| {
        if t.len() == w {
            Some(t.to_string())
        } else if t.len() + 1 == w && !t.starts_with('0') {
            Some(format!("0{t}"))
        } else {
            None
        }
    };
    for (w, v) in [(2, 3), (4, 5), (6, 7)] {
        if let (Some(a), Some(b)) = (full(lat, w), full(lng, v)) {
            let num = |t: &str, d: usize| -> Option<f64> {
                let deg: f64 = t[..d].parse().unwrap();
                let m: f64 = t.get(d..d + 2).map_or(0.0, |t| t.parse().unwrap());
                let s: f64 = t.get(d + 2..d + 4).map_or(0.0, |t| t.parse().unwrap());
                let ok = deg <= if d == 2 { 90.0 } else { 180.0 } && m < 60.0 && s < 60.0;
                ok.then_some(deg + m / 60.0 + s / 3600.0)
            };
            let (Some(y), Some(x)) = (num(&a, 2), num(&b, 3)) else {
                return Some(None);
            };
            let p = Point::new(if ew == "W" { -x } else { x }, if ns == "S" { -y } else { y });
            return Some(Some((format!("{a}{ns}{b}{ew}"), p)));
        }
    }
    None
}

pub fn near(a: Point, b: Point, tol: f64) -> bool {
    let dx = (a.x() - b.x()).abs();
    let dx = dx.min((dx - 360.0).abs());
    dx * b.y().to_radians().cos().abs() <= tol && (a.y() - b.y()).abs() <= tol
}

fn check(db: &Db, l: &Locations, n: &str, c: &mut Case) -> Res {
    let got = no_panic("convert_designator", || l.convert_designator(n))?;
    let loc = no_panic("convert_location", || l.convert_location(&Location::Fix(n.to_string())))?;
    ensure!(
        loc.map(|p| (p.x(), p.y())) == got.as_ref().map(|f| (f.coordinate.x(), f.coordinate.y())),
        "{n}: convert_location gives {loc:?}, convert_designator {got:?}"
    );
    let Some((kind, want)) = db.resolve(n) else { return Ok(()) };
    c.label(kind);
    match (&got, &want) {
        (None, None) => {}
        (Some(f), Some((d, p, tol))) => {
            ensure!(f.designator == *d, "{n}: named {} instead of {d}", f.designator);
            ensure!(near(f.coordinate, *p, *tol), "{n}: at {:?} instead of {p:?}", f.coordinate);
        }
        _ => return Err(Fail::from(format!("{n}: got {got:?}, expected {want:?}"))),
    }
    let has = db.named(n).is_some();
    let got = no_panic("contains_designator", || l.contains_designator(n))?;
    ensure!(got == has, "contains_designator({n}) is {got}");
    for d in [0.0, 3e-7, -3e-7, 8e-7, 1.0] {
        for list in [&db.vors, &db.ndbs, &db.fixes] {
            for (m, p) in list.iter().chain([&(n.to_string(), Point::new(11.0, 48.0))]) {
                let at = Point::new(p.x() + d, p.y());
                let want = [&db.vors, &db.ndbs, &db.fixes]
                    .iter()
                    .any(|l| l.iter().any(|(k, q)| k == m && (q.x() - at.x()).abs() < 5e-7 && (q.y() - at.y()).abs() < 5e-7));
                let got = l.contains_nav_element(m, GraphPosition(at));
                ensure!(got == want, "contains_nav_element({m}, {at:?}) is {got}");
            }
        }
    }
    Ok(())
}

fn resolve(s: &mut Src, c: &mut Case) -> Res {
    let d = db(s);
    let l = d.real();
    let mut names = s.vec(1, 6, name);
    if let Some((n, _)) = d.vors.iter().chain(&d.ndbs).chain(&d.fixes).next() {
        names.push(n.clone());
    }
    for a in &d.airports {
        for r in &a.2 {
            names.push(format!("{}{}", a.0, r.1));
            names.push(format!("{}{}", a.0, r.0));
        }
    }
    // bearings and ranges need a name of their own
    if s.chance(1, 3) {
        let head = match s.draw(3) {
            0 => s.pick(&["48N11E", "5N10E", "1S3W", "05N010E", "0N0E", "9S77W"]).to_string(),
            1 => coord_name(s).0,
            _ => s.pick(&names).clone(),
        };
        names.push(format!("{head}{:03}{:03}", s.int(0, 360), s.int(0, 999)));
    }
    // slightly wrong names
    for _ in 0..2 {
        let mut w: Vec<char> = s.pick(&names).chars().collect();
        if w.is_empty() {
            continue;
        }
        let i = s.idx(w.len());
        match s.draw(4) {
            0 => {
                w.remove(i);
            }
            1 => w.insert(i, *s.pick(&['0', 'A', 'N', 'É', '٣', ' '])),
            2 => w[i] = *s.pick(&['0', '9', 'A', 'W', '٣', 'ä', '²', 'n']),
            _ => {
                let x = w[i];
                w.push(x);
            }
        }
        names.push(w.into_iter().collect());
    }
    c.input = format!("{names:?} in {d:?}");
    c.nontrivial = d.vors.len() + d.ndbs.len() + d.fixes.len() + d.airports.len() >= 2;
    for n in &names {
        check(&d, &l, n, c)?;
    }
    Ok(())
}

/// All permitted abbreviations of a coordinate name.
fn coordinates(s: &mut Src, c: &mut Case) -> Res {
    let (n, want) = coord_name(s);
    c.input = n.clone();
    c.nontrivial = true;
    let l = Locations::default();
    let got = no_panic("convert_designator", || l.convert_designator(&n))?;
    match (&got, &want) {
        (None, None) => c.label("not permitted"),
        (Some(f), Some((full, x, y))) => {
            c.label(if n == *full { "full" } else { "abbreviated" });
            ensure!(f.designator == *full, "{n}: named {} instead of {full}", f.designator);
            ensure!(near(f.coordinate, Point::new(*x, *y), 1e-9), "{n}: at {:?}", f.coordinate);
        }
        _ => return Err(Fail::from(format!("{n}: got {got:?}, expected {want:?}"))),
    }
    Ok(())
}

/// Any bearing and range from any place.
fn bearings(s: &mut Src, c: &mut Case) -> Res {
    let p = Point::new(s.int(-179_000, 179_000) as f64 / 1e3, s.int(-85_000, 85_000) as f64 / 1e3);
    let d = Db { fixes: vec![("NAXAV".into(), p)], ..Default::default() };
    let (b, r) = (s.int(0, 999), s.int(0, 999));
    let n = format!("NAXAV{b:03}{r:03}");
    c.input = format!("{n} from {p:?}");
    c.nontrivial = r > 0;
    check(&d, &d.real(), &n, c)
}

/// Arbitrary short texts.
fn anything(s: &mut Src, c: &mut Case) -> Res {
    let d = db(s);
    let l = d.real();
    let alphabet: Vec<char> = "0123456789NSEWABZ٣é² .".chars().collect();
    for _ in 0..8 {
        let n = s.string(0, 16, &alphabet);
        c.input += &format!("{n:?} ");
        check(&d, &l, &n, c)?;
    }
    c.nontrivial = true;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "random databases whose VOR, NDB, fix, airport and runway names collide with each other and with coordinate and bearing/range names; queries are database names, coordinate and bearing/range names, mutations of them and arbitrary texts; non-trivial: database of at least two places. Oracle: an independent resolver (Vincenty's direct formulae for bearing/range)",
        assumptions: &["coordinate names whose degrees or minutes are out of range are not judged", "of several places of one kind and name the first counts"],
        subs: vec![
            Sub { name: "resolve", quick: 40_000, thorough: 800_000, f: resolve },
            Sub { name: "coordinates", quick: 30_000, thorough: 500_000, f: coordinates },
            Sub { name: "bearings", quick: 20_000, thorough: 400_000, f: bearings },
            Sub { name: "anything", quick: 10_000, thorough: 400_000, f: anything },
        ],
        probes: vec![],
    }
}
