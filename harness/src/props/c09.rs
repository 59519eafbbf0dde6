use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, HashSet};

use super::c07::{star, P};
use crate::engine::*;
use crate::gen_ese::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use geo::{Coord, Line, LineString, Point, Polygon};
use vatsim_parser::adaptation::sectors::{Sector, Volume};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

/// Where the lattice of places lies and how wide it is: powers of two, so that all predicates are exact.
#[derive(Clone, Copy, Debug)]
struct Frame {
    x: f64,
    y: f64,
    unit: f64,
}
const COARSE: Frame = Frame { x: 0.0, y: 0.0, unit: 0.25 };
thread_local! {
    static FRAME: Cell<Frame> = const { Cell::new(COARSE) };
}
/// A lattice anywhere, from a quarter of a degree down to a tenth of a millimetre.
fn frame(s: &mut Src, c: &mut Case) -> Frame {
    let f = if s.bool() {
        COARSE
    } else {
        let b = s.pick(&[(11.0, 48.0), (-7.5, -33.25), (179.0, 51.0), (-0.0625, 0.0), (-180.0, 83.5), (0.0, 0.0)]);
        Frame { x: b.0, y: b.1, unit: 0.5f64.powi(*s.pick(&[6, 10, 16, 20, 24, 30])) }
    };
    c.label(if f.unit == COARSE.unit { "coarse" } else { "fine" });
    c.input.push_str(&format!("{f:?}\n"));
    FRAME.set(f);
    f
}
fn coord(x: i64, y: i64, unit: f64) -> Coord {
    let f = FRAME.get();
    Coord { x: f.x + x as f64 * unit, y: f.y + y as f64 * unit }
}

/// Volume of the model.
#[derive(Clone, Debug, PartialEq)]
struct Vol {
    lower: u32,
    upper: u32,
    ring: Vec<P>,
    hole: Option<Vec<P>>,
}
#[derive(Clone, Debug, PartialEq)]
struct Sec {
    owners: Vec<String>,
    volumes: Vec<String>,
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Model {
    vols: BTreeMap<String, Vol>,
    secs: BTreeMap<String, Sec>,
}

fn line_string(r: &[P]) -> LineString {
    LineString(r.iter().map(|p| coord(p.0, p.1, FRAME.get().unit)).collect())
}
fn volume(id: &str, v: &Vol) -> Volume {
    let mut out = Volume::new(id.to_string(), v.lower, v.upper, line_string(&v.ring));
    if let Some(h) = &v.hole {
        out.lateral_border = Polygon::new(out.lateral_border.exterior().clone(), vec![line_string(h)]);
    }
    out
}
fn sector(id: &str, x: &Sec) -> Sector {
    Sector {
        id: id.to_string(),
        position_priority: x.owners.clone(),
        runway_filter: vec![],
        volumes: x.volumes.iter().cloned().collect(),
        departure_aerodromes: HashSet::new(),
        arrival_aerodromes: HashSet::new(),
    }
}

// places in half units, so that middles of edges can be asked for
fn x2(p: P) -> P {
    (p.0 * 2, p.1 * 2)
}
fn cross(o: P, a: P, b: P) -> i64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}
fn on(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
#[derive(PartialEq, Debug)]
enum Side {
    In,
    Edge,
    Out,
}
fn side(ring: &[P], p: P) -> Side {
    let r: Vec<P> = ring.iter().map(|q| x2(*q)).collect();
    if r.windows(2).any(|w| on(w[0], w[1], p)) {
        return Side::Edge;
    }
    let mut wind = 0;
    for w in r.windows(2) {
        let c = cross(w[0], w[1], p);
        if w[0].1 <= p.1 && w[1].1 > p.1 && c > 0 {
            wind += 1;
        }
        if w[0].1 > p.1 && w[1].1 <= p.1 && c < 0 {
            wind -= 1;
        }
    }
    if wind != 0 {
        Side::In
    } else {
        Side::Out
    }
}
fn contains(v: &Vol, p: P) -> bool {
    !v.ring.is_empty() && side(&v.ring, p) == Side::In && v.hole.as_ref().is_none_or(|h| side(h, p) == Side::Out)
}
fn meet(a: P, b: P, c: P, d: P) -> bool {
    let (s1, s2) = (cross(a, b, c).signum(), cross(a, b, d).signum());
    let (s3, s4) = (cross(c, d, a).signum(), cross(c, d, b).signum());
    (s1 != s2 && s3 != s4 && s1 * s2 <= 0 && s3 * s4 <= 0) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)
}
fn crosses(v: &Vol, a: P, b: P) -> bool {
    let r: Vec<P> = v.ring.iter().map(|q| x2(*q)).collect();
    r.windows(2).any(|w| meet(w[0], w[1], a, b))
        || v.hole.as_ref().is_some_and(|h| h.iter().map(|q| x2(*q)).collect::<Vec<_>>().windows(2).any(|w| meet(w[0], w[1], a, b)))
        || contains(v, a)
}
fn boxes_meet(v: &Vol, a: P, b: P) -> bool {
    let r: Vec<P> = v.ring.iter().map(|q| x2(*q)).collect();
    let (Some(x0), Some(x1)) = (r.iter().map(|p| p.0).min(), r.iter().map(|p| p.0).max()) else { return false };
    let (y0, y1) = (r.iter().map(|p| p.1).min().unwrap(), r.iter().map(|p| p.1).max().unwrap());
    a.0.min(b.0) <= x1 && a.0.max(b.0) >= x0 && a.1.min(b.1) <= y1 && a.1.max(b.1) >= y0
}

impl Model {
    /// (sector, volume) pairs that can be found.
    fn indexed(&self) -> Vec<(&String, &String, &Vol)> {
        self.secs
            .iter()
            .filter(|(_, x)| !x.owners.is_empty())
            .flat_map(|(id, x)| {
                let ids: std::collections::BTreeSet<_> = x.volumes.iter().collect();
                ids.into_iter().filter_map(move |v| Some((id, v, self.vols.get(v)?)))
            })
            .collect()
    }
}

fn pair(x: &(String, Volume)) -> (String, String, u32, u32) {
    (x.0.clone(), x.1.id.clone(), x.1.lower_level, x.1.upper_level)
}

fn at(p: P) -> Coord {
    coord(p.0, p.1, FRAME.get().unit / 2.0)
}

fn query(s: &mut Src, a: &Adaptation, m: &Model, c: &mut Case) -> Res {
    let vs: Vec<&Vol> = m.vols.values().filter(|v| !v.ring.is_empty()).collect();
    let spot = |s: &mut Src| -> P {
        match s.weighted(&[2, 2, 2, 6]) {
            3 if !vs.is_empty() => {
                // in the middle of three corners
                let v = *s.pick(&vs);
                let (a, b, d) = (*s.pick(&v.ring), *s.pick(&v.ring), *s.pick(&v.ring));
                ((a.0 + b.0 + d.0) * 2 / 3, (a.1 + b.1 + d.1) * 2 / 3)
            }
            1 if !vs.is_empty() => {
                let v = *s.pick(&vs);
                x2(*s.pick(&v.ring))
            }
            2 if !vs.is_empty() => {
                let v = *s.pick(&vs);
                let i = s.idx(v.ring.len() - 1);
                (v.ring[i].0 + v.ring[i + 1].0, v.ring[i].1 + v.ring[i + 1].1)
            }
            _ => (s.int(-4, 24), s.int(-4, 24)),
        }
    };
    let p = spot(s);
    match s.draw(3) {
        0 => {
            let level = match s.weighted(&[2, 3, 1]) {
                1 if !vs.is_empty() => {
                    let v = *s.pick(&vs);
                    let base = if s.bool() { v.lower } else { v.upper } as f32;
                    base + *s.pick(&[0.0, -1.0, 1.0, -0.25, 0.25])
                }
                2 => *s.pick(&[-1000.0, 0.0, 66_000.0, 99_999.0]),
                _ => s.int(0, 5) as f32 * 1000.0,
            };
            let want = m
                .indexed()
                .into_iter()
                .filter(|(_, _, v)| contains(v, p) && level >= v.lower as f32 && level < v.upper as f32)
                .map(|x| x.0.as_str())
                .min();
            if want.is_some() {
                c.label("sector found");
            }
            c.input.push_str(&format!("find_sector({:?}, {level})\n", at(p)));
            let got = no_panic("find_sector", || a.find_sector(Point(at(p)), level).map(String::from))?;
            ensure_eq!(got.as_deref(), want, "find_sector({:?}, {level})", at(p));
        }
        1 => {
            let mut want: Vec<_> = m
                .indexed()
                .into_iter()
                .filter(|(_, _, v)| contains(v, p))
                .map(|(x, id, v)| (x.clone(), id.clone(), v.lower, v.upper))
                .collect();
            want.sort();
            if !want.is_empty() {
                c.label("volume found");
            }
            c.input.push_str(&format!("volumes_at({:?})\n", at(p)));
            let mut got: Vec<_> = no_panic("volumes_at", || a.volumes_at(Point(at(p))).map(pair).collect())?;
            got.sort();
            ensure_eq!(got, want, "volumes_at({:?})", at(p));
        }
        _ => {
            let q = if s.chance(1, 4) { (p.0, s.int(-4, 24)) } else { spot(s) };
            c.input.push_str(&format!("volumes_near_line({:?}, {:?})\n", at(p), at(q)));
            let mut got: Vec<_> =
                no_panic("volumes_near_line", || a.volumes_near_line(Line::new(at(p), at(q))).map(pair).collect())?;
            got.sort();
            let ix = m.indexed();
            for (x, id, v) in &ix {
                let t = ((*x).clone(), (*id).clone(), v.lower, v.upper);
                if crosses(v, p, q) {
                    c.label("volume crossed");
                    ensure!(got.contains(&t), "volumes_near_line({:?}, {:?}) misses {t:?}: {got:?}", at(p), at(q));
                } else if boxes_meet(v, p, q) {
                    c.label("volume near");
                }
            }
            for t in &got {
                ensure!(
                    ix.iter().any(|(x, id, v)| (*x, *id, v.lower, v.upper) == (&t.0, &t.1, t.2, t.3) && boxes_meet(v, p, q)),
                    "volumes_near_line({:?}, {:?}) gives {t:?} which is not near",
                    at(p),
                    at(q)
                );
            }
            let n = got.len();
            got.dedup();
            ensure!(got.len() == n, "volumes_near_line({:?}, {:?}) gives a volume twice", at(p), at(q));
        }
    }
    Ok(())
}

fn vol(s: &mut Src) -> Vol {
    let lower = s.int(0, 4) as u32 * 1000;
    let upper = if s.chance(1, 8) { s.int(0, 4) as u32 * 1000 } else { lower + s.int(0, 3) as u32 * 1000 + s.int(0, 1) as u32 };
    let (ring, hole) = match s.weighted(&[5, 1, 1]) {
        0 => {
            let d = (s.int(0, 6), s.int(0, 6));
            let n = s.int(2, 6);
            (star(s, n).iter().map(|p| (p.0 + d.0, p.1 + d.1)).collect(), None)
        }
        1 => {
            let (x, y) = (s.int(0, 5), s.int(0, 5));
            let r = |a: i64, b: i64, n: i64| vec![(a, b), (a + n, b), (a + n, b + n), (a, b + n), (a, b)];
            (r(x, y, 5), Some(r(x + 1, y + 1, 2)))
        }
        _ => {
            let (x, y, w, h) = (s.int(0, 8), s.int(0, 8), s.int(1, 4), s.int(1, 4));
            (vec![(x, y), (x + w, y), (x + w, y + h), (x, y + h), (x, y)], None)
        }
    };
    Vol { lower, upper, ring, hole }
}
fn sec(s: &mut Src) -> Sec {
    let n = if s.chance(1, 5) { 0 } else { s.us(1, 2) };
    let volumes = s.us(1, 5);
    Sec { owners: s.vec(n, n, owner), volumes: s.vec(volumes, volumes, |s| format!("V{}", s.int(0, 6))) }
}

struct Pairing {
    a: Adaptation,
    m: Model,
    /// The index was built for another content.
    stale: bool,
    built: bool,
}

fn change(s: &mut Src, x: &mut Pairing, c: &mut Case) {
    let (a, m) = (&mut x.a, &mut x.m);
    let before = m.clone();
    match s.draw(6) {
        0 => {
            let (id, v) = (format!("V{}", s.int(0, 6)), vol(s));
            a.volumes.insert(id.clone(), volume(&id, &v));
            c.input.push_str(&format!("volume {id} = {v:?}\n"));
            m.vols.insert(id, v);
        }
        1 => {
            let (id, v) = (format!("S{}", s.int(0, 4)), sec(s));
            a.sectors.0.insert(id.clone(), sector(&id, &v));
            c.input.push_str(&format!("sector {id} = {v:?}\n"));
            m.secs.insert(id, v);
        }
        2 => {
            let id = format!("V{}", s.int(0, 6));
            c.input.push_str(&format!("volume {id} removed\n"));
            a.volumes.remove(&id);
            m.vols.remove(&id);
        }
        3 => {
            let id = format!("S{}", s.int(0, 4));
            c.input.push_str(&format!("sector {id} removed\n"));
            a.sectors.0.remove(&id);
            m.secs.remove(&id);
        }
        4 => {
            let (id, o) = (format!("S{}", s.int(0, 4)), s.vec(0, 2, owner));
            if let Some(x) = m.secs.get_mut(&id) {
                c.input.push_str(&format!("owners of sector {id} = {o:?}\n"));
                a.sectors.0.get_mut(&id).unwrap().position_priority = o.clone();
                x.owners = o;
            }
        }
        _ => {
            let id = format!("V{}", s.int(0, 6));
            if let Some(v) = m.vols.get_mut(&id) {
                v.upper = v.upper.saturating_add(1000);
                c.input.push_str(&format!("upper level of volume {id} = {}\n", v.upper));
                a.volumes.get_mut(&id).unwrap().upper_level = v.upper;
            }
        }
    }
    if before != *m && x.built {
        x.stale = true;
    }
}

fn history(s: &mut Src, c: &mut Case) -> Res {
    let f = frame(s, c);
    let mut x = Pairing { a: Adaptation::default(), m: Model::default(), stale: false, built: false };
    let n = s.us(1, 6);
    for i in 0..n {
        let (id, v) = (format!("V{i}"), vol(s));
        x.a.volumes.insert(id.clone(), volume(&id, &v));
        x.m.vols.insert(id, v);
    }
    let n = s.us(1, 5);
    for i in 0..n {
        let (id, mut v) = (format!("S{i}"), sec(s));
        if i == 0 && v.owners.is_empty() && s.chance(3, 4) {
            v.owners.push("ALB".into());
        }
        x.a.sectors.0.insert(id.clone(), sector(&id, &v));
        x.m.secs.insert(id, v);
    }
    c.input += &format!("{:#?}\n", x.m);
    let mut asked = 0;
    let steps = s.us(3, 20);
    for _ in 0..steps {
        // JSON keeps places of the coarse lattice exactly
        match s.weighted(&[10, 3, 2, 2, if f.unit == COARSE.unit { 2 } else { 0 }]) {
            0 => {
                if x.stale {
                    // documented: needs a rebuild first; must still answer
                    c.label("stale query (not judged)");
                    no_panic("find_sector", || x.a.find_sector(Point::new(1.0, 1.0), 1000.0).is_some())?;
                    continue;
                }
                query(s, &x.a, &x.m, c)?;
                x.built = true;
                asked += 1;
            }
            1 => change(s, &mut x, c),
            2 => {
                c.input.push_str("rebuild\n");
                c.label("rebuild");
                x.a.rebuild_sector_index();
                x.built = true;
                x.stale = false;
            }
            3 => {
                c.input.push_str("copy\n");
                c.label("copy");
                let copy = x.a.clone();
                if s.bool() {
                    // the copy is changed, the original answers as before
                    let mut y = Pairing { a: copy, m: x.m.clone(), stale: x.stale, built: x.built };
                    change(s, &mut y, c);
                    y.a.rebuild_sector_index();
                    query(s, &y.a, &y.m, c)?;
                    if !x.stale {
                        query(s, &x.a, &x.m, c)?;
                        x.built = true;
                    }
                } else {
                    x.a = copy;
                }
            }
            _ => {
                c.input.push_str("to JSON and back\n");
                c.label("JSON");
                let t = serde_json::to_string(&x.a).map_err(|e| Fail::from(e.to_string()))?;
                x.a = serde_json::from_str(&t).map_err(|e| Fail::from(e.to_string()))?;
                x.built = false;
                x.stale = false;
            }
        }
    }
    c.nontrivial = asked >= 2 && (c.labels.iter().any(|l| l == "sector found" || l == "volume found" || l == "volume crossed"));
    Ok(())
}

/// Airspaces of real size: the index is a tree of several levels.
fn many(s: &mut Src, c: &mut Case) -> Res {
    frame(s, c);
    let mut a = Adaptation::default();
    let mut m = Model::default();
    let n = *s.pick(&[20, 50, 60, 150, 400]);
    let (w, mut ids) = (s.int(1, 60), vec![]);
    for i in 0..n {
        let (id, mut v) = (format!("V{i}"), vol(s));
        let d = (s.int(0, w), s.int(0, w));
        for p in v.ring.iter_mut().chain(v.hole.iter_mut().flatten()) {
            *p = (p.0 + d.0, p.1 + d.1);
        }
        a.volumes.insert(id.clone(), volume(&id, &v));
        m.vols.insert(id.clone(), v);
        ids.push(id);
    }
    // every volume is of one sector
    let k = s.us(1, 40);
    let mut of: Vec<Vec<String>> = vec![vec![]; k];
    for id in ids {
        of[s.idx(k)].push(id);
    }
    for (i, volumes) in of.into_iter().enumerate() {
        let owners = if s.chance(1, 8) { vec![] } else { vec![owner(s)] };
        let (id, x) = (format!("S{i}"), Sec { owners, volumes });
        a.sectors.0.insert(id.clone(), sector(&id, &x));
        m.secs.insert(id, x);
    }
    c.input += &format!("{m:#?}\n");
    for _ in 0..12 {
        query(s, &a, &m, c)?;
    }
    c.label(format!("{n} volumes"));
    c.nontrivial = c.labels.iter().any(|l| l.contains("found") || l.contains("crossed"));
    Ok(())
}

/// Queries after overlays that change sectors and volumes.
fn overlays(s: &mut Src, c: &mut Case) -> Res {
    FRAME.set(COARSE);
    let mut x = Pairing { a: Adaptation::default(), m: Model::default(), stale: false, built: false };
    for i in 0..4 {
        let (id, v) = (format!("V{i}"), vol(s));
        x.a.volumes.insert(id.clone(), volume(&id, &v));
        x.m.vols.insert(id, v);
    }
    for i in 0..3 {
        let (id, v) = (format!("S{i}"), sec(s));
        x.a.sectors.0.insert(id.clone(), sector(&id, &v));
        x.m.secs.insert(id, v);
    }
    c.input = format!("{:#?}\n", x.m);
    if s.bool() {
        query(s, &x.a, &x.m, c)?;
    }
    let mut paths = vec![];
    for i in 0..s.us(1, 2) {
        let t = match s.draw(4) {
            0 => {
                let (id, o) = (format!("S{}", s.int(0, 2)), s.vec(0, 2, owner));
                x.m.secs.get_mut(&id).unwrap().owners = o.clone();
                format!("{{ sectors+: {{ {id}+: {{ position_priority: {} }} }} }}", serde_json::to_string(&o).unwrap())
            }
            1 => {
                let id = format!("V{}", s.int(0, 3));
                let v = x.m.vols.get_mut(&id).unwrap();
                v.upper += 2000;
                format!("{{ volumes+: {{ {id}+: {{ upper_level: super.upper_level + 2000 }} }} }}")
            }
            2 => {
                let (id, v) = (format!("S{}", s.int(0, 2)), s.vec(0, 3, |s| format!("V{}", s.int(0, 3))));
                x.m.secs.get_mut(&id).unwrap().volumes = v.clone();
                format!("{{ sectors+: {{ {id}+: {{ volumes: {} }} }} }}", serde_json::to_string(&v).unwrap())
            }
            _ => "{}".to_string(),
        };
        c.input.push_str(&format!("overlay {t}\n"));
        let p = c.scratch.join(format!("o{i}.jsonnet"));
        std::fs::write(&p, t).expect("scratch");
        paths.push(p);
    }
    x.a = x.a.apply_jsonnet_overlays(paths.iter()).map_err(|e| Fail::from(format!("overlay: {e}")))?;
    for _ in 0..12 {
        query(s, &x.a, &x.m, c)?;
    }
    c.nontrivial = c.labels.iter().any(|l| l.contains("found") || l.contains("crossed"));
    Ok(())
}

/// A profile is loaded: its volumes are found.
fn loaded(s: &mut Src, c: &mut Case) -> Res {
    FRAME.set(COARSE);
    let mut m = Model::default();
    let mut airs = vec![];
    let owners: HashMap<usize, Vec<String>> = (0..3).map(|i| (i, s.vec(0, 2, owner))).collect();
    let n = s.us(1, 6);
    for i in 0..n {
        let mut v = vol(s);
        v.hole = None;
        let id = format!("V{i}");
        let o = s.draw(3) as usize;
        let dec = |p: &P| Pt::Dec(format!("{:.2}", p.1 as f64 * COARSE.unit), format!("{:.2}", p.0 as f64 * COARSE.unit));
        airs.push(Air::Line { id: id.clone(), points: v.ring.iter().map(dec).collect(), displays: vec![] });
        let mut settings = vec![Setting::Border(vec![id.clone()])];
        if !owners[&o].is_empty() {
            settings.push(Setting::Owner(owners[&o].clone()));
        }
        airs.push(Air::Sector { id: id.clone(), bottom: v.lower, top: v.upper, settings });
        // sectors are called after their first volume
        match m.secs.values_mut().find(|x| x.owners == owners[&o]) {
            Some(x) => x.volumes.push(id.clone()),
            None => {
                m.secs.insert(id.clone(), Sec { owners: owners[&o].clone(), volumes: vec![id.clone()] });
            }
        }
        m.vols.insert(id, v);
    }
    let text = EseModel { sections: vec![Section::Airspace(airs)] }.render(s);
    c.input = text.clone();
    let mut w = World::seed();
    w.set(ESE_F, text);
    let dir = w.write(&c.scratch);
    let p = dir.join(PRF_F);
    let prf = Prf::parse(&p, &std::fs::read(&p).unwrap()).map_err(|e| Fail::from(e.to_string()))?;
    let a = Adaptation::from_prf(&prf).map_err(|e| Fail::from(e.to_string()))?;
    // name the model's sectors as the adaptation does (any of their volumes, see C08)
    let mut named = Model { vols: m.vols.clone(), secs: BTreeMap::new() };
    for x in m.secs.into_values() {
        let id = a.sectors.find_id_by_volume(&x.volumes[0]).ok_or_else(|| Fail::from("volume without sector"))?;
        named.secs.insert(id.clone(), x);
    }
    for _ in 0..16 {
        query(s, &a, &named, c)?;
    }
    c.nontrivial = c.labels.iter().any(|l| l.contains("found") || l.contains("crossed"));
    Ok(())
}

/// Everything asked at once, with nothing built before.
fn threads(s: &mut Src, c: &mut Case) -> Res {
    frame(s, c);
    let mut a = Adaptation::default();
    let mut m = Model::default();
    let n = s.us(1, 40);
    let k = s.us(1, 6);
    let mut of: Vec<Vec<String>> = vec![vec![]; k];
    for i in 0..n {
        let (id, v) = (format!("V{i}"), vol(s));
        a.volumes.insert(id.clone(), volume(&id, &v));
        m.vols.insert(id.clone(), v);
        of[s.idx(k)].push(id);
    }
    for (i, volumes) in of.into_iter().enumerate() {
        let (id, x) = (format!("S{i}"), Sec { owners: vec![owner(s)], volumes });
        a.sectors.0.insert(id.clone(), sector(&id, &x));
        m.secs.insert(id, x);
    }
    c.input += &format!("{m:#?}\n");
    // the same on a copy, one after the other and judged by the model
    let mut one = a.clone();
    one.rebuild_sector_index();
    query(s, &one, &m, c)?;
    let p = |s: &mut Src| (s.int(-2, 14), s.int(-2, 14));
    let asked: Vec<(Coord, f32, Coord)> = s.vec(4, 12, |s| (at(p(s)), s.int(0, 50) as f32 * 100.0, at(p(s))));
    let ask = |a: &Adaptation, i: usize| {
        let (p, level, q) = asked[i];
        let mut v: Vec<_> = a.volumes_at(p.into()).map(pair).collect();
        v.sort();
        let mut l: Vec<_> = a.volumes_near_line(geo::Line::new(p, q)).map(pair).collect();
        l.sort();
        (a.find_sector(p.into(), level).map(String::from), v, l)
    };
    let want: Vec<_> = (0..asked.len()).map(|i| ask(&one, i)).collect();
    c.nontrivial = want.iter().any(|w| w.0.is_some() || !w.1.is_empty());
    if s.chance(1, 4) {
        c.label("built before");
        a.rebuild_sector_index();
    }
    let count = s.us(2, 6);
    let start = std::sync::Barrier::new(count);
    let bad: Vec<String> = std::thread::scope(|scope| {
        let all: Vec<_> = (0..count)
            .map(|t| {
                let (a, ask, want, start) = (&a, &ask, &want, &start);
                scope.spawn(move || {
                    start.wait();
                    for j in 0..want.len() {
                        let i = (j + t * 3) % want.len();
                        let got = ask(a, i);
                        if got != want[i] {
                            return Some(format!("thread {t}, question {i}: {got:?}, alone {:?}", want[i]));
                        }
                    }
                    None
                })
            })
            .collect();
        all.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a thread panicked".into()))).collect()
    });
    c.label(format!("{count} threads"));
    ensure!(bad.is_empty(), "{bad:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "histories of up to twenty steps (queries at lattice places, corners and middles of edges and at, above and below level limits; insertion, removal and change of volumes and sectors; rebuild; copy; JSON round trip) on a lattice anywhere, of a quarter degree down to a tenth of a millimetre, on up to seven overlapping volumes (star-shaped, rectangular, with a hole, empty level band) in up to five sectors (shared and missing volumes, no owners); overlays followed by queries; airspaces of up to 400 volumes in up to 40 sectors; up to six threads asking one adaptation at once, with its index not yet built; profiles loaded from disk; non-trivial: something was found by at least one of two or more judged queries. Oracle: exhaustive scan over the model with exact integer geometry",
        assumptions: &["queries between a change of a built index and the next rebuild are documented to be stale and only checked not to panic", "borders lie on a lattice whose width is a power of two, so that floating point predicates are exact"],
        subs: vec![
            Sub { name: "history", quick: 40_000, thorough: 1_500_000, f: history },
            Sub { name: "many", quick: 600, thorough: 30_000, f: many },
            Sub { name: "threads", quick: 1_500, thorough: 60_000, f: threads },
            Sub { name: "overlays", quick: 1_000, thorough: 30_000, f: overlays },
            Sub { name: "loaded", quick: 2_000, thorough: 60_000, f: loaded },
        ],
        probes: vec![],
    }
}
