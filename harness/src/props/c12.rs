use super::c11::{coord_name, near, Db};
use crate::engine::*;
use crate::gen::{icao, json_close, Layout};
use crate::gen_ese::{self, EseModel, Proc, Section};
use crate::gen_sct::{self, Kind, Part, SctModel};
use crate::world::*;
use crate::{ensure, ensure_eq};
use geo::Point;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::locations::{Airport, Fix};
use vatsim_parser::airway::parse_airway_txt;

/// Small sector file whose places share names.
pub fn places(s: &mut Src, extra: &[Kind]) -> SctModel {
    let o = gen_sct::Opts { unicode: true, ..Default::default() };
    let mut kinds = vec![Kind::Vor, Kind::Ndb, Kind::Fixes, Kind::Airport, Kind::Runway];
    kinds.extend(extra);
    if s.chance(1, 3) {
        s.shuffle(&mut kinds);
    }
    let mut parts = vec![];
    for k in kinds {
        let n = if s.chance(1, 150) { s.us(0, 400) } else { s.us(0, 6) };
        parts.push(Part::Section(k, s.vec(n, n, |s| gen_sct::rec(s, k, &o))));
        if s.chance(1, 12) {
            parts.push(Part::Section(k, s.vec(0, 3, |s| gen_sct::rec(s, k, &o))));
        }
    }
    SctModel { parts }
}

fn by_name<T: serde::Serialize>(list: &[T]) -> Value {
    let mut m: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for x in list {
        let v = serde_json::to_value(x).unwrap();
        m.entry(v["designator"].as_str().unwrap().to_string()).or_default().push(v);
    }
    json!(m)
}

/// A name some place may have.
fn waypoint(s: &mut Src, d: &Db) -> String {
    let mut known: Vec<String> = [&d.vors, &d.ndbs, &d.fixes].iter().flat_map(|l| l.iter().map(|x| x.0.clone())).collect();
    for a in &d.airports {
        known.push(a.0.clone());
        for r in &a.2 {
            known.push(format!("{}{}", a.0, r.0));
            known.push(format!("{}{}", a.0, r.1));
        }
    }
    // those that a route can name
    known.retain(|n| n.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '-'));
    match s.weighted(&[6, 3, 1, 1]) {
        0 if !known.is_empty() => s.pick(&known).clone(),
        2 => coord_name(s).0,
        3 if !known.is_empty() => format!("{}{:03}{:03}", s.pick(&known), s.int(0, 360), s.int(0, 60)),
        _ => gen_ese::designator(s),
    }
}

fn merge(s: &mut Src, c: &mut Case) -> Res {
    let m = places(s, &[]);
    let mut w = World::seed();
    let mut sct = m.render(s);
    if m.parts.iter().all(|p| matches!(p, Part::Section(_, r) if r.is_empty())) {
        sct = crate::seeds::SCT.to_string();
        c.label("seed sector file");
    }
    let e = if c.labels.is_empty() {
        m.expected()
    } else {
        vatsim_parser::sct::Sct::parse(sct.as_bytes()).map_err(|e| Fail::from(e.to_string()))?
    };
    w.set(SCT_F, sct.clone());
    // navigation data and airport list
    let codes: Vec<String> = e.airports.iter().map(|a| a.designator.clone()).collect();
    let ads: Vec<String> = e.runways.iter().map(|r| r.aerodrome.clone()).collect();
    let code = |s: &mut Src| match s.weighted(&[3, 1, 1]) {
        0 if !codes.is_empty() => s.pick(&codes).clone(),
        1 if !ads.is_empty() => s.pick(&ads).clone(),
        _ => icao(s),
    };
    let mut nav: Vec<(String, Point, String)> = vec![];
    let mut nav_t = String::new();
    for _ in 0..s.us(0, 5) {
        let (n, lat, lng) = (code(s), s.int(-90_000, 90_000), s.int(-180_000, 180_000));
        let f = |v: i64| format!("{}{}.{:03}", if v < 0 { "-" } else { "" }, v.abs() / 1000, v.abs() % 1000);
        let name = format!("NAV {}", s.int(0, 99));
        nav_t += &format!("{n}\t{}\t{}\t{name}\n", f(lat), f(lng));
        if !nav.iter().any(|x| x.0 == n) {
            nav.push((n, Point::new(f(lng).parse().unwrap(), f(lat).parse().unwrap()), name));
        }
    }
    let mut list: Vec<(String, String, String)> = vec![];
    let mut list_t = "; ICAO\n".to_string();
    for _ in 0..s.us(1, 5) {
        let n = if !nav.is_empty() && s.chance(1, 3) { s.pick(&nav).0.clone() } else { code(s) };
        let mut name = format!("ICAO {}", s.int(0, 99));
        let mut country = format!("COUNTRY {}", s.int(0, 9));
        // a field of the list can be empty
        match s.weighted(&[8, 1, 1, 1]) {
            1 => name.clear(),
            2 => country.clear(),
            3 => {
                name.clear();
                country.clear();
            }
            _ => {}
        }
        list_t += &format!("{n}\t{name}\t{country}\n");
        if !list.iter().any(|x| x.0 == n) {
            list.push((n, name, country));
        }
    }
    w.set(NAVDATA_F, nav_t.clone());
    w.set(AIRPORTS_F, list_t.clone());
    // ese
    let d = Db::of(&e, &nav.iter().map(|x| (x.0.clone(), x.1)).collect::<Vec<_>>());
    let o = gen_ese::Opts { noise: false, ..Default::default() };
    let procs: Vec<Proc> = s.vec(0, 7, |s| {
        let mut p = gen_ese::procedure(s, &o);
        if s.chance(1, 3) {
            p.name = s.pick(&["GIVMI1N", "ROKIL1A"]).to_string();
        }
        p.route = s.vec(0, 6, |s| waypoint(s, &d));
        p
    });
    // one procedure for several runways, or of both kinds
    let mut procs = procs;
    while !procs.is_empty() && s.chance(2, 5) {
        let mut p = s.pick(&procs).clone();
        match s.draw(4) {
            0 => p.sid = !p.sid,
            1 => p.airport = icao(s),
            _ => {
                p.runway = Some(crate::gen::runway_designator(s));
                if s.bool() {
                    p.route = s.vec(0, 4, |s| waypoint(s, &d));
                }
            }
        }
        let i = s.idx(procs.len() + 1);
        procs.insert(i, p);
    }
    let mut sections = vec![Section::SidsStars(procs.clone()), Section::Positions(s.vec(0, 5, |s| gen_ese::position(s, &o)))];
    if s.bool() {
        sections.reverse();
    }
    if s.chance(1, 6) {
        sections.push(Section::SidsStars(s.vec(0, 3, |s| {
            let mut p = gen_ese::procedure(s, &o);
            p.route = s.vec(0, 3, |s| waypoint(s, &d));
            p
        })));
    }
    let em = EseModel { sections };
    let layout = Layout::new(s, &[";"]);
    let ese = em.render_with(s, &layout);
    w.set(ESE_F, ese.clone());
    c.input = format!("{sct}\n== ese\n{ese}\n== navdata\n{nav_t}== airports\n{list_t}");

    let a = load(&w, &c.scratch)?;
    let l = &a.locations;
    ensure_eq!(a.name, e.info.name, "name");
    let close = |got: Value, want: Value, what: &str| json_close(&got, &want, what).map_err(Fail::from);
    let val = |x: &dyn erased::Ser| x.val();
    close(val(&l.vors), by_name(&e.vors), "VORs")?;
    close(val(&l.ndbs), by_name(&e.ndbs), "NDBs")?;
    close(val(&l.fixes), by_name(&e.fixes), "fixes")?;

    let mut airports: BTreeMap<String, Airport> = BTreeMap::new();
    for x in &e.airports {
        airports.insert(
            x.designator.clone(),
            Airport {
                designator: x.designator.clone(),
                coordinate: x.coordinate,
                name: None,
                country: None,
                runways: e.runways.iter().filter(|r| r.aerodrome == x.designator).cloned().collect(),
            },
        );
    }
    let of_sct: BTreeSet<String> = airports.keys().cloned().collect();
    for (n, p, _) in &nav {
        airports.entry(n.clone()).or_insert(Airport {
            designator: n.clone(),
            coordinate: *p,
            name: None,
            country: None,
            runways: e.runways.iter().filter(|r| r.aerodrome == *n).cloned().collect(),
        });
    }
    for (n, x) in airports.iter_mut() {
        let nv = nav.iter().find(|x| x.0 == *n);
        let li = list.iter().find(|x| x.0 == *n);
        x.name = nv.map(|x| x.2.clone()).or(li.map(|x| x.1.clone()));
        x.country = li.map(|x| x.2.clone());
        match (of_sct.contains(n), nv, li) {
            (true, Some(_), _) => c.label("airport of both sources"),
            (false, ..) => c.label("airport of navigation data"),
            (true, None, _) => c.label("airport of the sector file"),
        }
        if nv.is_some() && li.is_some() {
            c.label("two names");
        }
        if !of_sct.contains(n) && !x.runways.is_empty() {
            c.label("runway of an airport of navigation data");
        }
        if x.runways.len() > 1 {
            c.label("several runways");
        }
    }
    close(val(&l.airports), serde_json::to_value(&airports).unwrap(), "airports")?;

    // procedures
    let mut all = vec![];
    for x in &em.sections {
        if let Section::SidsStars(v) = x {
            all.extend(v.iter().cloned());
        }
    }
    type Got<'a> = BTreeMap<(bool, String, String), Vec<(String, String, Option<String>, Vec<&'a Fix>)>>;
    let mut got: Got = BTreeMap::new();
    for (ap, m) in &l.sids {
        for (n, v) in m.iter_all() {
            let v = v.iter().map(|x| (x.airport.clone(), x.name.clone(), x.runway.clone(), x.waypoints.iter().collect())).collect();
            got.insert((true, ap.clone(), n.clone()), v);
        }
    }
    for (ap, m) in &l.stars {
        for (n, v) in m.iter_all() {
            let v = v.iter().map(|x| (x.airport.clone(), x.name.clone(), x.runway.clone(), x.waypoints.iter().collect())).collect();
            got.insert((false, ap.clone(), n.clone()), v);
        }
    }
    let mut want: BTreeMap<(bool, String, String), Vec<&Proc>> = BTreeMap::new();
    for p in &all {
        want.entry((p.sid, p.airport.clone(), p.name.clone())).or_default().push(p);
    }
    ensure!(
        got.keys().eq(want.keys()),
        "procedures {:?}, expected {:?}",
        got.keys().collect::<Vec<_>>(),
        want.keys().collect::<Vec<_>>()
    );
    for (k, ps) in &want {
        let g = &got[k];
        ensure_eq!(g.len(), ps.len(), "procedures {k:?}");
        if ps.len() > 1 {
            c.label("procedure for several runways");
        }
        for (p, (ap, name, rwy, wps)) in ps.iter().zip(g) {
            ensure!(*ap == p.airport && *name == p.name && *rwy == p.runway, "{k:?}: {ap} {name} {rwy:?}, expected {p:?}");
            let mut it = wps.iter();
            for n in &p.route {
                let Some((kind, x)) = d.resolve(n) else {
                    // coordinates out of range: as the database says
                    if l.convert_designator(n).is_some() {
                        it.next();
                    }
                    continue;
                };
                c.label(format!("waypoint {kind}"));
                let Some((name, at, tol)) = x else { continue };
                let f = it.next().ok_or_else(|| Fail::from(format!("{k:?}: waypoint {n} of {:?} is missing in {wps:?}", p.route)))?;
                ensure!(f.designator == name && near(f.coordinate, at, tol.max(1e-9)), "{k:?}: waypoint {n} is {f:?}, expected {name} at {at:?}");
            }
            ensure!(it.next().is_none(), "{k:?}: more waypoints than {:?}: {wps:?}", p.route);
        }
    }

    // positions
    let want: BTreeMap<String, Value> = em
        .expected()
        .positions
        .into_iter()
        .map(|(k, p)| {
            let pts: Vec<Point> = p.visibility_points.iter().map(|c| Point::from(*c)).collect();
            let v = json!({
                "id": p.identifier, "name": p.name, "frequency": p.frequency, "prefix": p.prefix, "suffix": p.suffix,
                "visibility_points": serde_json::to_value(&pts).unwrap(),
            });
            (k, v)
        })
        .collect();
    close(val(&a.positions), json!(want), "positions")?;

    // airways are those of airway.txt
    let g = parse_airway_txt(crate::seeds::AIRWAY.as_bytes()).map_err(|e| Fail::from(e.to_string()))?;
    close(val(&l.airways), serde_json::to_value(&g).unwrap(), "airways")?;

    c.nontrivial = e.vors.len() + e.ndbs.len() + e.fixes.len() + airports.len() >= 3 && !all.is_empty();
    Ok(())
}

mod erased {
    pub trait Ser {
        fn val(&self) -> serde_json::Value;
    }
    impl<T: serde::Serialize> Ser for T {
        fn val(&self) -> serde_json::Value {
            serde_json::to_value(self).unwrap()
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "profiles whose sector file has places of all kinds with shared names, repeated airports and runways of known and unknown aerodromes; navigation data and airport lists overlapping in every combination; SIDs and STARs repeated per airport, name and runway with routes of known, unknown, threshold, coordinate and bearing/range waypoints; positions; non-trivial: at least three places and one procedure. Oracle: the merge done independently from the source models",
        assumptions: &["of an airport written twice in the sector file the last position counts", "the navigation data's airport name is preferred to the airport list's", "coordinate waypoints out of range are not judged"],
        subs: vec![Sub { name: "merge", quick: 5_000, thorough: 200_000, f: merge }],
        probes: vec![],
    }
}
