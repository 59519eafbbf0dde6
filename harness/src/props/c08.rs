use std::collections::{BTreeMap, HashSet};

use super::c07::*;
use crate::engine::*;
use crate::gen::*;
use crate::gen_ese::*;
use crate::{ensure, ensure_eq};
use vatsim_parser::adaptation::sectors::Sectors;
use vatsim_parser::ese::Ese;

/// What was given for a sector: its levels and the lines of its border.
type Given = Vec<(String, (u32, u32), Vec<Vec<P>>)>;

fn model(s: &mut Src) -> (EseModel, Lattice, Given) {
    let l = Lattice::new(s);
    let mut given: Given = vec![];
    // few owner lists and filters, prefixes and reorderings of each other
    let mut owners: Vec<Vec<String>> = s.vec(1, 4, |s| s.vec(0, 3, |s| s.pick(&["A", "B", "AB", ""]).to_string()));
    let many = s.chance(1, 8);
    if many {
        // long lists that agree for long
        let common: Vec<String> = (0..s.us(3, 40)).map(|i| format!("O{i}")).collect();
        for o in &mut owners {
            let at = if s.bool() { common.len() } else { s.us(0, common.len()) };
            let own = std::mem::take(o);
            o.extend_from_slice(&common[..at]);
            o.extend(own);
            o.extend_from_slice(&common[at..]);
        }
    }
    let filters: Vec<Vec<(String, String)>> = s.vec(1, 3, |s| {
        let n = if many { s.us(0, 20) } else { s.us(0, 2) };
        s.vec(n, n, |s| (s.pick(&["EDDM", "EDDF"]).to_string(), s.pick(&["08L", "26R", "25C"]).to_string()))
    });
    let mut airs = vec![];
    let mut next = 0;
    let n = if s.chance(1, 60) { s.us(40, 150) } else { s.us(1, 9) };
    for i in 0..n {
        let mut ring = star(s, 4);
        if s.chance(1, 8) {
            ring.pop();
        }
        let mut ids = vec![];
        let lines = pieces(s, &ring);
        for pts in &lines {
            next += 1;
            airs.push(air_line(s, next, &l, pts));
            ids.push(next.to_string());
        }
        let mut settings = vec![Setting::Border(ids)];
        let o = s.pick(&owners).clone();
        if !o.is_empty() {
            settings.push(Setting::Owner(o));
        }
        for (a, b) in s.pick(&filters).clone() {
            settings.push(Setting::Active(a, b));
        }
        if s.chance(1, 2) {
            settings.push(Setting::DepApt(s.vec(1, 3, icao)));
        }
        if s.chance(1, 2) {
            settings.push(Setting::ArrApt(s.vec(1, 3, icao)));
        }
        let id = if s.chance(1, 6) { sector_id(s) } else { format!("V{}", (i * 7) % n.max(10)) };
        let bottom = level(s);
        // a flat, an upright and an upside-down sector
        let top = match s.draw(4) {
            0 => bottom,
            1 => (bottom + 1000).min(999_999_999),
            _ => level(s),
        };
        given.push((id.clone(), (bottom, top), lines));
        airs.push(Air::Sector { id, bottom, top, settings });
    }
    if s.bool() {
        s.shuffle(&mut airs);
    }
    (EseModel { sections: vec![Section::Airspace(airs)] }, l, given)
}

fn set(v: &HashSet<String>) -> Vec<&String> {
    let mut v: Vec<_> = v.iter().collect();
    v.sort();
    v
}

fn grouping(s: &mut Src, c: &mut Case) -> Res {
    let (m, lattice, given) = model(s);
    let ese = load(s, &m, c)?;
    let (volumes, sectors) = no_panic("Sectors::from_ese", || Sectors::from_ese(&ese))?;
    for (id, band, lines) in &given {
        if given.iter().filter(|g| g.0 == *id).count() == 1 {
            check_volume(volumes.get(id), id, *band, lines, &lattice, c)?;
        }
    }
    let mut groups: BTreeMap<String, Vec<&String>> = BTreeMap::new();
    for id in volumes.keys() {
        let x = &ese.sectors[id];
        groups.entry(format!("{:?} {:?}", x.owner_priority, x.runway_filter)).or_default().push(id);
    }
    c.nontrivial = groups.len() > 1 && groups.values().any(|g| g.len() > 1);
    if groups.values().any(|g| g.len() > 1) {
        c.label("group of several volumes");
    }
    if volumes.len() < ese.sectors.len() {
        c.label("sector without volume");
    }
    ensure!(sectors.len() == groups.len(), "{} sectors for {} groups {groups:?}", sectors.len(), groups.len());
    let mut seen: HashSet<&String> = HashSet::new();
    for (key, sec) in &sectors {
        ensure_eq!(*key, sec.id, "key of a sector");
        ensure!(sec.volumes.contains(key), "sector {key} is not named after one of its volumes {:?}", sec.volumes);
        let first = &ese.sectors[key];
        let mut group = groups[&format!("{:?} {:?}", first.owner_priority, first.runway_filter)].clone();
        group.sort();
        ensure_eq!(set(&sec.volumes), group, "volumes of sector {key}");
        ensure_eq!(sec.position_priority, first.owner_priority, "priority of sector {key}");
        ensure_eq!(sec.runway_filter, vec![first.runway_filter.clone()], "runway filter of sector {key}");
        let union = |f: fn(&vatsim_parser::ese::Sector) -> &Vec<String>| -> HashSet<String> {
            group.iter().flat_map(|v| f(&ese.sectors[*v]).clone()).collect()
        };
        let (dep, arr) = (union(|x| &x.departure_airports), union(|x| &x.arrival_airports));
        ensure_eq!(set(&sec.departure_aerodromes), set(&dep), "departure aerodromes of sector {key}");
        ensure_eq!(set(&sec.arrival_aerodromes), set(&arr), "arrival aerodromes of sector {key}");
        for v in &sec.volumes {
            ensure!(seen.insert(v), "volume {v} belongs to two sectors");
            ensure_eq!(sectors.find_id_by_volume(v), Some(key), "sector of volume {v}");
        }
    }
    ensure!(seen.len() == volumes.len(), "volumes without sector");
    ensure_eq!(sectors.find_id_by_volume("no such volume"), None, "sector of an unknown volume");
    Ok(())
}

fn canonical(ese: &Ese) -> Vec<String> {
    let (volumes, sectors) = Sectors::from_ese(ese);
    let mut out: Vec<String> = volumes.iter().map(|(k, v)| format!("{k}: {v:?}")).collect();
    for (k, x) in &sectors {
        out.push(format!(
            "{k}: {} {:?} {:?} {:?} {:?} {:?}",
            x.id,
            x.position_priority,
            x.runway_filter,
            set(&x.volumes),
            set(&x.departure_aerodromes),
            set(&x.arrival_aerodromes)
        ));
    }
    out.sort();
    out
}

/// The same content, loaded again, gives the same sectors and outlines.
fn again(s: &mut Src, c: &mut Case) -> Res {
    let (m, ..) = model(s);
    let text = m.render(s);
    c.input = text.clone();
    let first = canonical(&Ese::parse(text.as_bytes()).map_err(|e| Fail::from(e.to_string()))?);
    c.nontrivial = first.len() > 2;
    for _ in 0..4 {
        let next = canonical(&Ese::parse(text.as_bytes()).map_err(|e| Fail::from(e.to_string()))?);
        ensure_eq!(next, first, "loading the same text again");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "up to nine airspace sectors (sometimes 150), flat, upright and upside down, over a small pool of owner lists and runway filters (empty, prefixes and reorderings of each other), with departure and arrival aerodromes, some without a closed border, as ese text or parsed ese; repeated loads of the same text; non-trivial: at least two groups one of which has several volumes (grouping), at least two results (again). Oracle: groups computed from the parsed ese by (owner list, filter)",
        assumptions: &["which outline a volume has is decided by C07"],
        subs: vec![
            Sub { name: "grouping", quick: 30_000, thorough: 900_000, f: grouping },
            Sub { name: "again", quick: 8_000, thorough: 200_000, f: again },
        ],
        probes: vec![],
    }
}
