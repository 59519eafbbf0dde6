use std::collections::{BTreeMap, BTreeSet};

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::gen_ese::*;
use vatsim_parser::adaptation::sectors::{Sectors, Volume};
use vatsim_parser::ese::Ese;

pub type P = (i64, i64);

/// A lattice of places that stay distinct when rounded to the precision of the crate.
#[derive(Clone, Copy)]
pub struct Lattice {
    base: (i64, i64),
    unit: i64,
}
impl Lattice {
    pub fn new(s: &mut Src) -> Lattice {
        let h = 3_600_000;
        Lattice {
            base: *s.pick(&[(48 * h, 11 * h), (0, 0), (-33 * h, 151 * h), (51 * h + 1_234_567, -7 * h - 345_678), (83 * h, 162 * h)]),
            unit: *s.pick(&[600_000, 60_000, 1_000, 10]),
        }
    }
    pub fn dms(&self, p: P) -> Dms {
        Dms { lat: self.base.0 + p.1 * self.unit, lng: self.base.1 + p.0 * self.unit }
    }
}

fn place(s: &mut Src, n: i64) -> P {
    (s.int(0, n), s.int(0, n))
}

/// Closed chain of places around their middle: no edges cross (mostly).
pub fn star(s: &mut Src, n: i64) -> Vec<P> {
    let most = if n > 20 { 600 } else if n > 6 { 150 } else { 9 };
    let mut pts: Vec<P> = s.vec(3, most, |s| place(s, n));
    pts.sort();
    pts.dedup();
    if pts.len() < 3 {
        pts = vec![(0, 0), (n, 0), (0, n)];
    }
    let k = pts.len() as f64;
    let cx = pts.iter().map(|p| p.0 as f64).sum::<f64>() / k + 0.137;
    let cy = pts.iter().map(|p| p.1 as f64).sum::<f64>() / k + 0.0713;
    pts.sort_by(|a, b| {
        let f = |p: &P| (p.1 as f64 - cy).atan2(p.0 as f64 - cx);
        f(a).total_cmp(&f(b))
    });
    pts.push(pts[0]);
    pts
}

/// Closed walk that may visit a place or a segment several times.
fn walk(s: &mut Src, n: i64) -> Vec<P> {
    let mut w: Vec<P> = s.vec(3, 9, |s| place(s, n));
    w.push(w[0]);
    w
}

/// Cuts a chain into lines at random places, gives each a random direction, in random order.
pub fn pieces(s: &mut Src, chain: &[P]) -> Vec<Vec<P>> {
    let mut out = vec![];
    // long lines or many lines
    let cut = if chain.len() > 20 && s.bool() { 90 } else { 5 };
    let mut cur: Vec<P> = vec![];
    for (i, p) in chain.iter().enumerate() {
        cur.push(*p);
        if s.chance(1, 12) {
            // a segment without length
            cur.push(*p);
        }
        if i > 0 && i + 1 < chain.len() && s.chance(2, cut) {
            out.push(std::mem::replace(&mut cur, vec![*p]));
        }
    }
    out.push(cur);
    for l in &mut out {
        if s.bool() {
            l.reverse();
        }
    }
    s.shuffle(&mut out);
    out
}

fn lines(s: &mut Src, c: &mut Case) -> Vec<Vec<P>> {
    let n = if s.chance(1, 40) { s.int(10, 40) } else { s.int(1, 5) };
    match s.weighted(&[6, 4, 2, 2, 2, 1]) {
        0 => {
            let mut r = star(s, n + 1);
            if s.bool() {
                r.reverse();
            }
            pieces(s, &r)
        }
        1 => {
            let r = walk(s, n);
            pieces(s, &r)
        }
        2 => {
            // two rings, apart or touching
            c.label("two rings");
            let a = star(s, n + 1);
            let d = *s.pick(&[0, n + 1, 60]);
            let b: Vec<P> = star(s, n + 1).iter().map(|p| (p.0 + d, p.1)).collect();
            let mut out = pieces(s, &a);
            out.extend(pieces(s, &b));
            s.shuffle(&mut out);
            out
        }
        3 => {
            // a ring that lacks a line or has one too many
            let r = star(s, n + 1);
            let mut out = pieces(s, &r);
            let i = s.idx(out.len());
            match s.draw(3) {
                0 => {
                    out.remove(i);
                }
                1 => out.push(out[i].clone()),
                _ => {
                    let k = out[i].len();
                    out[i].truncate(k - 1);
                }
            }
            out
        }
        4 => s.vec(0, 6, |s| s.vec(0, 3, |s| place(s, n))),
        _ => vec![],
    }
}

pub fn air_line(s: &mut Src, id: usize, l: &Lattice, pts: &[P]) -> Air {
    let _ = s;
    Air::Line { id: id.to_string(), points: pts.iter().map(|p| Pt::At(l.dms(*p))).collect(), displays: vec![] }
}

fn key(a: P, b: P) -> (P, P) {
    (a.min(b), a.max(b))
}

/// The segments of the lines, how often each occurs.
fn segments(lines: &[Vec<P>]) -> BTreeMap<(P, P), usize> {
    let mut out = BTreeMap::new();
    for l in lines {
        for w in l.windows(2) {
            if w[0] != w[1] {
                *out.entry(key(w[0], w[1])).or_insert(0) += 1;
            }
        }
    }
    out
}

/// Whether the segments form one closed ring: connected and every place met an even number of times.
fn ring_exists(seg: &BTreeMap<(P, P), usize>) -> bool {
    let mut deg: BTreeMap<P, usize> = BTreeMap::new();
    for ((a, b), n) in seg {
        *deg.entry(*a).or_insert(0) += n;
        *deg.entry(*b).or_insert(0) += n;
    }
    let Some(first) = deg.keys().next() else { return false };
    if deg.values().any(|d| d % 2 == 1) {
        return false;
    }
    let mut seen = BTreeSet::from([*first]);
    loop {
        let before = seen.len();
        for (a, b) in seg.keys() {
            if seen.contains(a) || seen.contains(b) {
                seen.insert(*a);
                seen.insert(*b);
            }
        }
        if seen.len() == before {
            break;
        }
    }
    seen.len() == deg.len()
}

fn cross(o: P, a: P, b: P) -> i64 {
    (a.0 - o.0) * (b.1 - o.1) - (a.1 - o.1) * (b.0 - o.0)
}
fn on(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0 && p.0 >= a.0.min(b.0) && p.0 <= a.0.max(b.0) && p.1 >= a.1.min(b.1) && p.1 <= a.1.max(b.1)
}
fn meet(a: P, b: P, c: P, d: P) -> bool {
    let (s1, s2) = (cross(a, b, c).signum(), cross(a, b, d).signum());
    let (s3, s4) = (cross(c, d, a).signum(), cross(c, d, b).signum());
    (s1 != s2 && s3 != s4 && s1 * s2 <= 0 && s3 * s4 <= 0) || on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b)
}
/// No two edges share more than a common end.
fn simple(ring: &[P]) -> bool {
    let n = ring.len() - 1;
    if n < 3 || ring[..n].iter().collect::<BTreeSet<_>>().len() != n {
        return false;
    }
    for i in 0..n {
        for j in i + 1..n {
            let (a, b, c, d) = (ring[i], ring[i + 1], ring[j], ring[j + 1]);
            if j == i + 1 {
                if on(a, b, d) || on(c, d, a) {
                    return false;
                }
            } else if i == 0 && j == n - 1 {
                if on(a, b, c) || on(c, d, b) {
                    return false;
                }
            } else if meet(a, b, c, d) {
                return false;
            }
        }
    }
    true
}

pub fn check_volume(v: Option<&Volume>, id: &str, band: (u32, u32), lines: &[Vec<P>], l: &Lattice, c: &mut Case) -> Res {
    let seg = segments(lines);
    let stray = |l: &Vec<P>| l.windows(2).any(|w| w[0] == w[1] && !seg.keys().any(|(a, b)| *a == w[0] || *b == w[0]));
    if lines.iter().any(stray) {
        // segments without length apart from all others: not specified
        return Ok(());
    }
    if !ring_exists(&seg) {
        c.label("no ring");
        ensure!(v.is_none(), "{id}: the lines form no ring but there is a volume {:?}", v.unwrap().lateral_border);
        return Ok(());
    }
    c.label("ring");
    let Some(v) = v else { return Err(format!("{id}: the lines form a ring but there is no volume").into()) };
    ensure!(v.id == id, "{id}: volume is called {}", v.id);
    ensure!((v.lower_level, v.upper_level) == band, "{id}: levels {}-{} instead of {band:?}", v.lower_level, v.upper_level);
    ensure!(v.lateral_border.interiors().is_empty(), "{id}: the volume has holes");
    let all: BTreeSet<P> = lines.iter().flatten().copied().collect();
    let mut ring: Vec<P> = vec![];
    for q in &v.lateral_border.exterior().0 {
        let p = all.iter().find(|p| {
            let o = l.dms(**p).coord();
            (o.x - q.x).abs() < 1.1e-6 && (o.y - q.y).abs() < 1.1e-6
        });
        let Some(p) = p else { return Err(format!("{id}: {q:?} is no point of the border").into()) };
        if ring.last() != Some(p) {
            ring.push(*p);
        }
    }
    ensure!(ring.first() == ring.last() && ring.len() > 2, "{id}: the outline is not closed: {ring:?}");
    let got = segments(&[ring.clone()]);
    ensure!(got == seg, "{id}: the outline {ring:?} does not use the segments {seg:?}");
    // six decimals distort an outline of a few thousandths of a second
    if l.unit < 1000 {
        return Ok(());
    }
    if simple(&ring) {
        c.label("simple ring");
        let area: i64 = ring.windows(2).map(|w| w[0].0 * w[1].1 - w[1].0 * w[0].1).sum();
        ensure!(area > 0, "{id}: the outline {ring:?} is not counter-clockwise");
    } else {
        c.label("ring that touches itself");
    }
    Ok(())
}

pub fn load(s: &mut Src, m: &EseModel, c: &mut Case) -> Result<Ese, Fail> {
    if s.bool() {
        let text = m.render(s);
        c.input.push_str(&text);
        Ese::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))
    } else {
        c.input.push_str(&format!("{:?}", m.sections));
        Ok(m.expected())
    }
}

struct Built {
    sectors: Vec<(String, (u32, u32), Vec<Vec<P>>)>,
    model: EseModel,
}
fn build(s: &mut Src, l: &Lattice, c: &mut Case, n: usize) -> Built {
    let mut airs = vec![];
    let mut sectors = vec![];
    let mut next = 1;
    for i in 0..n {
        let ls = lines(s, c);
        let mut ids = vec![];
        for pts in &ls {
            airs.push(air_line(s, next, l, pts));
            ids.push(next.to_string());
            next += 1;
        }
        if s.chance(1, 8) {
            // a line that does not exist
            ids.insert(s.idx(ids.len() + 1), "none".into());
        }
        let band = (level(s), level(s));
        let id = format!("S{i}");
        let mut settings = vec![];
        if !ids.is_empty() {
            settings.push(Setting::Border(ids));
        }
        if s.chance(2, 3) {
            settings.push(Setting::Owner(s.vec(1, 2, owner)));
        }
        airs.push(Air::Sector { id: id.clone(), bottom: band.0, top: band.1, settings });
        sectors.push((id, band, ls));
    }
    if s.bool() {
        s.shuffle(&mut airs);
    }
    Built { sectors, model: EseModel { sections: vec![Section::Airspace(airs)] } }
}

fn volumes(s: &mut Src, c: &mut Case) -> Res {
    let l = Lattice::new(s);
    let n = s.us(1, 3);
    let b = build(s, &l, c, n);
    let ese = load(s, &b.model, c)?;
    let (volumes, _) = no_panic("Sectors::from_ese", || Sectors::from_ese(&ese))?;
    for (id, band, ls) in &b.sectors {
        c.nontrivial |= ls.len() > 1;
        check_volume(volumes.get(id), id, *band, ls, &l, c)?;
    }
    for id in volumes.keys() {
        ensure!(b.sectors.iter().any(|x| x.0 == *id), "volume {id} without sector");
    }
    Ok(())
}

/// Any cutting, order and direction of the lines of one ring gives the same outline.
fn permuted(s: &mut Src, c: &mut Case) -> Res {
    let l = Lattice::new(s);
    let size = s.int(2, 6);
    let r = star(s, size);
    c.nontrivial = true;
    for k in 0..3 {
        let ls = pieces(s, &r);
        let mut airs: Vec<Air> = vec![];
        for (i, pts) in ls.iter().enumerate() {
            airs.push(air_line(s, i, &l, pts));
        }
        airs.push(Air::Sector {
            id: "A".into(),
            bottom: 0,
            top: 1,
            settings: vec![Setting::Border((0..ls.len()).map(|i| i.to_string()).collect())],
        });
        let m = EseModel { sections: vec![Section::Airspace(airs)] };
        c.input.push_str(&format!("{k}: {ls:?}\n"));
        let (v, _) = Sectors::from_ese(&m.expected());
        check_volume(v.get("A"), "A", (0, 1), &ls, &l, c)?;
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "airspace sectors whose border lines are star-shaped rings, closed walks that touch or repeat themselves, pairs of rings, rings with a line missing, repeated or shortened, and random segments on an integer lattice (spacing from 10 thousandths of a second to ten minutes, at five places of the earth), cut into lines at random places with random directions and order and segments without length, given as ese text or as parsed ese; non-trivial: a border of more than one line. Oracle: integer graph (even degrees, connected) decides whether a volume exists; its outline is decoded back to the lattice and compared as a multiset of segments; orientation by integer signed area of simple rings",
        assumptions: &["places of a border differ by more than the six decimals the crate joins lines at, or are equal", "orientation is only defined, and only checked, for outlines that do not touch themselves, at spacings of a second and more", "borders with a segment without length away from all other segments are not judged"],
        subs: vec![
            Sub { name: "volumes", quick: 40_000, thorough: 1_500_000, f: volumes },
            Sub { name: "permuted", quick: 25_000, thorough: 600_000, f: permuted },
        ],
        probes: vec![],
    }
}
