use crate::engine::*;
use crate::gen_ese::{self, constraint, Air, EseModel, Section};
use crate::world::*;
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use vatsim_parser::ese::{Constraint, Ese};

type Fields = [Option<String>; 7];
fn fields(c: &Constraint) -> Fields {
    [
        c.previous_fix.clone(),
        c.departure_runway.clone(),
        c.fix.clone(),
        c.subsequent_fix.clone(),
        c.arrival_runway.clone(),
        Some(c.exit_sector.clone()),
        Some(c.entry_sector.clone()),
    ]
}

/// Names that collide when they are joined carelessly.
fn name(s: &mut Src) -> String {
    match s.weighted(&[4, 2, 2]) {
        0 => s.pick(&["A", "B", "EDDM", "26R", "GIVMI", "EDMM·ALB"]).to_string(),
        1 => s.word(0, 3, "A#*\\"),
        _ => s.word(0, 4, "AB#*\\| :"),
    }
}

fn mutated(s: &mut Src, c: &Constraint) -> Constraint {
    let mut c = c.clone();
    let n = name(s);
    let opt = |s: &mut Src, n: String| if s.chance(1, 3) { None } else { Some(n) };
    match s.draw(11) {
        0 => c.previous_fix = opt(s, n),
        1 => c.departure_runway = opt(s, n),
        2 => c.fix = opt(s, n),
        3 => c.subsequent_fix = opt(s, n),
        4 => c.arrival_runway = opt(s, n),
        5 => c.exit_sector = n,
        6 => c.entry_sector = n,
        7 => c.climb_level = if s.bool() { None } else { Some(gen_ese::level(s)) },
        8 => c.descent_level = if s.bool() { None } else { Some(gen_ese::level(s)) },
        9 => c.description = n,
        // text moves from one field to the next
        _ => {
            let (a, b) = (c.exit_sector.clone(), c.entry_sector.clone());
            match s.draw(5) {
                0 => (c.exit_sector, c.entry_sector) = (b, a),
                1 => std::mem::swap(&mut c.previous_fix, &mut c.subsequent_fix),
                2 => std::mem::swap(&mut c.departure_runway, &mut c.arrival_runway),
                3 => std::mem::swap(&mut c.fix, &mut c.subsequent_fix),
                _ => (c.exit_sector, c.entry_sector) = (format!("{a}#"), b.trim_start_matches('#').to_string()),
            }
        }
    }
    c
}

/// Keys of related agreements: equal exactly if the seven names are.
fn keys(s: &mut Src, c: &mut Case) -> Res {
    let mut v: Vec<Constraint> = vec![];
    for _ in 0..s.us(2, 8) {
        let x = match v.is_empty() || s.chance(1, 5) {
            true => {
                let opt = |s: &mut Src| if s.bool() { None } else { Some(name(s)) };
                Constraint {
                    previous_fix: opt(s),
                    departure_runway: opt(s),
                    fix: opt(s),
                    subsequent_fix: opt(s),
                    arrival_runway: opt(s),
                    exit_sector: name(s),
                    entry_sector: name(s),
                    climb_level: None,
                    descent_level: Some(1000),
                    description: "".into(),
                    coord_timing: None,
                }
            }
            false => {
                let i = s.idx(v.len());
                mutated(s, &v[i].clone())
            }
        };
        v.push(x);
    }
    c.input = format!("{v:#?}");
    let mut different = 0;
    for a in &v {
        for b in &v {
            let same = fields(a) == fields(b);
            different += usize::from(!same);
            ensure_eq!(a.key() == b.key(), same, "keys {:?} and {:?} of {:?} and {:?}", a.key(), b.key(), fields(a), fields(b));
        }
    }
    c.nontrivial = different > 0;
    Ok(())
}

fn split(all: &[Constraint]) -> (BTreeMap<Fields, Constraint>, BTreeMap<Fields, Constraint>) {
    let (mut dep, mut dest) = (BTreeMap::new(), BTreeMap::new());
    for x in all {
        match (x.climb_level, x.descent_level) {
            (Some(_), _) => {
                dep.insert(fields(x), x.clone());
            }
            (None, Some(_)) => {
                dest.insert(fields(x), x.clone());
            }
            (None, None) => {}
        }
    }
    (dep, dest)
}

/// Agreements of an ese file after loading the profile.
fn loaded(s: &mut Src, c: &mut Case) -> Res {
    let o = gen_ese::Opts::default();
    let mut list: Vec<Constraint> = vec![];
    let most = if s.chance(1, 60) { 200 } else { 12 };
    for _ in 0..s.us(1, most) {
        let x = if list.is_empty() || s.bool() {
            constraint(s, &o)
        } else {
            let i = s.idx(list.len());
            let mut x = list[i].clone();
            match s.draw(6) {
                0 => std::mem::swap(&mut x.previous_fix, &mut x.subsequent_fix),
                1 => std::mem::swap(&mut x.departure_runway, &mut x.arrival_runway),
                2 => std::mem::swap(&mut x.exit_sector, &mut x.entry_sector),
                3 => std::mem::swap(&mut x.climb_level, &mut x.descent_level),
                4 => {
                    x.exit_sector.push_str("#A");
                    x.fix = None;
                }
                _ => x.description = gen_ese::field(s, &o),
            }
            x
        };
        list.push(x);
    }
    let cops = list.iter().map(|x| Air::Cop { fir: s.chance(1, 3), c: x.clone() }).collect();
    let mut sections = vec![Section::Airspace(cops)];
    if s.chance(1, 4) {
        sections.push(Section::Positions(s.vec(0, 2, |s| gen_ese::position(s, &o))));
    }
    let text = EseModel { sections }.render(s);
    c.input = text.clone();
    // the reader is C06's; here its list is split
    let read = Ese::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?.constraints;
    ensure!(read == list, "read {read:?}, written {list:?}");
    let mut w = World::seed();
    w.set(ESE_F, text);
    let a = load(&w, &c.scratch)?;
    let (dep, dest) = split(&list);
    if !dep.is_empty() {
        c.label("departures");
    }
    if !dest.is_empty() {
        c.label("destinations");
    }
    let judged = list.iter().filter(|x| x.climb_level.is_some() || x.descent_level.is_some()).count();
    if judged < list.len() {
        c.label("without level");
    }
    if judged > dep.len() + dest.len() {
        c.label("same names");
    }
    c.nontrivial = dep.len() + dest.len() >= 2;
    for (what, got, want) in [("departure", &a.departure_constraints, &dep), ("destination", &a.destination_constraints, &dest)] {
        for (k, x) in got {
            ensure_eq!(k, &x.key(), "key of a {what} agreement");
        }
        let mut g: Vec<&Constraint> = got.values().collect();
        g.sort_by_key(|x| fields(x));
        let w: Vec<&Constraint> = want.values().collect();
        ensure!(g == w, "{what} agreements are {g:#?}\nexpected {w:#?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "groups of related agreements (one derived from another by changing, swapping or shifting text between fields; names with separators, wildcards and escapes; wildcards; with and without levels), compared pairwise and loaded from a profile, now and then with up to 200 of them; non-trivial: at least two different agreements. Oracle: tuple of the seven names; reference split by levels",
        assumptions: &["agreements of one group with the same seven names share one entry, the last of the file's"],
        subs: vec![
            Sub { name: "keys", quick: 100_000, thorough: 4_000_000, f: keys },
            Sub { name: "loaded", quick: 4_000, thorough: 120_000, f: loaded },
        ],
        probes: vec![],
    }
}
