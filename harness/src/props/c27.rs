use crate::engine::*;
use crate::{ensure, ensure_eq};
use geo::Point;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use vatsim_parser::adaptation::icao::{AircraftType, EngineType, Wtc};
use vatsim_parser::adaptation::locations::airways::{AirwayFix, AirwayType};
use vatsim_parser::adaptation::locations::{Fix, GraphPosition, STAR};
use vatsim_parser::ese::Constraint;

/// A coordinate as millionths of a degree and a rest well inside the cell around it.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Cell {
    x: i64,
    y: i64,
}

fn axis(s: &mut Src, max: i64) -> i64 {
    let v = match s.weighted(&[3, 2, 2, 1]) {
        0 => s.int(-max, max) * 1_000_000,
        1 => s.int(-max * 1_000_000, max * 1_000_000),
        2 => s.int(-2, 2),
        _ => *s.pick(&[1, -1]) * max * 1_000_000,
    };
    v.clamp(-max * 1_000_000, max * 1_000_000)
}

fn at(s: &mut Src, v: i64) -> f64 {
    let rest = match s.weighted(&[3, 2, 1]) {
        0 => 0.0,
        1 => s.int(-48, 48) as f64 / 100.0,
        _ => *s.pick(&[0.48, -0.48, 0.01, -0.01]),
    };
    let v = (v as f64 + rest) / 1e6;
    if v == 0.0 && s.bool() {
        -0.0
    } else {
        v
    }
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn fix_name(s: &mut Src) -> String {
    match s.weighted(&[4, 1, 1]) {
        0 => s.pick(&["MIQ", "miq", "MI", "MIQ ", "Q", "OTT"]).to_string(),
        1 => String::new(),
        _ => s.word(1, 5, "MIQÄ"),
    }
}

fn fixes(s: &mut Src, c: &mut Case) -> Res {
    let base = Cell { x: axis(s, 180), y: axis(s, 90) };
    let list: Vec<(String, Cell, Fix)> = s.vec(2, 10, |s| {
        let n = fix_name(s);
        let mut k = base;
        // mostly next to one another
        match s.weighted(&[4, 2, 2, 1, 1]) {
            0 => {}
            1 => k.x += s.int(-1, 1),
            2 => k.y += s.int(-1, 1),
            3 => k = Cell { x: base.y, y: base.x.clamp(-90_000_000, 90_000_000) },
            _ => k = Cell { x: axis(s, 180), y: axis(s, 90) },
        }
        let p = Point::new(at(s, k.x), at(s, k.y));
        (n.clone(), k, Fix { designator: n, coordinate: p })
    });
    c.input = format!("{:?}\n", list.iter().map(|l| &l.2).collect::<Vec<_>>());
    let mut same = 0;
    for (n, k, f) in &list {
        for (m, l, g) in &list {
            let want = n == m && k == l;
            ensure!((f == g) == want, "{f:?} == {g:?} is {}", f == g);
            ensure!((f != g) != want, "{f:?} != {g:?} is {}", f != g);
            if want {
                same += 1;
                ensure!(hash(f) == hash(g), "equal fixes {f:?} and {g:?} hash apart");
            }
            let (p, q) = (GraphPosition(f.coordinate), GraphPosition(g.coordinate));
            ensure!((p == q) == (k == l), "{p:?} == {q:?} is {}", p == q);
        }
    }
    c.nontrivial = same > list.len();
    if c.nontrivial {
        c.label("some equal");
    }
    // a set keeps one of each
    let mut kinds: Vec<(&String, (i64, i64))> = vec![];
    for (n, k, _) in &list {
        if !kinds.contains(&(n, (k.x, k.y))) {
            kinds.push((n, (k.x, k.y)));
        }
    }
    let set: HashSet<Fix> = list.iter().map(|l| l.2.clone()).collect();
    ensure_eq!(set.len(), kinds.len(), "fixes in a set");
    for (n, _, f) in &list {
        ensure!(set.contains(f), "{n} is not found in the set it was put into");
    }
    // as do the waypoints of a procedure
    let k = s.us(0, list.len() - 1);
    let star = |name: &str, a: &str, rw: Option<&str>, w: &[(String, Cell, Fix)]| STAR {
        name: name.to_string(),
        airport: a.to_string(),
        runway: rw.map(str::to_string),
        waypoints: w.iter().map(|l| l.2.clone()).collect(),
    };
    let pool = ["BETOS1A", "BETOS1B", "betos1a", "BETOS1A ", "", "EDDM"];
    let rws = [None, Some("08L"), Some("26R"), Some("")];
    let draw = |s: &mut Src| (*s.pick(&pool), *s.pick(&["EDDM", "EDDF", ""]), *s.pick(&rws), if s.bool() { &list[..k] } else { &list[k..] });
    let a = draw(s);
    let mut b = a;
    if s.chance(2, 3) {
        b = draw(s);
    }
    let (x, y) = (star(a.0, a.1, a.2, a.3), star(b.0, b.1, b.2, b.3));
    let way = a.3.len() == b.3.len() && a.3.iter().zip(b.3).all(|(p, q)| p.0 == q.0 && p.1 == q.1);
    let want = (a.0, a.1, a.2) == (b.0, b.1, b.2) && way;
    ensure!((x == y) == want, "{x:?} == {y:?} is {}", x == y);
    for n in pool {
        let n = n.to_string();
        ensure!((x == n) == (n == a.0), "arrival {:?} == {n:?} is {}", a.0, x == n);
        ensure!((n == x) == (n == a.0), "{n:?} == arrival {:?} is {}", a.0, n == x);
    }
    Ok(())
}

fn letters(s: &mut Src, c: &mut Case) -> Res {
    let t = match s.weighted(&[6, 2, 1, 1]) {
        0 => s.word(1, 1, "LMHJSAGTPER-?X0 "),
        1 => s.word(0, 3, "LMHJSAGTPER-?lmhj"),
        2 => s.string(0, 2, &['L', '-', 'Ä', ' ', '\u{130}']),
        _ => {
            let b = s.int(0, 0x17f) as u32;
            char::from_u32(b).unwrap().to_string()
        }
    };
    c.input = format!("{t:?}\n");
    c.nontrivial = t.chars().count() == 1;
    let w = match t.as_str() {
        "L" => Some(Wtc::LIGHT),
        "M" => Some(Wtc::MEDIUM),
        "H" => Some(Wtc::HEAVY),
        "J" => Some(Wtc::SUPER),
        "-" => Some(Wtc::UNKNOWN),
        _ => None,
    };
    ensure_eq!(no_panic("Wtc::from_str", || Wtc::from_str(&t))?.ok(), w, "wake category of the letter {t:?}");
    if let Some(w) = w {
        c.label("wake category");
        let back = w.to_string();
        ensure!(back == if t == "-" { "?" } else { &t }, "wake category {w:?} prints {back:?}");
        let pad = format!("{w:<3}|");
        ensure!(pad.starts_with(&back), "wake category {w:?} prints {pad:?} in a column");
    }
    let a = match t.as_str() {
        "L" => Some(AircraftType::LANDPLANE),
        "S" => Some(AircraftType::SEAPLANE),
        "A" => Some(AircraftType::AMPHIBIAN),
        "G" => Some(AircraftType::GYROCOPTER),
        "H" => Some(AircraftType::HELICOPTER),
        "T" => Some(AircraftType::TILTROTOR),
        "-" => Some(AircraftType::UNKNOWN),
        _ => None,
    };
    ensure_eq!(no_panic("AircraftType::from_str", || AircraftType::from_str(&t))?.ok(), a, "aircraft type of the letter {t:?}");
    let e = match t.as_str() {
        "J" => Some(EngineType::JET),
        "T" => Some(EngineType::TURBOPROP),
        "P" => Some(EngineType::PISTON),
        "E" => Some(EngineType::ELECTRIC),
        "R" => Some(EngineType::ROCKET),
        "-" => Some(EngineType::UNKNOWN),
        _ => None,
    };
    ensure_eq!(no_panic("EngineType::from_str", || EngineType::from_str(&t))?.ok(), e, "engine type of the letter {t:?}");
    ensure_eq!(Wtc::default(), Wtc::UNKNOWN, "wake category when none is given");
    Ok(())
}

fn airways(s: &mut Src, c: &mut Case) -> Res {
    let n = fix_name(s);
    let (x, y) = (axis(s, 180), axis(s, 90));
    let p = Point::new(at(s, x), at(s, y));
    let lvl = s.opt(3, 4, |s| match s.weighted(&[3, 2, 1]) {
        0 => s.int(0, 660) as u32 * 100,
        1 => s.int(0, 99_999) as u32,
        _ => *s.pick(&[0, 1, 99_999, 100_000, u32::MAX]),
    });
    let valid = s.bool();
    let f = AirwayFix { fix: Fix { designator: n.clone(), coordinate: p }, valid_direction: valid, minimum_level: lvl };
    let t = no_panic("printing an airway fix", || f.to_string())?;
    c.input = format!("{f:?}\n{t:?}\n");
    c.nontrivial = lvl.is_some();
    let col: Vec<&str> = t.split('\t').collect();
    ensure_eq!(col.len(), 5, "columns of {t:?}");
    ensure_eq!(col[0], n, "name printed");
    for (got, v, what) in [(col[1], y, "latitude"), (col[2], x, "longitude")] {
        let (_, frac) = got.split_once('.').ok_or_else(|| Fail::from(format!("{what} printed as {got:?}")))?;
        ensure_eq!(frac.len(), 6, "decimals of the {what} {got}");
        let r: f64 = got.parse().map_err(|_| Fail::from(format!("{what} printed as {got:?}")))?;
        ensure!((r * 1e6).round() as i64 == v, "{what} {v} millionths printed as {got:?}");
    }
    match lvl {
        None => ensure_eq!(col[3], "", "level printed"),
        Some(l) => {
            ensure!(col[3].len() >= 5 && col[3].parse::<u32>() == Ok(l), "level {l} printed as {:?}", col[3]);
            ensure!(col[3].len() == 5 || l > 99_999, "level {l} printed as {:?}", col[3]);
        }
    }
    ensure_eq!(col[4], if valid { "Y" } else { "N" }, "direction printed");
    for (k, t) in [(AirwayType::High, "H"), (AirwayType::Low, "L"), (AirwayType::Both, "B"), (AirwayType::Unknown, "")] {
        ensure_eq!(k.to_string(), t, "airway type {k:?} printed");
    }
    Ok(())
}

fn agreements(s: &mut Src, c: &mut Case) -> Res {
    let word = |s: &mut Src| match s.weighted(&[4, 1]) {
        0 => s.pick(&["MIQ", "EDMM·ALB", "08L", "A", "LOWW·LANGERNAMEUNDNOCHLAENGERERNAME", "*", "ÄÖÜ"]).to_string(),
        _ => s.word(1, 40, "AB·1"),
    };
    let level = |s: &mut Src| match s.weighted(&[3, 1, 1]) {
        0 => s.int(0, 660) as u32 * 100,
        1 => s.int(0, 66_000) as u32,
        _ => *s.pick(&[0, 50, 99, 100, u32::MAX]),
    };
    let k = Constraint {
        previous_fix: s.opt(1, 2, word),
        departure_runway: s.opt(1, 2, word),
        subsequent_fix: s.opt(1, 2, word),
        arrival_runway: s.opt(1, 2, word),
        fix: s.opt(1, 2, word),
        exit_sector: word(s),
        entry_sector: word(s),
        climb_level: s.opt(1, 2, level),
        descent_level: s.opt(1, 2, level),
        description: s.word(0, 5, "X|"),
        coord_timing: None,
    };
    let t = no_panic("printing an agreement", || k.to_string())?;
    c.input = format!("{k:?}\n{t:?}\n");
    c.nontrivial = k.climb_level.is_some() || k.descent_level.is_some();
    // columns: where it applies, who hands over to whom, the levels, the runway
    let pad = |t: &str, w: usize| t.to_string() + &" ".repeat(w.saturating_sub(t.chars().count()));
    let mut want = pad(k.fix.as_deref().unwrap_or("*"), 8) + " " + &pad(&k.exit_sector, 30) + " → " + &pad(&k.entry_sector, 30);
    for l in [k.climb_level, k.descent_level].into_iter().flatten() {
        want += &format!("  FL{}", l / 100);
    }
    match (&k.departure_runway, &k.arrival_runway) {
        (Some(r), _) | (None, Some(r)) => want += &format!("  [{r}]"),
        _ => {}
    }
    ensure!(t == want, "printed {t:?} instead of {want:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C27",
        rule: "at least two of the listed fixes are the same (fixes); a text of a single character (letters); a level is given (airways, agreements). Oracle: names and coordinates compared as drawn, in whole millionths of a degree; tables of letters; the columns put together again",
        assumptions: &["coordinates within two hundredths of a millionth of a degree of the border between two cells are not drawn", "180 degrees east and west are two places"],
        subs: vec![
            Sub { name: "fixes", quick: 20_000, thorough: 1_000_000, f: fixes },
            Sub { name: "letters", quick: 10_000, thorough: 300_000, f: letters },
            Sub { name: "airways", quick: 10_000, thorough: 500_000, f: airways },
            Sub { name: "agreements", quick: 10_000, thorough: 500_000, f: agreements },
        ],
        probes: vec![],
    }
}
