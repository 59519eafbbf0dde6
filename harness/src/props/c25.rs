//! A profile loads exactly when every file it needs is there and readable; what is optional cannot make it fail.
use crate::engine::*;
use crate::gram::Format;
use crate::seeds::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use std::path::Path;
use vatsim_parser::adaptation::{Adaptation, AdaptationError, AdaptationSetup};
use vatsim_parser::prf::Prf;

type Verdict = fn(&[u8]) -> bool;

/// The files a profile cannot do without: path, kind of its errors, its reader alone.
fn required() -> Vec<(&'static str, &'static Format, &'static str, Verdict)> {
    use vatsim_parser as v;
    vec![
        (SCT_F, &F_SCT, "Sct", |b| v::sct::Sct::parse(b).is_ok()),
        (ESE_F, &F_ESE, "Ese", |b| v::ese::Ese::parse(b).is_ok()),
        (AIRWAY_F, &F_AIRWAY, "Airways", |b| v::airway::parse_airway_txt(b).is_ok()),
        (NAVDATA_F, &F_NAVDATA, "NavdataAirports", |b| v::navdata_airports::parse_navdata_airports(b).is_ok()),
        (AIRCRAFT_F, &F_AIRCRAFT, "Aircraft", |b| v::icao_aircraft::parse_aircraft(b).is_ok()),
        (AIRLINES_F, &F_AIRLINES, "Airlines", |b| v::icao_airlines::parse_airlines(b).is_ok()),
        (AIRPORTS_F, &F_AIRPORTS, "Airports", |b| v::icao_airports::parse_airports(b).is_ok()),
        (SYMBOLOGY_F, &F_SYMBOLOGY, "Symbology", |b| v::symbology::Symbology::parse(b).is_ok()),
    ]
}

fn kind(e: &AdaptationError) -> &'static str {
    use AdaptationError as E;
    match e {
        E::Sct(_) => "Sct",
        E::Ese(_) => "Ese",
        E::Airways(_) => "Airways",
        E::NavdataAirports(_) => "NavdataAirports",
        E::Aircraft(_) => "Aircraft",
        E::Airlines(_) => "Airlines",
        E::Airports(_) => "Airports",
        E::Symbology(_) => "Symbology",
        E::FileRead(_) => "FileRead",
        E::Prf(_) => "Prf",
        _ => "other",
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Fault {
    Missing,
    Folder,
    Content(Vec<u8>),
}

/// Something is wrong with a file, or perhaps only different.
fn fault(s: &mut Src, old: &[u8], f: Option<&'static Format>) -> (&'static str, Fault) {
    match s.weighted(&[4, 1, 1, 2, 3, 3, 2, 1]) {
        0 => ("missing", Fault::Missing),
        1 => ("a folder", Fault::Folder),
        2 => ("empty", Fault::Content(vec![])),
        // as after an interrupted download
        3 => ("cut", Fault::Content(old[..s.idx(old.len() + 1)].to_vec())),
        4 => {
            let all: [&str; 12] = [SCT, ESE, AIRWAY, NAVDATA, AIRCRAFT, AIRLINES, AIRPORTS, SYMBOLOGY, MAPS, TSETTINGS, SQUAWKS, "<html><body>404 Not Found</body></html>\n"];
            ("another file", Fault::Content(s.pick(&all).as_bytes().to_vec()))
        }
        5 => {
            let mut b = old.to_vec();
            for _ in 0..s.us(1, 6) {
                let i = s.idx(b.len() + 1);
                match s.draw(3) {
                    0 => b.insert(i, *s.pick(b"\x00\xff\n\t:;[]{}\"0Z")),
                    1 if i < b.len() => {
                        b.remove(i);
                    }
                    _ if i < b.len() => b[i] = *s.pick(b"\x00\xff\n\t:;[]{}\"0Z"),
                    _ => b.push(b'?'),
                }
            }
            ("damaged", Fault::Content(b))
        }
        6 => match f.and_then(Format::grammar) {
            Some(g) => ("a sentence", Fault::Content(g.sentence(s, f.unwrap().start).into_bytes())),
            None => ("bytes", Fault::Content(s.vec(0, 40, |s| s.draw(256) as u8))),
        },
        _ => ("bytes", Fault::Content(s.vec(0, 40, |s| s.draw(256) as u8))),
    }
}

/// Lays the files out with their faults.
fn put(w: &World, faults: &[(&str, Fault)], c: &Case) -> std::path::PathBuf {
    let mut w = w.clone();
    for (f, x) in faults {
        match x {
            Fault::Content(b) => w.set(f, b.clone()),
            _ => {
                w.files.remove(*f);
            }
        }
    }
    let dir = w.write(&c.scratch);
    for (f, x) in faults {
        if *x == Fault::Folder {
            std::fs::create_dir_all(dir.join(f)).expect("scratch");
        }
    }
    dir
}

/// Loaded from the profile or from a description of it.
fn get(dir: &Path, toml: bool) -> Result<Result<Adaptation, AdaptationError>, Fail> {
    if toml {
        let t = dir.join("plain.toml");
        std::fs::write(&t, "prf = 'x.prf'\noverlays = []\n").expect("scratch");
        return no_panic("from_adaptation_toml", || Adaptation::from_adaptation_toml(&t));
    }
    let p = dir.join(PRF_F);
    let prf = Prf::parse(&p, &std::fs::read(&p).expect("profile")).map_err(|e| Fail::from(format!("profile: {e}")))?;
    no_panic("from_prf", || Adaptation::from_prf(&prf))
}

fn files(s: &mut Src, c: &mut Case) -> Res {
    let w = World::seed();
    let req = required();
    let n = s.weighted(&[1, 6, 2, 1]);
    let mut faults: Vec<(&str, Fault)> = vec![];
    let mut broken: Vec<(&str, &str)> = vec![];
    for _ in 0..n {
        let (f, format, k, reader) = s.pick(&req);
        if faults.iter().any(|x| x.0 == *f) {
            continue;
        }
        let (what, x) = fault(s, &w.files[*f], Some(format));
        c.input += &format!("{f}: {what} {}\n", if let Fault::Content(b) = &x { String::from_utf8_lossy(b).into_owned() } else { String::new() });
        let ok = match &x {
            Fault::Content(b) => no_panic("reading", || reader(b))?,
            _ => false,
        };
        c.label(format!("{k} {what} {}", if ok { "good" } else { "bad" }));
        if !ok {
            broken.push((f, if matches!(x, Fault::Content(_)) { k } else { "FileRead" }));
        }
        faults.push((f, x));
    }
    c.nontrivial = !faults.is_empty();
    let dir = put(&w, &faults, c);
    let toml = s.chance(1, 3);
    match get(&dir, toml)? {
        Ok(_) => ensure!(broken.is_empty(), "loaded, although {broken:?} could not be read"),
        Err(e) => {
            ensure!(!broken.is_empty(), "every file reads alone, but not together: {e}");
            let k = kind(&e);
            let t = e.to_string();
            // a file that could not be opened is named
            let named = |f: &str| k != "FileRead" || t.contains(f);
            ensure!(broken.iter().any(|b| b.1 == k && named(b.0)), "the error is {k}: {t}\nbroken are {broken:?}");
        }
    }
    Ok(())
}

/// What only plugins and displays need.
fn optional(s: &mut Src, c: &mut Case) -> Res {
    let w = World::seed();
    let all = [MAPS_F, TSYMBOLS_F, TSETTINGS_F, SQUAWKS_F, ISEC_F, ASR_F];
    let mut faults: Vec<(&str, Fault)> = vec![];
    for _ in 0..s.weighted(&[1, 6, 3, 1]) {
        let f = *s.pick(&all);
        if faults.iter().any(|x| x.0 == f) {
            continue;
        }
        let format = match f {
            MAPS_F => Some(&F_MAPS),
            TSYMBOLS_F => Some(&F_TSYMBOLS),
            TSETTINGS_F => Some(&F_TSETTINGS),
            _ => None,
        };
        let (what, x) = fault(s, &w.files[f], format);
        c.input += &format!("{f}: {what} {}\n", if let Fault::Content(b) = &x { String::from_utf8_lossy(b).into_owned() } else { String::new() });
        c.label(format!("{f} {what}"));
        faults.push((f, x));
    }
    c.nontrivial = !faults.is_empty();
    let dir = put(&w, &faults, c);
    // verdicts of the readers alone
    let sky = vatsim_parser::topsky::Topsky::parse(&dir.join(MAPS_F).parent().unwrap().to_path_buf()).is_ok();
    let squawks = std::fs::read(dir.join(SQUAWKS_F)).is_ok_and(|b| vatsim_parser::squawks::parse_squawks_json(&b).is_ok());
    c.label(format!("topsky {sky} squawks {squawks}"));
    let toml = s.chance(1, 3);
    let got = get(&dir, toml)?.map_err(|e| Fail::from(format!("an optional file keeps the rest from loading: {e}")))?;
    let got = adaptation_json(&got);
    // the same, with a profile that does not name what cannot be read
    let mut plain = w.clone();
    for (f, x) in &faults {
        if let Fault::Content(b) = x {
            plain.set(f, b.clone());
        }
    }
    if faults.iter().any(|x| x.0 == TSYMBOLS_F && !matches!(x.1, Fault::Content(_))) {
        plain.files.remove(TSYMBOLS_F);
    }
    let text: String = PRF
        .lines()
        .filter(|l| (sky || !l.ends_with("TopSky.dll")) && (squawks || !l.ends_with("Squawks.dll")))
        .map(|l| format!("{l}\n"))
        .collect();
    plain.set(PRF_F, text);
    let want = load(&plain, &c.scratch)?;
    let want = adaptation_json(&want);
    crate::gen::json_close_tol(&got, &want, "adaptation", 0.0).map_err(Fail::from)?;
    let some = |p: &str| got.pointer(p).and_then(|v| v.as_object()).is_some_and(|m| !m.is_empty());
    if faults.iter().all(|x| ![MAPS_F, TSETTINGS_F].contains(&x.0)) && sky {
        ensure!(some("/maps"), "no maps");
    }
    if !faults.iter().any(|x| x.0 == SQUAWKS_F) {
        ensure!(some("/settings/ssr/special_use_codes"), "no codes");
    }
    Ok(())
}

/// The description and the profile themselves.
fn entry(s: &mut Src, c: &mut Case) -> Res {
    let w = World::seed();
    let dir = w.write(&c.scratch);
    let t = dir.join("e.toml");
    let text = match s.draw(8) {
        0 => String::new(),
        1 => "prf = 'x.prf'\n".into(),
        2 => "overlays = []\n".into(),
        3 => "prf = 'nowhere.prf'\noverlays = []\n".into(),
        4 => "prf = 'x.prf'\noverlays = ['o.jsonnet', 'nowhere.jsonnet']\n".into(),
        5 => format!("prf = {}\noverlays = []\n", s.pick(&["5", "['x.prf']", "x.prf", "'x.prf", "{}"])),
        6 => format!("prf = 'x.prf'\noverlays = {}\n", s.pick(&["'o.jsonnet'", "[5]", "[", "{}", "['o.jsonnet'"])),
        _ => String::from_utf8_lossy(&s.vec(0, 20, |s| s.draw(128) as u8)).into_owned(),
    };
    c.input = text.clone();
    c.nontrivial = true;
    let p = match s.draw(6) {
        0 => dir.join("missing.toml"),
        1 => dir.clone(),
        2 => dir.join(PRF_F).join("x.toml"),
        _ => {
            std::fs::write(&t, &text).expect("scratch");
            t
        }
    };
    let a = no_panic("AdaptationSetup::parse", || AdaptationSetup::parse(&p))?;
    ensure!(a.is_err(), "a description that is none is accepted");
    let b = no_panic("from_adaptation_toml", || Adaptation::from_adaptation_toml(&p))?;
    let (Err(a), Err(b)) = (a, b) else { return Err(Fail::from("an adaptation from a description that is none")) };
    ensure_eq!(a.to_string(), b.to_string(), "error of the description and of loading it");
    // a profile that is not where it says
    let gone = dir.join("gone.prf");
    let r = no_panic("Prf::parse", || Prf::parse(&gone, PRF.as_bytes()))?;
    ensure!(r.is_err(), "a profile at a place that does not exist");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "a complete adaptation on disk of which up to three files are missing, folders, empty, cut, damaged, replaced by another file, by a sentence of their grammar or by random bytes: the eight required files, the six optional ones, and descriptions of an adaptation; loaded through the profile or a description; non-trivial: at least one fault. Oracle: the verdict of each file's reader on its own; for optional files the adaptation of a profile that does not name them",
        assumptions: &["which of several broken files is reported is free", "a file that can be opened but not parsed is reported by its kind, one that cannot be opened by its path"],
        subs: vec![
            Sub { name: "files", quick: 6_000, thorough: 200_000, f: files },
            Sub { name: "optional", quick: 1_500, thorough: 50_000, f: optional },
            Sub { name: "entry", quick: 1_500, thorough: 20_000, f: entry },
        ],
        probes: vec![],
    }
}
