use crate::engine::*;
use crate::gram::{mutate, Format};
use crate::seeds::*;
use crate::world::{self, World};
use geo::{Line, Point};
use std::path::Path;
use std::sync::OnceLock;
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::colours::Colours;
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::line_styles::line_styles_from_topsky;
use vatsim_parser::adaptation::locations::Fix;
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::sct_items::SctItems;
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::settings::{Settings, SsrSettings};
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::symbols::Symbols;
#[cfg(feature = "deep")]
use vatsim_parser::adaptation::{maps, sectors::Sectors};
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::ese::Ese;
use vatsim_parser::prf::Prf;
use vatsim_parser::sct::Sct;
use vatsim_parser::topsky::Topsky;

fn content(s: &mut Src, c: &mut Case, f: &Format) -> Vec<u8> {
    let base = match (s.weighted(&[5, 4]), f.grammar()) {
        (0, Some(g)) => {
            c.label("grammar sentence");
            g.sentence(s, f.start)
        }
        _ => {
            c.label("seed");
            s.pick(f.seeds).to_string()
        }
    };
    let bytes = if s.chance(9, 10) { mutate(s, base.as_bytes(), f) } else { base.into_bytes() };
    c.input = format!("{}: {}", f.name, String::from_utf8_lossy(&bytes));
    bytes
}

fn ser<T: serde::Serialize>(v: &T) -> Res {
    no_panic("serialising", || serde_json::to_value(v).ok().is_some()).map(|_| ())
}

/// The profile of the seed files and its adaptation, for what follows parsing a single file.
fn base(scratch: &Path) -> Option<&'static (Prf, Adaptation)> {
    static BASE: OnceLock<Option<(Prf, Adaptation)>> = OnceLock::new();
    BASE.get_or_init(|| {
        let dir = World::seed().write(&scratch.join("base"));
        let p = dir.join(world::PRF_F);
        let prf = Prf::parse(&p, &std::fs::read(&p).ok()?).ok()?;
        // (what fails here fails in the check of whole adaptations, too)
        let a = std::panic::catch_unwind(|| Adaptation::from_prf(&prf).ok()).ok()??;
        Some((prf, a))
    })
    .as_ref()
}

fn done(c: &mut Case, ok: bool) {
    c.nontrivial = true;
    c.label(if ok { "accepted" } else { "rejected" });
}

fn sct(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_SCT);
    let r = no_panic("Sct::parse", || Sct::parse(&b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        no_panic("Sct::to_string", || v.to_string())?;
        #[cfg(feature = "deep")]
        if let Some((_, a)) = base(&c.scratch) {
            let items = no_panic("SctItems::from_sct", || SctItems::from_sct(v, &a.locations, &a.colours, &a.settings))?;
            ser(&items)?;
        }
    }
    Ok(())
}
fn ese(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_ESE);
    let r = no_panic("Ese::parse", || Ese::parse(&b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        #[cfg(feature = "deep")]
        {
        let (vols, secs) = no_panic("Sectors::from_ese", || Sectors::from_ese(&v))?;
        let mut a = Adaptation { volumes: vols, sectors: secs, ..Adaptation::default() };
        no_panic("sector index", || {
            a.rebuild_sector_index();
            let p = Point::new(11.5, 48.5);
            let _ = a.find_sector(p, 5000.0);
            let _ = a.volumes_at(p).count();
            let _ = a.volumes_near_line(Line::new((11.0, 48.0), (12.0, 49.0))).count();
        })?;
        ser(&a)?;
        }
        no_panic("constraints", || {
            v.constraints.iter().map(|c| c.key().len() + c.to_string().len()).sum::<usize>()
        })?;
    }
    Ok(())
}

macro_rules! simple {
    ($name:ident, $fmt:expr, $what:literal, $f:expr) => {
        fn $name(s: &mut Src, c: &mut Case) -> Res {
            let b = content(s, c, &$fmt);
            let r = no_panic($what, || $f(&b))?;
            done(c, r.is_ok());
            if let Ok(v) = r {
                ser(&v)?;
            }
            Ok(())
        }
    };
}
simple!(aircraft, F_AIRCRAFT, "parse_aircraft", |b: &Vec<u8>| vatsim_parser::icao_aircraft::parse_aircraft(b));
simple!(airlines, F_AIRLINES, "parse_airlines", |b: &Vec<u8>| vatsim_parser::icao_airlines::parse_airlines(b));
simple!(airports, F_AIRPORTS, "parse_airports", |b: &Vec<u8>| vatsim_parser::icao_airports::parse_airports(b));
simple!(navdata, F_NAVDATA, "parse_navdata_airports", |b: &Vec<u8>| vatsim_parser::navdata_airports::parse_navdata_airports(b));
simple!(asr, F_ASR, "Asr::parse", |b: &Vec<u8>| vatsim_parser::asr::Asr::parse(b));

fn airway(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_AIRWAY);
    let r = no_panic("parse_airway_txt", || vatsim_parser::airway::parse_airway_txt(&b))?;
    done(c, r.is_ok());
    if let (Ok(v), Some((_, a))) = (r, base(&c.scratch)) {
        ser(&v)?;
        let text = String::from_utf8_lossy(&b).into_owned();
        let words: Vec<&str> = text.split_whitespace().collect();
        if words.is_empty() {
            return Ok(());
        }
        for _ in 0..8 {
            let awy = words.iter().skip(s.idx(words.len())).find(|w| w.starts_with(|c: char| c.is_alphabetic()));
            let (from, end) = (*s.pick(&words), *s.pick(&words));
            let f = Fix { designator: from.to_string(), coordinate: Point::new(11.0, 48.0) };
            no_panic("expand_airway_segment", || {
                let e = v.expand_airway_segment(&f, end, awy.unwrap_or(&""), &a.locations);
                e.map(|e| e.iter().map(|(f, _)| f.to_string().len()).sum::<usize>())
            })?;
        }
    }
    Ok(())
}

fn symbology(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_SYMBOLOGY);
    let r = no_panic("Symbology::parse", || vatsim_parser::symbology::Symbology::parse(&b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        #[cfg(feature = "deep")]
        if let Some((prf, _)) = base(&c.scratch) {
            ser(&no_panic("Settings::from_euroscope", || Settings::from_euroscope(&v, None, None, prf))?)?;
        }
        #[cfg(feature = "deep")]
        ser(&no_panic("Symbols::from_euroscope", || Symbols::from_euroscope(&v, &None))?)?;
    }
    Ok(())
}

/// A squawk file with odd codes and ranges at their proper places.
fn squawk_file(s: &mut Src) -> Vec<u8> {
    let code = |s: &mut Src| {
        let t = match s.weighted(&[4, 4, 2]) {
            0 => format!("{:04o}", s.int(0, 0o7777)),
            1 => s.pick(crate::gram::EXTREME).to_string(),
            _ => format!("{:o}", s.int(0, 0o200_010)),
        };
        serde_json::json!(t)
    };
    let squawks = s.vec(0, 4, |s| {
        let mut v = serde_json::json!({"message": "X", "color": if s.chance(1, 20) { "#é1234" } else { "#0102ff" }});
        if s.chance(1, 2) {
            v["code"] = code(s);
        }
        if s.chance(2, 3) {
            v["range"] = serde_json::json!({"start": code(s), "end": code(s)});
        }
        v
    });
    serde_json::json!({"NonDiscreteColor": "#ff0000", "NonDiscreteMessage": "", "NonDiscrete": s.vec(0, 3, code), "Squawks": squawks})
        .to_string()
        .into_bytes()
}

fn squawks(s: &mut Src, c: &mut Case) -> Res {
    let b = if s.chance(1, 2) { content(s, c, &F_SQUAWKS) } else { squawk_file(s) };
    c.input = String::from_utf8_lossy(&b).into_owned();
    let r = no_panic("parse_squawks_json", || vatsim_parser::squawks::parse_squawks_json(&b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        #[cfg(feature = "deep")]
        ser(&no_panic("SsrSettings::from_squawks_json", || SsrSettings::from_squawks_json(&v))?)?;
    }
    Ok(())
}

fn isec(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_ISEC);
    let r = no_panic("parse_isec_txt", || vatsim_parser::isec::parse_isec_txt(&b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        no_panic("IsecMap::to_string", || v.to_string())?;
    }
    Ok(())
}

fn prf(s: &mut Src, c: &mut Case) -> Res {
    let b = content(s, c, &F_PRF);
    let path = c.scratch.join("x.prf");
    std::fs::write(&path, &b).expect("scratch");
    let r = no_panic("Prf::parse", || Prf::parse(&path, &b))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        no_panic("Prf accessors", || {
            let _ = v.topsky_path();
            let _ = v.squawks_path();
            for i in 0..=255u8 {
                let _ = v.recent_path(i);
            }
        })?;
        // every file the profile names is missing
        no_panic("Adaptation::from_prf", || Adaptation::from_prf(&v).is_ok())?;
    }
    Ok(())
}

fn topsky(s: &mut Src, c: &mut Case) -> Res {
    let dir = c.scratch.join("topsky");
    std::fs::create_dir_all(&dir).expect("scratch");
    let which = s.weighted(&[6, 3, 3]);
    for (i, (name, f)) in
        [("TopSkyMaps.txt", &F_MAPS), ("TopSkySymbols.txt", &F_TSYMBOLS), ("TopSkySettings.txt", &F_TSETTINGS)]
            .into_iter()
            .enumerate()
    {
        let b = if i == which { content(s, c, f) } else { f.seeds[0].as_bytes().to_vec() };
        std::fs::write(dir.join(name), b).expect("scratch");
    }
    let r = no_panic("Topsky::parse", || Topsky::parse(&dir))?;
    done(c, r.is_ok());
    if let Ok(v) = r {
        ser(&v)?;
        #[cfg(feature = "deep")]
        if let Some((prf, a)) = base(&c.scratch) {
            let symbology = vatsim_parser::symbology::Symbology::parse(SYMBOLOGY.as_bytes());
            let sct = Sct::parse(SCT.as_bytes());
            if let (Ok(symbology), Ok(sct)) = (symbology, sct) {
                let settings = no_panic("Settings::from_euroscope", || Settings::from_euroscope(&symbology, Some(&v), None, prf))?;
                let v = Some(v);
                let colours = no_panic("Colours::from_euroscope", || Colours::from_euroscope(&symbology, &sct, &v, &settings))?;
                let m = no_panic("maps::from_topsky", || maps::from_topsky(v.as_ref().unwrap(), &settings, &colours, &a.locations))?;
                ser(&m)?;
                ser(&no_panic("Symbols::from_euroscope", || Symbols::from_euroscope(&symbology, &v))?)?;
                ser(&no_panic("line styles", || line_styles_from_topsky(&v))?)?;
                ser(&settings)?;
                ser(&colours)?;
            }
        }
    }
    Ok(())
}

/// A whole adaptation, one to three of its files mutated.
fn adaptation(s: &mut Src, c: &mut Case) -> Res {
    let mut w = World::seed();
    let list: [(&str, &Format); 15] = [
        (world::SCT_F, &F_SCT),
        (world::ESE_F, &F_ESE),
        (world::AIRWAY_F, &F_AIRWAY),
        (world::NAVDATA_F, &F_NAVDATA),
        (world::AIRCRAFT_F, &F_AIRCRAFT),
        (world::AIRLINES_F, &F_AIRLINES),
        (world::AIRPORTS_F, &F_AIRPORTS),
        (world::SYMBOLOGY_F, &F_SYMBOLOGY),
        (world::MAPS_F, &F_MAPS),
        (world::TSYMBOLS_F, &F_TSYMBOLS),
        (world::TSETTINGS_F, &F_TSETTINGS),
        (world::SQUAWKS_F, &F_SQUAWKS),
        (world::PRF_F, &F_PRF),
        (world::OVERLAY_F, &F_OVERLAY),
        (world::TOML_F, &F_TOML),
    ];
    let n = if s.chance(2, 3) { 1 } else { s.us(2, 3) };
    let mut input = String::new();
    for _ in 0..n {
        let i = s.weighted(&[6, 6, 3, 2, 1, 1, 1, 4, 6, 2, 2, 2, 3, 1, 1]);
        let (name, f) = list[i];
        if s.chance(1, 40) {
            w.files.remove(name);
            input.push_str(&format!("--- {name} removed\n"));
            continue;
        }
        let old = w.files.get(name).cloned().unwrap_or_default();
        let new = mutate(s, &old, f);
        input.push_str(&format!("--- {name}\n{}\n", String::from_utf8_lossy(&new)));
        w.set(name, new);
    }
    c.input = input;
    let dir = w.write(&c.scratch);
    let r = no_panic("Adaptation::from_adaptation_toml", || {
        Adaptation::from_adaptation_toml(&dir.join(world::TOML_F))
    })?;
    done(c, r.is_ok());
    if let Ok(a) = r {
        let text = no_panic("serialising", || serde_json::to_string(&a).unwrap_or_default())?;
        no_panic("deserialising", || serde_json::from_str::<Adaptation>(&text).is_ok())?;
        no_panic("queries", || {
            for p in [Point::new(11.5, 48.5), Point::new(12.2, 48.5)] {
                let _ = a.find_sector(p, 5000.0);
                let _ = a.volumes_at(p).count();
            }
            for f in ["GIVMI", "EDDM", "EDDM08L", "48N011E", "4830N01130E", "MIQ090010", "", "ÄÖ"] {
                let _ = a.locations.convert_designator(f);
            }
        })?;
    }
    Ok(())
}

fn random_bytes(s: &mut Src, c: &mut Case) -> Res {
    let n = s.us(0, 60);
    let b: Vec<u8> = (0..n)
        .map(|_| match s.weighted(&[3, 2, 2, 1]) {
            0 => *s.pick(b":\t\n\r ;/[]{}\"*\\#=.,-"),
            1 => *s.pick(b"0123456789"),
            2 => *s.pick(b"ABCXYZabcNSEW"),
            _ => s.draw(256) as u8,
        })
        .collect();
    c.input = format!("{:?}", String::from_utf8_lossy(&b));
    c.nontrivial = n > 0;
    no_panic("Sct", || Sct::parse(&b).is_ok())?;
    no_panic("Ese", || Ese::parse(&b).is_ok())?;
    no_panic("airway", || vatsim_parser::airway::parse_airway_txt(&b).is_ok())?;
    no_panic("isec", || vatsim_parser::isec::parse_isec_txt(&b).is_ok())?;
    no_panic("aircraft", || vatsim_parser::icao_aircraft::parse_aircraft(&b).is_ok())?;
    no_panic("airlines", || vatsim_parser::icao_airlines::parse_airlines(&b).is_ok())?;
    no_panic("airports", || vatsim_parser::icao_airports::parse_airports(&b).is_ok())?;
    no_panic("navdata", || vatsim_parser::navdata_airports::parse_navdata_airports(&b).is_ok())?;
    no_panic("symbology", || vatsim_parser::symbology::Symbology::parse(&b).is_ok())?;
    no_panic("asr", || vatsim_parser::asr::Asr::parse(&b).is_ok())?;
    no_panic("squawks", || vatsim_parser::squawks::parse_squawks_json(&b).is_ok())?;
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "files derived from the grammars in /repo/src/pest and small well-formed seed files, edited with extreme numbers, keywords, line moves, odd bytes and truncation, each parsed, serialised and followed up (writers, sector index, whole adaptation with overlays); plus short random byte strings; every generated file counts as non-trivial when it is not empty",
        assumptions: &["a case running 120 s counts as a hang", "the parsers run with 32 MiB of stack"],
        subs: vec![
            Sub { name: "sct", quick: 46000, thorough: 3000000, f: sct },
            Sub { name: "ese", quick: 46000, thorough: 3000000, f: ese },
            Sub { name: "airway", quick: 26000, thorough: 1200000, f: airway },
            Sub { name: "isec", quick: 26000, thorough: 1200000, f: isec },
            Sub { name: "aircraft", quick: 26000, thorough: 1200000, f: aircraft },
            Sub { name: "airlines", quick: 26000, thorough: 1200000, f: airlines },
            Sub { name: "airports", quick: 26000, thorough: 1200000, f: airports },
            Sub { name: "navdata", quick: 26000, thorough: 1200000, f: navdata },
            Sub { name: "prf", quick: 26000, thorough: 1200000, f: prf },
            Sub { name: "asr", quick: 46000, thorough: 3000000, f: asr },
            Sub { name: "symbology", quick: 46000, thorough: 3000000, f: symbology },
            Sub { name: "topsky", quick: 46000, thorough: 3000000, f: topsky },
            Sub { name: "squawks", quick: 6000, thorough: 600000, f: squawks },
            Sub { name: "random_bytes", quick: 66000, thorough: 3000000, f: random_bytes },
            Sub { name: "adaptation", quick: 10000, thorough: 600000, f: adaptation },
        ],
        probes: vec![],
    }
}
