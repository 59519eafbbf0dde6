use crate::engine::*;
use crate::ensure;
use crate::gen::{to_win1252, WIN1252};
use crate::gram::Format;
use crate::seeds::*;
use serde::Serialize;
use serde_json::Value;
use std::path::Path;

type Reader = fn(&[u8], &Path) -> Option<Value>;

fn val<T: Serialize, E>(r: Result<T, E>) -> Option<Value> {
    r.ok().map(|v| serde_json::to_value(v).expect("serialisable"))
}
fn topsky(dir: &Path, which: &str, b: &[u8]) -> Option<Value> {
    let dir = dir.join("topsky");
    std::fs::create_dir_all(&dir).expect("scratch");
    for (n, t) in [("TopSkyMaps.txt", MAPS), ("TopSkySymbols.txt", TSYMBOLS), ("TopSkySettings.txt", TSETTINGS)] {
        std::fs::write(dir.join(n), if n == which { b } else { t.as_bytes() }).expect("scratch");
    }
    val(vatsim_parser::topsky::Topsky::parse(&dir))
}

fn readers() -> Vec<(&'static Format, Reader)> {
    use vatsim_parser as v;
    vec![
        (&F_SCT, |b, _| val(v::sct::Sct::parse(b))),
        (&F_ESE, |b, _| val(v::ese::Ese::parse(b))),
        (&F_AIRWAY, |b, _| val(v::airway::parse_airway_txt(b))),
        (&F_ISEC, |b, _| val(v::isec::parse_isec_txt(b))),
        (&F_AIRCRAFT, |b, _| val(v::icao_aircraft::parse_aircraft(b))),
        (&F_AIRLINES, |b, _| val(v::icao_airlines::parse_airlines(b))),
        (&F_AIRPORTS, |b, _| val(v::icao_airports::parse_airports(b))),
        (&F_NAVDATA, |b, _| val(v::navdata_airports::parse_navdata_airports(b))),
        (&F_PRF, |b, d| {
            let p = d.join("x.prf");
            std::fs::write(&p, b).expect("scratch");
            v::prf::Prf::parse(&p, b).ok().map(|p| {
                let paths: Vec<String> = [p.topsky_path(), p.squawks_path(), p.recent_path(1), p.recent_path(2)]
                    .iter()
                    .map(|p| format!("{p:?}"))
                    .collect();
                serde_json::to_value((p, paths)).expect("serialisable")
            })
        }),
        (&F_ASR, |b, _| val(v::asr::Asr::parse(b))),
        (&F_SYMBOLOGY, |b, _| val(v::symbology::Symbology::parse(b))),
        (&F_MAPS, |b, d| topsky(d, "TopSkyMaps.txt", b)),
        (&F_TSYMBOLS, |b, d| topsky(d, "TopSkySymbols.txt", b)),
        (&F_TSETTINGS, |b, d| topsky(d, "TopSkySettings.txt", b)),
    ]
}

/// A text of the format with a few characters of Windows-1252 outside ASCII.
fn text(s: &mut Src, f: &Format) -> String {
    let base = match (s.weighted(&[2, 1]), f.grammar()) {
        (1, Some(g)) => g.sentence(s, f.start),
        _ => s.pick(f.seeds).to_string(),
    };
    let mut t: Vec<char> = base.chars().filter(|c| to_win1252(&c.to_string()).is_some() && *c != '\r').collect();
    let special: Vec<char> = WIN1252.chars().collect();
    for _ in 0..s.weighted(&[1, 4, 2, 1]) {
        let c = *s.pick(&special);
        // in place of or behind a letter
        let free = s.chance(2, 3);
        let at: Vec<usize> = (0..t.len())
            .filter(|i| if free { t[*i].is_ascii_lowercase() } else { t[*i].is_alphabetic() })
            .collect();
        if at.is_empty() {
            break;
        }
        let i = *s.pick(&at);
        match s.draw(4) {
            0 => t[i] = c,
            // in a comment at the end of its line
            1 => {
                let e = (i..t.len()).find(|j| t[*j] == '\n').unwrap_or(t.len());
                let ins: Vec<char> = format!("{}{c} note", s.pick(&[" ;", " // ", ";", "//"])).chars().collect();
                t.splice(e..e, ins);
            }
            _ => t.insert(i + 1, c),
        }
    }
    t.into_iter().collect()
}

/// No sequence of the encoded bytes may form UTF-8, otherwise the file is ambiguous.
fn unambiguous(t: &str) -> Option<Vec<u8>> {
    let b = to_win1252(t)?;
    (t.is_ascii() || String::from_utf8(b.clone()).is_err()).then_some(b)
}

fn encoding(s: &mut Src, c: &mut Case) -> Res {
    let rs = readers();
    let (f, read) = s.pick(&rs);
    let t = text(s, f);
    c.input = format!("{}:\n{t}", f.name);
    let Some(b) = unambiguous(&t) else { return Ok(()) };
    c.nontrivial = !t.is_ascii();
    let u = no_panic("reading UTF-8", || read(t.as_bytes(), &c.scratch.clone()))?;
    let w = no_panic("reading Windows-1252", || read(&b, &c.scratch.clone()))?;
    if !t.is_ascii() {
        c.label(format!("{} {}", f.name, if u.is_some() { "accepted" } else { "rejected" }));
    }
    ensure!(u == w, "UTF-8 gives {u:?}\nWindows-1252 gives {w:?}");
    Ok(())
}

/// A malformed drawing may carry whole lines in its name, with the breaks of its file.
fn unix_breaks(v: &mut Value) {
    match v {
        Value::String(s) => *s = s.replace("\r\n", "\n"),
        Value::Array(a) => a.iter_mut().for_each(unix_breaks),
        Value::Object(o) => o.values_mut().for_each(unix_breaks),
        _ => {}
    }
}

fn line_endings(s: &mut Src, c: &mut Case) -> Res {
    let rs = readers();
    let (f, read) = s.pick(&rs);
    let t = text(s, f);
    c.input = format!("{}:\n{t}", f.name);
    let lf = no_panic("reading LF", || read(t.as_bytes(), &c.scratch.clone()))?;
    let crlf = t.replace('\n', "\r\n");
    c.nontrivial = lf.is_some() && crlf != t;
    c.label(format!("{} {}", f.name, if lf.is_some() { "accepted" } else { "rejected" }));
    let w = no_panic("reading CRLF", || read(crlf.as_bytes(), &c.scratch.clone()))?;
    let w = w.map(|mut w| {
        unix_breaks(&mut w);
        w
    });
    ensure!(lf == w, "LF gives {lf:?}\nCRLF gives {w:?}");
    Ok(())
}

/// The last line counts whether or not a line break ends it.
fn last_line(s: &mut Src, c: &mut Case) -> Res {
    let rs = readers();
    let (f, read) = s.pick(&rs);
    let t = text(s, f);
    // up to any line of the text
    let lines: Vec<&str> = t.split('\n').filter(|l| !l.trim().is_empty()).collect();
    if lines.is_empty() {
        return Ok(());
    }
    let open = lines[..=s.idx(lines.len())].join("\n");
    let open = open.trim_end().to_string();
    let last = open.rsplit('\n').next().unwrap_or("");
    if last.contains(';') || last.contains("//") {
        return Ok(());
    }
    c.input = format!("{}:\n{open}", f.name);
    let closed = format!("{open}\n");
    let a = no_panic("reading with final line break", || read(closed.as_bytes(), &c.scratch.clone()))?;
    c.nontrivial = a.is_some();
    c.label(format!("{} {}", f.name, if a.is_some() { "accepted" } else { "rejected" }));
    let b = no_panic("reading without final line break", || read(open.as_bytes(), &c.scratch.clone()))?;
    ensure!(a == b, "{}: with a final line break {a:?}\nwithout {b:?}", f.name);
    Ok(())
}

/// Every defined character on its own, in every format's free text.
fn each_character(s: &mut Src, c: &mut Case) -> Res {
    let byte = s.int(0x80, 0xff) as u8;
    if [0x81, 0x8d, 0x8f, 0x90, 0x9d].contains(&byte) {
        return Ok(());
    }
    let ch = (0xa0..=0xff)
        .chain([
            0x20ac, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0x17d, 0x2018,
            0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0x17e, 0x178,
        ])
        .filter_map(char::from_u32)
        .find(|ch| to_win1252(&ch.to_string()) == Some(vec![byte]))
        .ok_or_else(|| Fail::from(format!("no character for byte {byte:#x}")))?;
    let word = format!("A{ch}b");
    let (name, read, t, path): (_, Reader, String, &str) = match s.draw(7) {
        0 => ("sct", |b, _| val(vatsim_parser::sct::Sct::parse(b)), format!("[LABELS]\n\"{word}\" N048.00.00.000 E011.00.00.000 red\n"), "/labels/0/name"),
        1 => ("ese", |b, _| val(vatsim_parser::ese::Ese::parse(b)), format!("[POSITIONS]\n{word}:Name:123.130:MX::EDDM:APP:::0000:0000\n"), "/positions/MX/name"),
        2 => ("prf", readers()[8].1, format!("Settings\tsector\t\\{word}\\x.sct\n"), "/0/settings/sector"),
        3 => ("asr", |b, _| val(vatsim_parser::asr::Asr::parse(b)), format!("SECTORTITLE:{word}\n"), "/sector_title"),
        4 => ("airports", |b, _| val(vatsim_parser::icao_airports::parse_airports(b)), format!("EDDM\t{word}\tGermany\n"), "/EDDM/name"),
        5 => ("airlines", |b, _| val(vatsim_parser::icao_airlines::parse_airlines(b)), format!("DLH\t{word}\tLUFTHANSA\tGermany\n"), "/DLH/airline"),
        _ => ("settings", |b, d| topsky(d, "TopSkySettings.txt", b), format!("Label={word}\n"), "/settings/Label"),
    };
    c.input = format!("{name} {byte:#x} {ch:?}");
    c.nontrivial = true;
    let b = to_win1252(&t).unwrap();
    let u = read(t.as_bytes(), &c.scratch.clone());
    let w = read(&b, &c.scratch.clone());
    ensure!(u == w, "UTF-8 gives {u:?}\nWindows-1252 gives {w:?}");
    if let Some(v) = &u {
        c.label("accepted");
        if let Some(Value::String(got)) = v.pointer(path) {
            c.label("value compared");
            ensure!(got.contains(&word), "{name}: {got:?} instead of {word:?}");
        }
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "texts of all 14 text formats (seed files and grammar sentences) with characters of Windows-1252 put into names, values and comments, read as UTF-8 and as Windows-1252, and with Unix and with Windows line endings; every Windows-1252 character in seven formats; non-trivial: not pure ASCII (encoding), accepted (line endings). Oracle: both readings are equal (or both are rejected)",
        assumptions: &["texts whose Windows-1252 bytes happen to form valid UTF-8 are excluded as ambiguous", "squawks.json (JSON) and adaptation.toml (TOML) are UTF-8 by definition", "line breaks inside a value (malformed multi-line drawing names) are compared as line breaks"],
        subs: vec![
            Sub { name: "encoding", quick: 60_000, thorough: 1_500_000, f: encoding },
            Sub { name: "line_endings", quick: 60_000, thorough: 1_500_000, f: line_endings },
            Sub { name: "last_line", quick: 30_000, thorough: 800_000, f: last_line },
            Sub { name: "each_character", quick: 20_000, thorough: 100_000, f: each_character },
        ],
        probes: vec![],
    }
}
