//! Colours convert exactly and their names resolve by precedence.
use crate::engine::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::colours::Colour;
use crate::palette;

const BLOCK: i64 = 4096;

fn rgb(n: i64) -> [u8; 3] {
    [(n & 255) as u8, (n >> 8 & 255) as u8, (n >> 16 & 255) as u8]
}

fn numbers(s: &mut Src, c: &mut Case) -> Res {
    let start = BLOCK * s.int(0, (1 << 24) / BLOCK - 1);
    let probe = start + s.int(0, BLOCK - 1);
    c.input = format!("{start} to {}", start + BLOCK - 1);
    c.nontrivial = true;
    for n in start..start + BLOCK {
        let [r, g, b] = rgb(n);
        let Ok(x) = Colour::from_euroscope(n as i32) else { return Err(Fail::from(format!("{n} is no colour"))) };
        ensure!((x.r, x.g, x.b, x.a) == (r, g, b, 255), "{n} is {x:?}, expected {r} {g} {b}");
        ensure!(x == Colour::from_rgb(r, g, b), "{n} is not the colour of its components");
        ensure!(i64::from(x.to_euroscope()) == n, "{n} is written as {}", x.to_euroscope());
    }
    // texts of some of them
    for n in [start, probe, start + BLOCK - 1] {
        let [r, g, b] = rgb(n);
        let x = Colour::from_rgb(r, g, b);
        let t = format!("#{r:02x}{g:02x}{b:02x}");
        ensure_eq!(serde_json::to_value(x).map_err(|e| Fail::from(e.to_string()))?, json!(t), "text of {x:?}");
        let mixed: String = t.chars().map(|x| if s.bool() { x.to_ascii_uppercase() } else { x }).collect();
        for t in [t.clone(), t.to_uppercase(), mixed] {
            let y: Result<Colour, _> = serde_json::from_value(json!(t));
            ensure!(y.as_ref().is_ok_and(|y| *y == x), "{t:?} is {y:?}, expected {x:?}");
        }
    }
    Ok(())
}

/// Reference reading of the text form.
fn hex(t: &str) -> Option<[u8; 3]> {
    let b = t.as_bytes();
    if b.len() != 7 || b[0] != b'#' {
        return None;
    }
    let d = |x: u8| match x {
        b'0'..=b'9' => Some(x - b'0'),
        b'a'..=b'f' => Some(x - b'a' + 10),
        b'A'..=b'F' => Some(x - b'A' + 10),
        _ => None,
    };
    let mut out = [0; 3];
    for i in 0..3 {
        out[i] = d(b[1 + 2 * i])? * 16 + d(b[2 + 2 * i])?;
    }
    Some(out)
}

fn texts(s: &mut Src, c: &mut Case) -> Res {
    // numbers outside of 24 bits
    let n = match s.weighted(&[3, 2, 1]) {
        0 => -s.int(1, 1 << 31),
        1 => s.int(1 << 24, i32::MAX as i64),
        _ => *s.pick(&[-1, -256, -65_536, -16_777_216, 1 << 24, i32::MAX as i64, i32::MIN as i64, (1 << 24) + 255]),
    } as i32;
    let got = no_panic("from_euroscope", || Colour::from_euroscope(n))?;
    ensure!(got.is_err(), "{n} is read as {got:?}");
    // texts near to a colour
    let mut t: Vec<char> = format!("#{}", s.word(6, 6, "0123456789abcdefABCDEF")).chars().collect();
    for _ in 0..s.int(0, 2) {
        let i = s.idx(t.len().max(1)).min(t.len().saturating_sub(1));
        let x = *s.pick(&['g', 'G', '#', ' ', '+', '-', '\n', '٣', '０', 'x', '0', 'f', '/', ':', '@', '`', 'é']);
        match s.idx(4) {
            0 if !t.is_empty() => t[i] = x,
            1 => t.insert(i, x),
            2 if !t.is_empty() => {
                t.remove(i);
            }
            _ => t.push(x),
        }
    }
    let t: String = match s.weighted(&[12, 1, 1]) {
        0 => t.into_iter().collect(),
        1 => s.word(0, 9, "0123456789abcdef#rgb(,) "),
        _ => s.pick(&["", "#", "#fff", "#ffffffff", "red", "0xffffff", "ffffff", "#12345", "#1234567", "rgb(1,2,3)"]).to_string(),
    };
    c.input = format!("{n} {t:?}");
    let want = hex(&t);
    c.nontrivial = true;
    c.label(if want.is_some() { "colour" } else { "no colour" });
    let quoted = serde_json::to_string(&t).unwrap();
    for got in [
        no_panic("Colour from text", || serde_json::from_str::<Colour>(&quoted))?,
        no_panic("Colour from value", || serde_json::from_value::<Colour>(json!(t)))?,
    ] {
        let g = got.as_ref().ok().map(|x| [x.r, x.g, x.b]);
        ensure!(g == want, "{t:?} is read as {got:?}, expected {want:?}");
    }
    let other = match s.idx(5) {
        0 => json!(s.int(0, 0xff_ffff)),
        1 => Value::Null,
        2 => json!([1, 2, 3]),
        3 => json!({"r": 1, "g": 2, "b": 3, "a": 255}),
        _ => json!(true),
    };
    ensure!(serde_json::from_value::<Colour>(other.clone()).is_err(), "{other} is read as a colour");
    Ok(())
}

fn names(s: &mut Src, c: &mut Case) -> Res {
    let keys = palette::names();
    let mut names: Vec<String> = s.vec(2, 12, |s| match s.weighted(&[5, 2, 2]) {
        0 => s.pick(&keys).to_string(),
        1 => {
            let n = s.pick(&keys).to_string();
            match s.idx(3) {
                0 => n.to_lowercase(),
                1 => n.to_uppercase(),
                _ => format!("{n}1"),
            }
        }
        _ => s.word(1, 6, "ABCabc_12"),
    });
    names.sort();
    names.dedup();
    let any = |s: &mut Src| {
        let n = match s.weighted(&[6, 1, 1]) {
            0 => s.int(0, 0xff_ffff),
            1 => 0,
            _ => 0xff_ffff,
        };
        (n, rgb(n))
    };
    let (mut sct, mut maps, mut settings) = (String::new(), String::new(), String::new());
    let mut topsky: BTreeMap<String, [u8; 3]> = BTreeMap::new();
    let mut sector: BTreeMap<String, [u8; 3]> = BTreeMap::new();
    let coopans = match s.idx(3) {
        0 => true,
        1 => {
            settings += "Setup_COOPANS=1\n";
            true
        }
        _ => {
            settings += "Setup_COOPANS=0\n";
            false
        }
    };
    let plugin = s.chance(5, 6);
    for n in &names {
        if s.chance(1, 2) {
            let (v, x) = any(s);
            sct += &format!("#define {n} {v}\n");
            sector.insert(n.clone(), x);
        }
        if s.chance(1, 3) {
            let x = any(s).1;
            if s.bool() {
                maps += &format!("COLORDEF:{n}:{}:{}:{}\n", x[0], x[1], x[2]);
            } else {
                settings += &format!("Color_{n}={},{},{}\n", x[0], x[1], x[2]);
            }
            topsky.insert(n.clone(), x);
        }
    }
    sct += crate::seeds::SCT;
    maps += "MAP:M\nCOLOR:Lake\n";
    let mut w = World::seed();
    w.set(SCT_F, sct.clone());
    w.set(MAPS_F, maps.clone());
    w.set(TSETTINGS_F, settings.clone());
    if !plugin {
        for f in [MAPS_F, TSYMBOLS_F, TSETTINGS_F] {
            w.files.remove(f);
        }
        c.label("no TopSky folder");
    }
    c.input = format!("{names:?}\n{sct}\n== maps\n{maps}== settings\n{settings}");
    let mut a = load(&w, &c.scratch)?;
    let coopans = coopans || !plugin;
    ensure_eq!(a.settings.coopans, coopans, "COOPANS");
    let flip = s.bool();
    if flip {
        // the settings in use decide, not those of the files
        a.settings.coopans = !coopans;
    }
    let coopans = a.settings.coopans;
    c.label(if coopans { "COOPANS palette" } else { "Eurocat palette" });
    let seed = vatsim_parser::sct::Sct::parse(crate::seeds::SCT.as_bytes()).map_err(|e| Fail::from(e.to_string()))?;
    for n in &names {
        let palette = palette::contains(n).then(|| palette::colour(n, coopans));
        let of_sct = match seed.colours.get(n) {
            Some(x) => Some([x.r, x.g, x.b]),
            None => sector.get(n).copied(),
        };
        let of_plugin = if plugin { topsky.get(n).copied() } else { None };
        let l = match (of_plugin, of_sct, palette) {
            (Some(_), Some(_), Some(_)) => "all three",
            (Some(_), Some(_), None) => "TopSky and sector file",
            (Some(_), None, Some(_)) => "TopSky and palette",
            (None, Some(_), Some(_)) => "sector file and palette",
            (None, None, Some(None)) => "name without a colour in this palette",
            (None, None, None) => "unknown",
            _ => "one source",
        };
        c.label(l);
        c.nontrivial |= l != "unknown" && l != "one source";
        let want = of_plugin.or(of_sct).or(palette.flatten().map(|(r, g, b)| [r, g, b]));
        let got = a.colours.get(n, &a.settings).map(|x| [x.r, x.g, x.b]);
        ensure!(got == want, "{n} ({l}) is {got:?}, expected {want:?}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "numbers and texts: always; names: a name is defined in two places, or has no colour in the palette in use",
        assumptions: &[
            "the colours of the two default palettes are those the library had when this check was written; names added since are taken from its table",
            "the text form is # and six hexadecimal digits in either case, written in lower case",
        ],
        subs: vec![
            Sub { name: "numbers", quick: 12_000, thorough: 60_000, f: numbers },
            Sub { name: "texts", quick: 40_000, thorough: 2_000_000, f: texts },
            Sub { name: "names", quick: 12_000, thorough: 300_000, f: names },
        ],
        probes: vec![],
    }
}
