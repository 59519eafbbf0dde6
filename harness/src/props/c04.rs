use crate::engine::*;
use crate::{ensure, ensure_eq};
use geo::{Coord, Point};
use vatsim_parser::{DegMinSecExt, Sign};

/// hemisphere, milliseconds of arc
fn decode(text: &str) -> Result<(char, u64), String> {
    let hemi = text.chars().next().ok_or("empty")?;
    let parts: Vec<&str> = text[hemi.len_utf8()..].split('.').collect();
    let [d, m, s, ms] = parts.as_slice() else {
        return Err(format!("{text}: not hemisphere + deg.min.sec.millis"));
    };
    if d.len() < 3 || m.len() != 2 || s.len() != 2 || ms.len() != 3 {
        return Err(format!("{text}: field widths"));
    }
    if ![d, m, s, ms].iter().all(|p| p.chars().all(|c| c.is_ascii_digit())) {
        return Err(format!("{text}: not digits"));
    }
    let (d, m, s, ms): (u64, u64, u64, u64) = (
        d.parse().map_err(|_| "deg")?,
        m.parse().map_err(|_| "min")?,
        s.parse().map_err(|_| "sec")?,
        ms.parse().map_err(|_| "ms")?,
    );
    if m >= 60 {
        return Err(format!("{text}: minutes not below 60"));
    }
    if s >= 60 {
        return Err(format!("{text}: seconds not below 60"));
    }
    Ok((hemi, ((d * 60 + m) * 60 + s) * 1000 + ms))
}

fn gen_deg(s: &mut Src) -> u16 {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.us(0, 180) as u16,
        1 => s.us(0, 2) as u16,
        2 => *s.pick(&[89u16, 90, 179, 180, 255, 256, 999]),
        _ => s.us(0, 999) as u16,
    }
}
fn gen_sec(s: &mut Src) -> f64 {
    match s.weighted(&[4, 2, 2, 2]) {
        0 => s.us(0, 59_999) as f64 / 1000.0,
        1 => s.us(0, 59) as f64,
        2 => s.draw(1 << 40) as f64 / (1u64 << 40) as f64 * 60.0,
        _ => *s.pick(&[0.0, 59.999, 59.9994, 59.9995, 59.9996, 59.999_999_9, 0.0005, 0.0004, 30.0]),
    }
}

fn to_decimal(s: &mut Src, c: &mut Case) -> Res {
    let part = |s: &mut Src| {
        let neg = s.bool();
        let deg = gen_deg(s);
        let min = s.us(0, 59) as u8;
        let sec = gen_sec(s);
        (if neg { Sign::Neg } else { Sign::Pos }, deg, min, sec)
    };
    let lat = part(s);
    let lng = part(s);
    c.input = format!("{lat:?} {lng:?}");
    c.nontrivial = lat.1 != lng.1 && (lat.3 != 0.0 || lng.3 != 0.0);
    let coord = Coord::from_deg_min_sec(lat, lng);
    let point = Point::from_deg_min_sec(lat, lng);
    ensure!(point.0 == coord, "Point and Coord disagree: {point:?} {coord:?}");
    for (what, p, got) in [("lat", lat, coord.y), ("lng", lng, coord.x)] {
        // independent exact-ish arithmetic: whole seconds in integers
        let whole = (u64::from(p.1) * 60 + u64::from(p.2)) * 60;
        let expect = (whole as f64 + p.3) / 3600.0;
        let neg = matches!(p.0, Sign::Neg);
        ensure!(
            (got.abs() - expect).abs() <= 1e-11 * expect.max(1.0),
            "{what}: {got} is not of magnitude {expect}"
        );
        ensure!(
            if neg { got <= 0.0 } else { got >= 0.0 },
            "{what}: {got} has the wrong sign for {p:?}"
        );
    }
    if lat.1 == 0 || lng.1 == 0 {
        c.label("zero-degree");
    }
    Ok(())
}

fn check_fmt(value: f64, text: &str, pos: char, neg: char) -> Res {
    let (hemi, ms) = decode(text).map_err(Fail::from)?;
    let exact_ms = value.abs() * 3_600_000.0;
    ensure!(
        (ms as f64 - exact_ms).abs() <= 0.5 + 1e-3 + exact_ms * 4e-16 * 8.0,
        "{text} is {} ms of arc away from {value}",
        ms as f64 - exact_ms
    );
    let expect_hemi = if value.is_sign_negative() { neg } else { pos };
    ensure!(hemi == expect_hemi, "{text}: hemisphere of {value}");
    Ok(())
}

fn gen_decimal(s: &mut Src, max: f64, c: &mut Case) -> f64 {
    let mag = match s.weighted(&[3, 3, 3, 1, 1]) {
        0 => s.draw(1 << 50) as f64 / (1u64 << 50) as f64 * max,
        1 => {
            // exact multiple of a second/ms, possibly nudged by a few ulps or sub-ms
            let ms = s.draw((max * 3_600_000.0) as u64 + 1);
            let v = ms as f64 / 3_600_000.0;
            c.label("near-ms");
            v + (s.int(-4, 4) as f64) * 1e-13
        }
        2 => {
            // just below / above a full minute or degree
            let d = s.us(0, max as usize) as f64;
            let m = if s.bool() { 0 } else { s.us(0, 59) } as f64;
            let off_ms = (s.int(-2000, 2000) as f64) / 1000.0;
            c.label("near-minute");
            d + m / 60.0 + off_ms / 3_600_000.0
        }
        3 => *s.pick(&[0.0, 0.5, 1.0, 89.999_999_99, 11.999_999_999, 59.0 / 60.0]),
        _ => {
            c.label("dummy");
            s.us(200, 999) as f64 + s.us(0, 59) as f64 / 60.0
        }
    };
    let mag = mag.abs();
    if s.bool() {
        -mag
    } else {
        mag
    }
}

fn format_value(s: &mut Src, c: &mut Case) -> Res {
    let y = gen_decimal(s, 90.0, c);
    let x = gen_decimal(s, 180.0, c);
    c.input = format!("x {x:?} y {y:?}");
    c.nontrivial = x != 0.0 && y != 0.0;
    let coord = Coord { x, y };
    let (lat, lng) = (coord.lat_deg_min_sec_fmt(), coord.lng_deg_min_sec_fmt());
    check_fmt(y, &lat, 'N', 'S')?;
    check_fmt(x, &lng, 'E', 'W')?;
    ensure_eq!(coord.deg_min_sec_fmt(), format!("{lat} {lng}"), "combined format");
    let p: Point = coord.into();
    ensure_eq!(p.deg_min_sec_fmt(), coord.deg_min_sec_fmt(), "Point and Coord format");
    // canonical: formatting what the text says gives the text again
    let back = |t: &str| {
        let (h, ms) = decode(t).unwrap();
        (
            Sign::from(h.to_string().as_str()),
            (ms / 3_600_000) as u16,
            (ms / 60_000 % 60) as u8,
            (ms % 60_000) as f64 / 1000.0,
        )
    };
    let again = Coord::from_deg_min_sec(back(&lat), back(&lng));
    ensure_eq!(again.deg_min_sec_fmt(), format!("{lat} {lng}"), "format(parse(text)) != text");
    Ok(())
}

fn text_roundtrip(s: &mut Src, c: &mut Case) -> Res {
    let part = |s: &mut Src, hemis: [char; 2]| {
        let h = hemis[s.idx(2)];
        let d = gen_deg(s);
        let m = s.us(0, 59);
        let ms = s.us(0, 59_999);
        let sec = ms as f64 / 1000.0;
        (
            format!("{h}{d:03}.{m:02}.{:02}.{:03}", ms / 1000, ms % 1000),
            (Sign::from(h.to_string().as_str()), d, m as u8, sec),
        )
    };
    let (lat_t, lat) = part(s, ['N', 'S']);
    let (lng_t, lng) = part(s, ['E', 'W']);
    let text = format!("{lat_t} {lng_t}");
    c.input = text.clone();
    c.nontrivial = lat.3 != 0.0 && lng.3 != 0.0;
    let coord = Coord::from_deg_min_sec(lat, lng);
    ensure_eq!(coord.deg_min_sec_fmt(), text, "format(parse(text)) != text");
    // the same through the sector file reader
    let file = format!("[FIXES]\nABCDE {text}\n");
    let sct = vatsim_parser::sct::Sct::parse(file.as_bytes()).map_err(|e| Fail::from(e.to_string()))?;
    ensure!(sct.fixes.len() == 1, "fix lost");
    ensure_eq!(sct.fixes[0].coordinate.deg_min_sec_fmt(), text, "through the sector file");
    Ok(())
}

/// A coordinate as a file may write it: any number of decimals, leading zeros, lower case.
fn spelling(s: &mut Src, hemis: [char; 2]) -> (String, f64) {
    let neg = s.bool();
    let h = hemis[usize::from(neg)];
    let h = if s.chance(1, 4) { h.to_ascii_lowercase() } else { h };
    let (d, m, sec) = (gen_deg(s), s.us(0, 59), s.us(0, 59));
    let n = s.us(0, 9) as u32;
    let frac = match s.weighted(&[3, 1]) {
        0 => s.draw(10u64.pow(n)),
        _ => *s.pick(&[0, 1, 5]) % 10u64.pow(n),
    };
    let d_t = match s.draw(4) {
        0 => format!("{d}"),
        1 => format!("{d:04}"),
        _ => format!("{d:03}"),
    };
    let m_t = if s.chance(1, 4) { format!("{m}") } else { format!("{m:02}") };
    let mut s_t = if s.chance(1, 4) { format!("{sec}") } else { format!("{sec:02}") };
    if n > 0 {
        s_t += &format!(".{frac:0w$}", w = n as usize);
    }
    let whole = (u64::from(d) * 60 + m as u64) * 60 + sec as u64;
    let v = (whole as f64 + frac as f64 / 10f64.powi(n as i32)) / 3600.0;
    (format!("{h}{d_t}.{m_t}.{s_t}"), if neg { -v } else { v })
}

/// Every reader of coordinates gives a written coordinate its value.
fn spellings(s: &mut Src, c: &mut Case) -> Res {
    let (lat_t, lat) = spelling(s, ['N', 'S']);
    let (lng_t, lng) = spelling(s, ['E', 'W']);
    c.input = format!("{lat_t} {lng_t}");
    c.nontrivial = lat != 0.0 && lng != 0.0 && lat_t.len() + lng_t.len() > 25;
    let check = |what: &str, at: Coord| -> Res {
        for (n, got, want) in [("lat", at.y, lat), ("lng", at.x, lng)] {
            // a billionth of a second of arc, or what a double can tell
            ensure!(
                (got - want).abs() <= 1e-9 / 3600.0 + want.abs() * 1e-15,
                "{what}: {n} of {lat_t} {lng_t} is {got}, expected {want}"
            );
        }
        Ok(())
    };
    let err = |e: &dyn std::fmt::Display| Fail::from(e.to_string());
    match s.draw(4) {
        0 => {
            let file = format!("[FIXES]\nABCDE {lat_t} {lng_t}\n");
            let sct = vatsim_parser::sct::Sct::parse(file.as_bytes()).map_err(|e| err(&e))?;
            ensure!(sct.fixes.len() == 1, "fix of {file:?} lost");
            c.label("sct");
            check("sector file", sct.fixes[0].coordinate.0)
        }
        1 => {
            let file = format!("[POSITIONS]\nA:B:118.500:C:D:E:F:-:-:0001:0007:{lat_t}:{lng_t}\n");
            let ese = vatsim_parser::ese::Ese::parse(file.as_bytes()).map_err(|e| err(&e))?;
            let p = ese.positions.values().next().ok_or("position lost")?;
            ensure!(p.visibility_points.len() == 1, "point of {file:?} lost: {p:?}");
            c.label("position");
            check("position", p.visibility_points[0])
        }
        2 => {
            let file = format!(
                "[AIRSPACE]\nSECTORLINE:1\nCOORD:{lat_t}:{lng_t}\nCOORD:N001.00.00.000:E001.00.00.000\nCOORD:N003.00.00.000:E001.00.00.000\nSECTOR:S:0:1\nOWNER:X\nBORDER:1\n"
            );
            let ese = vatsim_parser::ese::Ese::parse(file.as_bytes()).map_err(|e| err(&e))?;
            let x = ese.sectors.get("S").ok_or("sector lost")?;
            let l = x.border.first().ok_or("border lost")?;
            ensure!(l.points.0.len() == 3, "points of {file:?} lost: {l:?}");
            c.label("sector line");
            check("sector line", l.points.0[0])
        }
        _ => {
            let dir = c.scratch.join("sky");
            std::fs::create_dir_all(&dir).expect("mkdir");
            // decimal degrees are a third spelling here
            let decimal = s.chance(1, 4);
            let (a, b) = if decimal { (format!("{lat}"), format!("{lng}")) } else { (lat_t.clone(), lng_t.clone()) };
            let file = format!("MAP:M\nTEXT:{a}:{b}:text\n");
            std::fs::write(dir.join("TopSkyMaps.txt"), &file).expect("write");
            std::fs::write(dir.join("TopSkySettings.txt"), "Setup_A=1\n").expect("write");
            let t = vatsim_parser::topsky::Topsky::parse(&dir).map_err(|e| err(&e))?;
            let r = t.maps.first().and_then(|m| m.rules.first()).ok_or("text lost")?;
            let vatsim_parser::topsky::map::MapRule::Text(x) = r else {
                return Err(Fail::from(format!("{file:?} gives {r:?}")));
            };
            let vatsim_parser::Location::Coordinate(p) = &x.location else {
                return Err(Fail::from(format!("{file:?} gives {r:?}")));
            };
            c.label(if decimal { "map, decimal degrees" } else { "map" });
            check("map", p.0)
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "random DMS tuples, random decimal coordinates (uniform, exact milliseconds +/- ulps, within 2 ms of a full minute/degree, dummy >180) random canonical DMS texts, and other spellings (up to nine decimals, leading zeros, lower case, decimal degrees) through the readers of fixes, positions, sector lines and maps; non-trivial: both ordinates non-zero with fractional seconds",
        assumptions: &["coordinates below 1000 degrees; f64 arithmetic of the harness"],
        subs: vec![
            Sub { name: "to_decimal", quick: 200_000, thorough: 4_000_000, f: to_decimal },
            Sub { name: "format", quick: 400_000, thorough: 8_000_000, f: format_value },
            Sub { name: "text_roundtrip", quick: 60_000, thorough: 600_000, f: text_roundtrip },
            Sub { name: "spellings", quick: 40_000, thorough: 400_000, f: spellings },
        ],
        probes: vec![],
    }
}
