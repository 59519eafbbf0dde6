//! Transponder codes follow the squawk file; coordination times resolve field by field.
use crate::engine::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use uom::si::f32::Time;
use uom::si::time::{minute, second};
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming};
use vatsim_parser::squawks::parse_squawks_json;

/// A code as a number and one way to write it.
fn code(s: &mut Src) -> (u16, String) {
    let n = match s.weighted(&[4, 3, 1]) {
        0 => s.int(0, 0o7777) as u16,
        1 => s.int(0, 0o37) as u16 + *s.pick(&[0, 0o7000, 0o7700, 0o7740, 0o1000]),
        _ => *s.pick(&[0, 1, 7, 8, 0o100, 0o777, 0o1000, 0o7777, 0o7500, 0o7600, 0o7700]),
    };
    let t = if s.chance(1, 8) { format!("{n:o}") } else { format!("{n:04o}") };
    (n, t)
}

fn no_code(s: &mut Src) -> String {
    s.pick(&["", "8000", "0008", "7o00", "12 4", "-001", "0x12", "7700A", "٧٧٠٠", "1e3", "200000", "9", "abc"]).to_string()
}

fn squawks(s: &mut Src, c: &mut Case) -> Res {
    let mut defs: Vec<Value> = vec![];
    let mut want: BTreeMap<String, String> = BTreeMap::new();
    for i in 0..s.int(0, 8) {
        let msg = match s.weighted(&[4, 1]) {
            0 => format!("M{i}"),
            _ => s.pick(&["", "EMG", "VFR", "Ünïcode \"x\" \\ /", "HIJACK\n"]).to_string(),
        };
        let colour = format!("#{:06x}", s.int(0, 0xff_ffff));
        let mut d = json!({"message": msg, "color": colour});
        let mut set = |from: u16, to: u16| {
            for n in from..=to {
                // ways to write a number differ, codes have four digits
                let t: String = (0..4).rev().map(|i| char::from(b'0' + (n >> (3 * i) & 7) as u8)).collect();
                want.insert(t, msg.clone());
            }
        };
        match s.weighted(&[6, 6, 1, 1, 1, 1]) {
            0 => {
                let (n, t) = code(s);
                d["code"] = json!(t);
                if s.chance(1, 4) {
                    d["range"] = Value::Null;
                }
                set(n, n);
                c.label("code");
            }
            1 => {
                let (mut a, mut b) = (code(s), code(s));
                if s.chance(2, 3) {
                    // a short range
                    let n = (a.0 + s.int(0, 70) as u16).min(0o7777);
                    b = (n, format!("{n:04o}"));
                }
                if a.0 > b.0 && s.chance(3, 4) {
                    std::mem::swap(&mut a, &mut b);
                }
                d["range"] = json!({"start": a.1, "end": b.1});
                if s.chance(1, 4) {
                    d["code"] = Value::Null;
                }
                set(a.0, b.0);
                c.label(if a.0 > b.0 { "range that ends before it starts" } else if a.0 == b.0 { "range of one code" } else { "range" });
            }
            2 => {
                d["code"] = json!(code(s).1);
                d["range"] = json!({"start": code(s).1, "end": code(s).1});
                c.label("code and range");
            }
            3 => c.label("neither code nor range"),
            4 => {
                d["code"] = json!(no_code(s));
                c.label("not a code");
            }
            _ => {
                let (a, b) = (code(s).1, no_code(s));
                let (a, b) = if s.bool() { (a, b) } else { (b, a) };
                d["range"] = json!({"start": a, "end": b});
                c.label("range to something that is not a code");
            }
        }
        defs.push(d);
    }
    let nd: Vec<String> = s.vec(0, 4, |s| code(s).1);
    let (colour, message) = (format!("#{:06x}", s.int(0, 0xff_ffff)), s.word(0, 4, "ABÄ"));
    let v = json!({
        "NonDiscreteColor": colour,
        "NonDiscreteMessage": message,
        "NonDiscrete": nd,
        "Squawks": defs,
    });
    let t = if s.bool() { v.to_string() } else { serde_json::to_string_pretty(&v).unwrap() };
    c.input = t.clone();
    c.nontrivial = want.len() >= 2;

    let sq = no_panic("parse_squawks_json", || parse_squawks_json(t.as_bytes()))?.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let hex = |x: vatsim_parser::adaptation::colours::Colour| format!("#{:02x}{:02x}{:02x}", x.r, x.g, x.b);
    ensure_eq!((hex(sq.non_discrete_color), &sq.non_discrete_message, &sq.non_discrete), (colour, &message, &nd), "non-discrete codes");
    ensure_eq!(sq.squawks.len(), defs.len(), "number of entries");
    for (g, w) in sq.squawks.iter().zip(&defs) {
        let range = g.range.as_ref().map(|r| json!({"start": r.start, "end": r.end})).unwrap_or(Value::Null);
        let got = json!([g.code, range, g.message, hex(g.color)]);
        ensure_eq!(got, json!([w["code"], w["range"], w["message"], w["color"]]), "entry");
    }

    let mut world = World::seed();
    world.set(SQUAWKS_F, t);
    let a = load(&world, &c.scratch)?;
    let got: BTreeMap<String, String> = a.settings.ssr.special_use_codes.into_iter().collect();
    for (k, m) in &want {
        ensure!(got.get(k) == Some(m), "code {k} is {:?}, expected {m:?}", got.get(k));
    }
    for k in got.keys() {
        ensure!(want.contains_key(k), "code {k} is of no entry");
    }
    Ok(())
}

fn missing(s: &mut Src, c: &mut Case) -> Res {
    let mut w = World::seed();
    let t = match s.idx(4) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(crate::seeds::SQUAWKS.replace("\"Squawks\"", "\"squawkz\"")),
        _ => {
            let mut t = crate::seeds::SQUAWKS.to_string();
            t.truncate(s.idx(t.len()));
            Some(t)
        }
    };
    c.input = format!("{t:?}");
    c.nontrivial = true;
    match t {
        Some(t) => w.set(SQUAWKS_F, t),
        None => {
            w.files.remove(SQUAWKS_F);
        }
    }
    let a = load(&w, &c.scratch)?;
    ensure!(a.settings.ssr.special_use_codes.is_empty(), "codes of an unreadable file: {:?}", a.settings.ssr);
    Ok(())
}

fn time(s: &mut Src) -> Time {
    match s.idx(3) {
        0 => Time::new::<minute>(s.int(0, 60) as f32),
        1 => Time::new::<second>(s.int(0, 3600) as f32),
        _ => Time::new::<second>(s.int(-5, 5) as f32 * 0.5),
    }
}

fn timing(s: &mut Src) -> CoordinationTiming {
    let (num, den) = *s.pick(&[(1, 2), (1, 4), (3, 4)]);
    CoordinationTiming {
        act_time: s.opt(num, den, time),
        abi_time: s.opt(num, den, time),
        rev_time: s.opt(num, den, time),
    }
}

fn times(s: &mut Src, c: &mut Case) -> Res {
    let firs = ["EDMM", "LOVV", "edmm", "", "EDMM "];
    let mut fir_overrides = HashMap::new();
    for f in firs {
        if s.chance(1, 2) {
            fir_overrides.insert(f.to_string(), timing(s));
        }
    }
    let g = if s.chance(1, 4) {
        CoordinationSettings { fir_overrides, ..CoordinationSettings::default() }
    } else {
        CoordinationSettings { act_time: time(s), abi_time: time(s), rev_time: time(s), lam_timeout: time(s), fir_overrides }
    };
    // however the settings came about
    let g: CoordinationSettings = if s.chance(1, 3) {
        serde_json::from_value(serde_json::to_value(&g).unwrap()).map_err(|e| Fail::from(e.to_string()))?
    } else {
        g
    };
    let fir = s.opt(4, 5, |s| *s.pick(&["EDMM", "LOVV", "edmm", "", "EDMM ", "LSAZ"]));
    let own = s.opt(2, 3, timing);
    c.input = format!("{g:?}\nFIR {fir:?}, agreement {own:?}");
    let region = fir.and_then(|f| g.fir_overrides.get(f));
    let r = no_panic("resolve", || g.resolve(fir, own.as_ref()))?;
    let mut levels = vec![];
    let mut want = |own: Option<Time>, region: Option<Time>, global: Time| match (own, region) {
        (Some(x), r) => {
            levels.push(if r.is_some() { "agreement before region" } else { "agreement" });
            x
        }
        (None, Some(x)) => {
            levels.push("region");
            x
        }
        (None, None) => {
            levels.push("global");
            global
        }
    };
    let own = own.unwrap_or_default();
    let region = region.cloned().unwrap_or_default();
    let w = [
        want(own.act_time, region.act_time, g.act_time),
        want(own.abi_time, region.abi_time, g.abi_time),
        want(own.rev_time, region.rev_time, g.rev_time),
    ];
    levels.sort_unstable();
    levels.dedup();
    c.nontrivial = levels.len() > 1;
    for l in levels {
        c.label(l);
    }
    ensure_eq!([r.act_time, r.abi_time, r.rev_time], w, "ACT, ABI and REV time");
    Ok(())
}

/// Times of a loaded adaptation, changed by an overlay.
fn loaded(s: &mut Src, c: &mut Case) -> Res {
    let a = load(&World::seed(), &c.scratch)?;
    let d = &a.settings.coordination;
    ensure_eq!(
        (d.act_time, d.abi_time, d.rev_time, d.lam_timeout),
        (Time::new::<minute>(15.0), Time::new::<minute>(30.0), Time::new::<minute>(5.0), Time::new::<second>(5.0)),
        "times of a loaded adaptation"
    );
    ensure!(d.fir_overrides.is_empty(), "regions of a loaded adaptation: {:?}", d.fir_overrides);
    // an overlay gives a region some times
    let fields = ["act_time", "abi_time", "rev_time"];
    let mut o = String::new();
    let mut want = [900.0f32, 1800.0, 300.0];
    for (i, f) in fields.iter().enumerate() {
        if s.bool() {
            let v = s.int(0, 4000);
            o += &format!("{f}: {v}, ");
            want[i] = v as f32;
        }
    }
    let global = s.opt(1, 2, |s| s.int(0, 4000));
    let g = global.map(|v| format!("abi_time: {v}, ")).unwrap_or_default();
    let t = format!("{{ settings+: {{ coordination+: {{ {g}fir_overrides+: {{ EDMM: {{ {o} }} }} }} }} }}");
    c.input = t.clone();
    c.nontrivial = !o.is_empty();
    if let Some(v) = global {
        if !o.contains("abi_time") {
            want[1] = v as f32;
        }
    }
    let p = c.scratch.join("times.jsonnet");
    std::fs::write(&p, &t).expect("write");
    let b = no_panic("overlay", || a.apply_jsonnet_overlays([p].iter()))?.map_err(|e| Fail::from(format!("overlay: {e}")))?;
    let r = b.settings.coordination.resolve(Some("EDMM"), None);
    let got = [r.act_time, r.abi_time, r.rev_time].map(|t| t.get::<second>());
    ensure_eq!(got, want, "times for a region");
    let r = b.settings.coordination.resolve(Some("LOVV"), None);
    let got = [r.act_time, r.abi_time, r.rev_time].map(|t| t.get::<second>());
    ensure_eq!(got, [900.0, global.map_or(1800.0, |v| v as f32), 300.0], "times for another region");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "squawks: at least two codes have a meaning; times: at least two levels decide; loaded: an overlay names a time",
        assumptions: &[
            "of entries for the same code the last counts; entries with both or neither of code and range, or with something that is not an octal number, count for nothing",
            "codes of more than four digits are not generated",
        ],
        subs: vec![
            Sub { name: "squawks", quick: 12_000, thorough: 300_000, f: squawks },
            Sub { name: "missing", quick: 300, thorough: 3000, f: missing },
            Sub { name: "times", quick: 40_000, thorough: 2_000_000, f: times },
            Sub { name: "loaded", quick: 800, thorough: 20_000, f: loaded },
        ],
        probes: vec![],
    }
}
