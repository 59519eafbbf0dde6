//! Adaptations survive export; overlays change what they name and nothing else.
use super::{c10, c12::places, c14, c17};
use crate::debug_tree;
use crate::engine::*;
use crate::gen_ese;
use crate::gen_sct::{self, Kind};
use crate::gen_sky::{self, Cfg};
use crate::gram::{mutate, Format};
use crate::seeds::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use geo::Point;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use uom::si::f32::Time;
use uom::si::time::second;
use vatsim_parser::adaptation::settings::CoordinationTiming;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

/// A profile with something in every one of its files.
fn rich(s: &mut Src) -> World {
    let mut w = World::seed();
    if s.chance(5, 6) {
        let all = [Kind::HighAirway, Kind::LowAirway, Kind::Sid, Kind::Star, Kind::ArtccHigh, Kind::Artcc, Kind::ArtccLow, Kind::Geo, Kind::Regions, Kind::Labels];
        let m = if s.bool() { places(s, &all) } else { gen_sct::model(s, &gen_sct::Opts::default()) };
        w.set(SCT_F, m.render(s));
    }
    if s.chance(2, 3) {
        let m = gen_ese::model(s, &gen_ese::Opts::default());
        w.set(ESE_F, m.render(s));
    }
    if s.chance(2, 3) {
        let places = ["GIVMI", "ERNAS", "EDDM", "MIQ", "NOWHERE"].map(String::from).to_vec();
        let cfg = Cfg { places, drawing: true, maps: 4, rules: 8, ..Cfg::default() };
        let sky = gen_sky::sky(s, &cfg);
        w.set(MAPS_F, sky.maps_text);
        w.set(TSETTINGS_F, sky.settings_text);
        match sky.symbols_text {
            Some(t) => w.set(TSYMBOLS_F, t),
            None => {
                w.files.remove(TSYMBOLS_F);
            }
        }
    }
    if s.chance(1, 2) {
        w.set(SYMBOLOGY_F, c17::symbology(s).text);
    }
    if s.chance(1, 2) {
        let t = c10::table(s);
        if t.contains('Y') || t.contains('N') {
            w.set(AIRWAY_F, t);
        }
    }
    if s.chance(1, 2) {
        let (a, b) = c14::lists(s);
        w.set(AIRCRAFT_F, a);
        w.set(AIRLINES_F, b);
    }
    if s.chance(1, 8) {
        for f in [MAPS_F, TSETTINGS_F, TSYMBOLS_F, SQUAWKS_F] {
            if s.bool() {
                w.files.remove(f);
            }
        }
    }
    w
}

fn timing(s: &mut Src) -> CoordinationTiming {
    let t = |s: &mut Src| s.opt(1, 2, |s| Time::new::<second>(s.int(0, 3600) as f32 + *s.pick(&[0.0, 0.5, 0.1])));
    CoordinationTiming { act_time: t(s), abi_time: t(s), rev_time: t(s) }
}

/// Fields that no file fills.
fn times(s: &mut Src, a: &mut Adaptation) {
    for k in ["EDMM", "LOVV", "ü \"x\""] {
        if s.chance(1, 3) {
            a.settings.coordination.fir_overrides.insert(k.to_string(), timing(s));
        }
    }
    let mut all: Vec<_> = a.departure_constraints.iter_mut().chain(a.destination_constraints.iter_mut()).collect();
    all.sort_by(|a, b| a.0.cmp(b.0));
    for (_, x) in all {
        if s.chance(1, 3) {
            x.coord_timing = Some(timing(s));
        }
    }
}

/// What the adaptation holds, apart from the index made from it.
fn tree(a: &Adaptation) -> debug_tree::Tree {
    debug_tree::read(&format!("{a:?}"), &["sector_index"])
}

fn close(a: &Value, b: &Value, path: &str) -> Result<(), String> {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap_or(f64::NAN), y.as_f64().unwrap_or(f64::NAN));
            if x == y || (x - y).abs() <= 1e-12 * x.abs().max(y.abs()).max(1e-3) {
                Ok(())
            } else {
                Err(format!("{path}: got {x}, expected {y}"))
            }
        }
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
            x.iter().zip(y).enumerate().try_for_each(|(i, (p, q))| close(p, q, &format!("{path}[{i}]")))
        }
        (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
            x.iter().try_for_each(|(k, p)| close(p, &y[k], &format!("{path}.{k}")))
        }
        _ if a == b => Ok(()),
        _ => {
            let cut = |v: &Value| v.to_string().chars().take(300).collect::<String>();
            Err(format!("{path}: got {}, expected {}", cut(a), cut(b)))
        }
    }
}

fn same(got: &Adaptation, want: &Adaptation, what: &str) -> Res {
    close(&adaptation_json(got), &adaptation_json(want), "").map_err(|e| Fail::from(format!("{what}: {e}")))?;
    debug_tree::same(&tree(got), &tree(want), "").map_err(|e| Fail::from(format!("{what} (not exported): {e}")))
}

/// The answers of the index are those of the adaptation compared with.
fn same_answers(s: &mut Src, got: &Adaptation, want: &Adaptation) -> Res {
    for _ in 0..3 {
        let p = Point::new(11.0 + s.int(0, 8) as f64 * 0.25 + 0.01, 48.0 + s.int(0, 4) as f64 * 0.25 + 0.02);
        let l = *s.pick(&[0.0, 5000.0, 20000.0]);
        ensure_eq!(got.find_sector(p, l), want.find_sector(p, l), "sector at {p:?}, {l} ft");
    }
    Ok(())
}

fn keep(w: &World) -> String {
    let mut t = String::new();
    for (f, c) in &w.files {
        t += &format!("== {f}\n{}\n", String::from_utf8_lossy(c));
    }
    t
}

fn finite(v: &Value) -> bool {
    match v {
        Value::Array(l) => l.iter().all(finite),
        Value::Object(m) => m.values().all(finite),
        Value::Number(n) => n.as_f64().is_some_and(f64::is_finite),
        _ => true,
    }
}

fn count(a: &Adaptation) -> usize {
    a.locations.fixes.len() + a.positions.len() + a.sectors.len() + a.maps.len() + a.airlines.len()
}

fn roundtrip(s: &mut Src, c: &mut Case) -> Res {
    let w = rich(s);
    c.input = keep(&w);
    let mut a = load(&w, &c.scratch)?;
    times(s, &mut a);
    c.nontrivial = count(&a) >= 5;
    let text = no_panic("export", || serde_json::to_string(&a))?.map_err(|e| Fail::from(format!("export: {e}")))?;
    ensure!(finite(&serde_json::from_str(&text).map_err(|e| Fail::from(format!("not JSON: {e}")))?), "no number");
    let b: Adaptation = no_panic("import", || serde_json::from_str(&text))?.map_err(|e| Fail::from(format!("import: {e}")))?;
    same(&b, &a, "export and import")?;
    same_answers(s, &b, &a)?;
    // by way of a tree, as text made for reading
    let v = serde_json::to_value(&a).expect("JSON");
    let b: Adaptation = serde_json::from_value(v.clone()).map_err(|e| Fail::from(format!("import of a value: {e}")))?;
    same(&b, &a, "export and import of a value")?;
    let b: Adaptation = serde_json::from_str(&serde_json::to_string_pretty(&v).unwrap()).map_err(|e| Fail::from(format!("import: {e}")))?;
    same(&b, &a, "export and import of a value as text")
}

fn twice(s: &mut Src, c: &mut Case) -> Res {
    let mut w = rich(s);
    if s.chance(1, 2) {
        // many ways to name one plugin, line style, place
        let mut t = String::new();
        for i in 0..s.us(1, 5) {
            let n = s.pick(&["Dots", "dots", "DOTS", "dOts"]);
            t += &format!("LINESTYLE:{n}:{}:{}\n", i + 2, i + 3);
        }
        let old = String::from_utf8(w.files.get(MAPS_F).cloned().unwrap_or_default()).unwrap();
        w.set(MAPS_F, format!("{t}{old}"));
        c.label("names that differ in case");
    }
    if s.chance(1, 2) {
        let old = String::from_utf8(w.files[PRF_F].clone()).unwrap();
        let mut t = old.clone();
        for i in 0..s.us(1, 3) {
            let dll = s.pick(&["TopSky", "Squawks", "MyTopSky"]);
            t += &format!("Plugins\tPlugin{}\t\\Plugins\\{}\\{dll}.dll\r\n", 3 + i, s.pick(&["TopSky", "Squawks", "Other"]));
        }
        w.set(PRF_F, t);
        c.label("several plugins");
    }
    c.input = keep(&w);
    let a = load(&w, &c.scratch)?;
    c.nontrivial = count(&a) >= 5;
    for i in 2..=4 {
        let b = load(&w, &c.scratch)?;
        same(&b, &a, &format!("loading {i}"))?;
    }
    Ok(())
}

/// Whatever loads from files with unusual content is exported and read back whole.
fn unusual(s: &mut Src, c: &mut Case) -> Res {
    let mut w = World::seed();
    let list: [(&str, &Format); 12] = [
        (SCT_F, &F_SCT),
        (ESE_F, &F_ESE),
        (AIRWAY_F, &F_AIRWAY),
        (NAVDATA_F, &F_NAVDATA),
        (AIRCRAFT_F, &F_AIRCRAFT),
        (AIRLINES_F, &F_AIRLINES),
        (AIRPORTS_F, &F_AIRPORTS),
        (SYMBOLOGY_F, &F_SYMBOLOGY),
        (MAPS_F, &F_MAPS),
        (TSYMBOLS_F, &F_TSYMBOLS),
        (TSETTINGS_F, &F_TSETTINGS),
        (SQUAWKS_F, &F_SQUAWKS),
    ];
    for _ in 0..if s.chance(2, 3) { 1 } else { s.us(2, 3) } {
        let (name, f) = list[s.weighted(&[6, 6, 3, 2, 1, 1, 1, 4, 6, 2, 4, 2])];
        let old = w.files[name].clone();
        let new = mutate(s, &old, f);
        w.set(name, new);
    }
    c.input = keep(&w);
    let dir = w.write(&c.scratch);
    let p = dir.join(PRF_F);
    let prf = Prf::parse(&p, &std::fs::read(&p).expect("profile")).map_err(|e| Fail::from(format!("profile: {e}")))?;
    let Ok(a) = no_panic("Adaptation::from_prf", || Adaptation::from_prf(&prf))? else {
        return Ok(());
    };
    c.nontrivial = true;
    let text = no_panic("export", || serde_json::to_string(&a))?.map_err(|e| Fail::from(format!("export: {e}")))?;
    let b: Adaptation = no_panic("import", || serde_json::from_str(&text))?.map_err(|e| Fail::from(format!("import: {e}")))?;
    same(&b, &a, "export and import")?;
    if s.chance(1, 4) {
        let o = c.scratch.join("empty.jsonnet");
        std::fs::write(&o, "{}").expect("scratch");
        let b = apply(&a, &[o])?.map_err(|e| Fail::from(format!("an empty overlay: {e}")))?;
        same(&b, &a, "an empty overlay")?;
    }
    Ok(())
}

/// Writes overlays and applies them.
fn apply(a: &Adaptation, paths: &[PathBuf]) -> Result<Result<Adaptation, String>, Fail> {
    no_panic("apply_jsonnet_overlays", || a.clone().apply_jsonnet_overlays(paths.iter()).map_err(|e| e.to_string()))
}

fn overlay_dir(c: &Case) -> PathBuf {
    let d = c.scratch.join("overlays");
    std::fs::remove_dir_all(&d).ok();
    std::fs::create_dir_all(d.join("sub")).expect("scratch");
    d
}

fn overlay_path(s: &mut Src, c: &mut Case, dir: &Path, i: usize, text: &str) -> PathBuf {
    let n = match s.weighted(&[4, 1]) {
        0 => format!("o{i}.jsonnet"),
        _ => {
            c.label("unusual file name");
            format!("{}{i}{}", s.pick(&["a b", "it's", "\"q\"", "ü€", "x\\y", "$(x)", "%", "a\nb", "\u{1}"]), s.pick(&[".jsonnet", "", ".json"]))
        }
    };
    let p = dir.join(n);
    std::fs::write(&p, text).expect("scratch");
    if s.chance(1, 5) {
        // relative to the working directory
        c.label("relative path");
        let up = "../".repeat(std::env::current_dir().unwrap().components().count() - 1);
        let abs = p.canonicalize().unwrap();
        return PathBuf::from(format!("{up}{}", abs.to_str().unwrap().trim_start_matches('/')));
    }
    p
}

/// An adaptation to lay something over: small or rich.
fn base(s: &mut Src, c: &mut Case) -> Result<Adaptation, Fail> {
    if s.chance(1, 3) {
        let w = rich(s);
        c.input = keep(&w);
        let mut a = load(&w, &c.scratch)?;
        times(s, &mut a);
        return Ok(a);
    }
    let mut a = load(&World::seed(), &c.scratch)?;
    times(s, &mut a);
    c.input = format!("the seed profile and {:?}\n", serde_json::to_string(&a.settings.coordination.fir_overrides).unwrap().len());
    Ok(a)
}

fn identity(s: &mut Src, c: &mut Case) -> Res {
    let a = base(s, c)?;
    let none: [PathBuf; 0] = [];
    let b = apply(&a, &none)?.map_err(|e| Fail::from(format!("no overlay: {e}")))?;
    same(&b, &a, "no overlay")?;
    same_answers(s, &b, &a)?;
    let dir = overlay_dir(c);
    let mut paths = vec![];
    for i in 0..s.us(1, 4) {
        let t = *s.pick(&[
            "{}",
            " {\n}\n",
            "// nothing\n{ /* nothing */ }",
            "# nothing\n{ local x = 1 }",
            "{ settings+: {} }",
            "{ settings+: { track+: {} }, sectors+: {}, }",
            "local x = {}; x",
            "{ name: super.name }",
            "{ hidden:: 1, assert self.hidden == 1 }",
            "{ [if false then 'name']: 'other' }",
            "(function(x) { [if x then 'name']: 'y' })(false)",
        ]);
        c.input += &format!("overlay {t}\n");
        paths.push(overlay_path(s, c, &dir, i, t));
    }
    let b = apply(&a, &paths)?.map_err(|e| Fail::from(format!("overlays of nothing: {e}")))?;
    same(&b, &a, "overlays of nothing")?;
    same_answers(s, &b, &a)?;
    c.nontrivial = count(&a) >= 5;
    Ok(())
}

/// A way down through objects.
fn way(s: &mut Src, v: &Value) -> Vec<String> {
    let mut at = v;
    let mut out: Vec<String> = vec![];
    loop {
        let Some(m) = at.as_object().filter(|m| !m.is_empty()) else { return out };
        let keys: Vec<&String> = m.keys().collect();
        let k = match s.weighted(&[1, 3]) {
            // large parts make for many names of the same kind
            0 => *s.pick(&keys),
            _ => *keys.iter().filter(|k| m[**k].as_object().is_some_and(|x| !x.is_empty())).collect::<Vec<_>>().get(s.idx(keys.len())).copied().unwrap_or(&keys[s.idx(keys.len())]),
        };
        out.push(k.clone());
        at = &m[k];
        if out.len() >= 2 && s.chance(1, 8) {
            return out;
        }
    }
}

fn at<'a>(v: &'a Value, path: &[String]) -> &'a Value {
    path.iter().fold(v, |v, k| &v[k])
}

fn set(v: &mut Value, path: &[String], x: Value) {
    match path {
        [] => *v = x,
        [k, rest @ ..] => set(v.as_object_mut().expect("object").entry(k.clone()).or_insert(Value::Null), rest, x),
    }
}

/// The text of an overlay that changes one thing.
fn nest(s: &mut Src, path: &[String], leaf: &str) -> String {
    let mut t = leaf.to_string();
    for (i, k) in path.iter().enumerate().rev() {
        let plain = !k.is_empty() && k.chars().all(|c| c.is_ascii_lowercase() || c == '_') && !["local", "function", "if", "then", "else", "for", "in", "self", "super", "null", "true", "false", "error", "assert", "import", "importstr", "importbin", "tailstrict"].contains(&k.as_str());
        let name = match s.weighted(&[2, 1, 1]) {
            _ if plain && s.bool() => k.clone(),
            0 => serde_json::to_string(k).unwrap(),
            1 => format!("[{}]", serde_json::to_string(k).unwrap()),
            _ if !k.contains(['\'', '\\', '\n']) && k.chars().all(|c| c >= ' ') => format!("'{k}'"),
            _ => serde_json::to_string(k).unwrap(),
        };
        let colon = if i + 1 == path.len() { "" } else { "+" };
        t = format!("{{ {name}{colon}: {t} }}");
    }
    t
}

/// One change: its text and what it makes of the value.
fn change(s: &mut Src, c: &mut Case, v: &mut Value) -> String {
    if s.chance(1, 10) {
        // several members named at once
        let n = s.word(1, 8, "abc äß");
        v["name"] = json!(n);
        let on = s.bool();
        v["settings"]["coopans"] = json!(on);
        v["settings"]["coordination"]["lam_timeout"] = json!(7.5);
        c.label("several fields");
        return format!(
            "{{ name: {}, settings+: {{ coopans: {on}, coordination+: {{ lam_timeout: 7 + 1 / 2 }} }} }}",
            serde_json::to_string(&n).unwrap()
        );
    }
    let mut path = way(s, v);
    let old = at(v, &path).clone();
    if path.len() >= 2 && old.is_object() && s.chance(1, 2) {
        // another member like this one
        let parent = path[..path.len() - 1].to_vec();
        let n = s.pick(&["NEW", "new member", "ü\"x\"", "0", "super", "it's"]).to_string();
        if at(v, &parent).get(&n).is_none() {
            path = parent;
            path.push(n);
            set(v, &path, old.clone());
            c.label("new member");
            return nest(s, &path, &old.to_string());
        }
    }
    let (leaf, new) = match &old {
        Value::Bool(b) => match s.draw(3) {
            0 => ("!super.KEY".to_string(), json!(!b)),
            1 => (format!("{}", !b), json!(!b)),
            _ => (format!("1 == {}", i32::from(!*b)), json!(!b)),
        },
        Value::Number(n) => {
            let f = n.as_f64().unwrap();
            let whole = n.is_u64() || n.is_i64();
            match s.draw(3) {
                0 => ("super.KEY * 2".to_string(), json!(f * 2.0)),
                1 => ("super.KEY + 1".to_string(), json!(f + 1.0)),
                _ => {
                    let x = s.int(0, 100);
                    let x = if whole { x as f64 } else { x as f64 + *s.pick(&[0.0, 0.5, 0.125]) };
                    (format!("{x}"), json!(x))
                }
            }
        }
        Value::String(x) => match s.draw(3) {
            0 => ("super.KEY + 'x'".to_string(), json!(format!("{x}x"))),
            1 => ("'<%s>' + super.KEY".to_string(), json!(format!("<%s>{x}"))),
            _ => {
                let n = s.pick(&["", "other", "ü€ \"q\" \\ /", "line\nbreak", "'", "%s", "EDDM", "\u{1}\u{7f}", "😀"]).to_string();
                (serde_json::to_string(&n).unwrap(), json!(n))
            }
        },
        Value::Array(x) => match s.draw(4) {
            0 => ("[]".to_string(), json!([])),
            1 => ("super.KEY + super.KEY".to_string(), Value::Array(x.iter().chain(x).cloned().collect())),
            2 if !x.is_empty() => ("[super.KEY[0]]".to_string(), json!([x[0]])),
            _ => ("[x for x in super.KEY]".to_string(), old.clone()),
        },
        Value::Null => match s.draw(4) {
            0 => ("null".to_string(), Value::Null),
            1 => ("12".to_string(), json!(12)),
            2 => ("\"text\"".to_string(), json!("text")),
            _ => ("{}".to_string(), json!({})),
        },
        Value::Object(m) => match s.draw(3) {
            0 => ("{}".to_string(), json!({})),
            1 => (old.to_string(), old.clone()),
            _ => match m.keys().next().cloned() {
                Some(k) => {
                    let mut n = m.clone();
                    n.remove(&k);
                    let (q, l) = (serde_json::to_string(&k).unwrap(), json!(m.keys().collect::<Vec<_>>()));
                    (format!("local x = super.KEY; {{ [k]: x[k] for k in {l} if k != {q} }}"), Value::Object(n))
                }
                None => ("{}".to_string(), json!({})),
            },
        },
    };
    c.label(match &old {
        Value::Bool(_) => "truth value",
        Value::Number(_) => "number",
        Value::String(_) => "text",
        Value::Array(_) => "list",
        Value::Null => "nothing",
        Value::Object(_) => "object",
    });
    set(v, &path, new);
    let key = path.last().map(|k| serde_json::to_string(k).unwrap()).unwrap_or_default();
    let leaf = leaf.replace("super.KEY", &format!("super[{key}]"));
    nest(s, &path, &leaf)
}

/// Numbers that are whole are written as such, as an overlay would.
fn whole(v: Value) -> Value {
    match v {
        Value::Number(n) => match n.as_f64() {
            Some(f) if f.fract() == 0.0 && f.abs() < 9e15 => json!(f as i64),
            _ => Value::Number(n),
        },
        Value::Array(l) => Value::Array(l.into_iter().map(whole).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, whole(v))).collect()),
        v => v,
    }
}

fn overlay(s: &mut Src, c: &mut Case) -> Res {
    let a = base(s, c)?;
    let before = serde_json::to_value(&a).expect("JSON");
    let mut v = before.clone();
    let dir = overlay_dir(c);
    let mut paths = vec![];
    for i in 0..s.us(1, 4) {
        let t = change(s, c, &mut v);
        let t = match s.weighted(&[6, 1, 1]) {
            0 => t,
            1 => format!("// an overlay\nlocal none = {{}};\n{t} + none\n"),
            _ => {
                // by way of another file beside it
                c.label("import");
                let n = format!("part{i}.libsonnet");
                std::fs::write(dir.join("sub").join(&n), &t).expect("scratch");
                c.input += &format!("sub/{n}: {t}\n");
                format!("import 'sub/{n}'")
            }
        };
        c.input += &format!("overlay {t}\n");
        paths.push(overlay_path(s, c, &dir, i, &t));
    }
    let want: Result<Adaptation, _> = serde_json::from_value(whole(v.clone()));
    let got = apply(&a, &paths)?;
    match (got, want) {
        (Ok(got), Ok(want)) => {
            c.nontrivial = v != before;
            same(&got, &want, "overlays")?;
            let mut want = want;
            want.rebuild_sector_index();
            same_answers(s, &got, &want)
        }
        (Err(_), Err(_)) => {
            c.label("refused");
            Ok(())
        }
        (Ok(_), Err(e)) => Err(Fail::from(format!("overlays that make no adaptation are accepted ({e})"))),
        (Err(e), Ok(_)) => Err(Fail::from(format!("overlays: {e}"))),
    }
}

/// Overlays that name fields, whose values are then read from the adaptation itself.
fn fields(s: &mut Src, c: &mut Case) -> Res {
    let a = load(&World::seed(), &c.scratch)?;
    let mut want = a.clone();
    let dir = overlay_dir(c);
    let mut paths = vec![];
    for i in 0..s.us(1, 5) {
        let n = s.int(0, 60_000);
        let word = s.word(1, 6, "abcXYZ ü-");
        let w = serde_json::to_string(&word).unwrap();
        let t = match s.draw(12) {
            0 => {
                want.name = word.clone();
                format!("{{ name: {w} }}")
            }
            1 => {
                let mut ids: Vec<String> = want.positions.keys().cloned().collect();
                ids.sort();
                let id = s.pick(&ids).clone();
                want.positions.get_mut(&id).unwrap().frequency = word.clone();
                format!("{{ positions+: {{ {}+: {{ frequency: {w} }} }} }}", serde_json::to_string(&id).unwrap())
            }
            2 => {
                let mut ids: Vec<String> = want.volumes.keys().cloned().collect();
                ids.sort();
                let id = s.pick(&ids).clone();
                want.volumes.get_mut(&id).unwrap().upper_level = n as u32;
                format!("{{ volumes+: {{ {}+: {{ upper_level: {n} }} }} }}", serde_json::to_string(&id).unwrap())
            }
            3 => {
                want.settings.coopans = !want.settings.coopans;
                "{ settings+: { coopans: !super.coopans } }".into()
            }
            4 => {
                want.settings.coordination.act_time = Time::new::<second>(n as f32);
                format!("{{ settings+: {{ coordination+: {{ act_time: {n} }} }} }}")
            }
            5 => {
                let t = CoordinationTiming { act_time: Some(Time::new::<second>(n as f32)), ..Default::default() };
                want.settings.coordination.fir_overrides.insert(word.clone(), t);
                format!("{{ settings+: {{ coordination+: {{ fir_overrides+: {{ {w}: {{ act_time: {n} }} }} }} }} }}")
            }
            6 => {
                let mut al = want.airlines.values().next().ok_or("no airline")?.clone();
                al.designator = word.clone();
                al.name = format!("{n}");
                let t = format!("{{ airlines+: {{ {w}: {} }} }}", serde_json::to_string(&al).unwrap());
                want.airlines.insert(word.clone(), al);
                t
            }
            7 => {
                want.settings.ssr.special_use_codes.insert("7000".into(), word.clone());
                format!("{{ settings+: {{ ssr+: {{ special_use_codes+: {{ '7000': {w} }} }} }} }}")
            }
            8 => {
                want.settings.asr_files = vec![PathBuf::from(&word)];
                format!("{{ settings+: {{ asr_files: [{w}] }} }}")
            }
            9 => {
                let mut ids: Vec<String> = want.sectors.keys().cloned().collect();
                ids.sort();
                let id = s.pick(&ids).clone();
                let x = want.sectors.0.get_mut(&id).unwrap();
                x.position_priority.push(word.clone());
                format!("{{ sectors+: {{ {}+: {{ position_priority+: [{w}] }} }} }}", serde_json::to_string(&id).unwrap())
            }
            10 => {
                want.line_styles.insert(word.clone(), None);
                format!("{{ line_styles+: {{ {w}: null }} }}")
            }
            _ => {
                want.sectors.0.clear();
                "{ sectors: {} }".into()
            }
        };
        c.input += &format!("overlay {t}\n");
        paths.push(overlay_path(s, c, &dir, i, &t));
        if want.sectors.is_empty() {
            break;
        }
    }
    c.nontrivial = true;
    want.rebuild_sector_index();
    let got = if s.bool() {
        apply(&a, &paths)?.map_err(|e| Fail::from(format!("overlays: {e}")))?
    } else {
        // by way of adaptation.toml
        c.label("adaptation.toml");
        let world = c.scratch.join("world");
        let list: Vec<Value> = paths.iter().map(|p| json!(p.canonicalize().unwrap())).collect();
        let quoted: Vec<String> = list.iter().map(|p| toml_text(p.as_str().unwrap())).collect();
        let toml = world.join("all.toml");
        std::fs::write(&toml, format!("prf = 'x.prf'\noverlays = [{}]\n", quoted.join(", "))).expect("scratch");
        no_panic("from_adaptation_toml", || Adaptation::from_adaptation_toml(&toml))?.map_err(|e| Fail::from(format!("adaptation.toml: {e}")))?
    };
    same(&got, &want, "named fields")?;
    same_answers(s, &got, &want)
}

/// The overlays of a list are applied one after the other, each as often as it is listed.
fn sequence(s: &mut Src, c: &mut Case) -> Res {
    let a = load(&World::seed(), &c.scratch)?;
    let dir = overlay_dir(c);
    let ids = {
        let mut ids: Vec<String> = a.sectors.keys().cloned().collect();
        ids.sort();
        ids
    };
    // what the overlays do, by number
    #[derive(Clone, Debug)]
    enum Op {
        Name(String),
        Append(String),
        Level(u32),
        Raise(u32),
        Owner(String, String),
        Owners(String, String),
        Code(String),
        NoCodes,
        Coopans,
    }
    let ops: Vec<Op> = s.vec(2, 4, |s| match s.draw(9) {
        0 => Op::Name(s.pick(&["A", "B", "other"]).to_string()),
        1 => Op::Append(s.pick(&["x", "y"]).to_string()),
        2 => Op::Level(s.int(0, 9) as u32),
        3 => Op::Raise(s.int(1, 9) as u32),
        4 => Op::Owner(s.pick(&ids).clone(), s.pick(&["P", "Q"]).to_string()),
        5 => Op::Owners(s.pick(&ids).clone(), s.pick(&["P", "Q"]).to_string()),
        6 => Op::Code(s.pick(&["m", "n"]).to_string()),
        7 => Op::NoCodes,
        _ => Op::Coopans,
    });
    let mut paths = vec![];
    for (i, op) in ops.iter().enumerate() {
        let vol = a.volumes.keys().min().ok_or("no volume")?;
        let t = match op {
            Op::Name(w) => format!("{{ name: '{w}' }}"),
            Op::Append(w) => format!("{{ name+: '{w}' }}"),
            Op::Level(n) => format!("{{ volumes+: {{ '{vol}'+: {{ upper_level: {n} }} }} }}"),
            Op::Raise(n) => format!("{{ volumes+: {{ '{vol}'+: {{ upper_level+: {n} }} }} }}"),
            Op::Owner(k, w) => format!("{{ sectors+: {{ '{k}'+: {{ position_priority: ['{w}'] }} }} }}"),
            Op::Owners(k, w) => format!("{{ sectors+: {{ '{k}'+: {{ position_priority+: ['{w}'] }} }} }}"),
            Op::Code(w) => format!("{{ settings+: {{ ssr+: {{ special_use_codes+: {{ '7000': '{w}' }} }} }} }}"),
            Op::NoCodes => "{ settings+: { ssr+: { special_use_codes: {} } } }".into(),
            Op::Coopans => "{ settings+: { coopans: !super.coopans } }".into(),
        };
        c.input += &format!("overlay {i}: {t}\n");
        paths.push(overlay_path(s, c, &dir, i, &t));
    }
    let order: Vec<usize> = s.vec(1, 7, |s| s.idx(ops.len()));
    c.input += &format!("order {order:?}\n");
    if (0..order.len()).any(|i| order[..i].contains(&order[i])) {
        c.label("listed again");
    }
    let mut want = a.clone();
    for i in &order {
        match ops[*i].clone() {
            Op::Name(w) => want.name = w,
            Op::Append(w) => want.name += &w,
            Op::Level(n) => want.volumes.iter_mut().min_by_key(|(k, _)| k.to_string()).unwrap().1.upper_level = n,
            Op::Raise(n) => want.volumes.iter_mut().min_by_key(|(k, _)| k.to_string()).unwrap().1.upper_level += n,
            Op::Owner(k, w) => want.sectors.0.get_mut(&k).unwrap().position_priority = vec![w],
            Op::Owners(k, w) => want.sectors.0.get_mut(&k).unwrap().position_priority.push(w),
            Op::Code(w) => {
                want.settings.ssr.special_use_codes.insert("7000".into(), w);
            }
            Op::NoCodes => want.settings.ssr.special_use_codes.clear(),
            Op::Coopans => want.settings.coopans = !want.settings.coopans,
        }
    }
    let paths: Vec<PathBuf> = order.iter().map(|i| paths[*i].clone()).collect();
    c.nontrivial = order.len() >= 2;
    want.rebuild_sector_index();
    let got = if s.bool() {
        apply(&a, &paths)?.map_err(|e| Fail::from(format!("overlays: {e}")))?
    } else {
        c.label("adaptation.toml");
        let quoted: Vec<String> = paths.iter().map(|p| toml_text(p.canonicalize().unwrap().to_str().unwrap())).collect();
        let toml = c.scratch.join("world").join("all.toml");
        std::fs::write(&toml, format!("prf = 'x.prf'\noverlays = [{}]\n", quoted.join(", "))).expect("scratch");
        no_panic("from_adaptation_toml", || Adaptation::from_adaptation_toml(&toml))?.map_err(|e| Fail::from(format!("adaptation.toml: {e}")))?
    };
    same(&got, &want, "overlays in sequence")?;
    same_answers(s, &got, &want)
}

fn toml_text(t: &str) -> String {
    let mut out = String::from("\"");
    for ch in t.chars() {
        match ch {
            '"' | '\\' => {
                out.push('\\');
                out.push(ch);
            }
            ch if (ch as u32) < 0x20 || ch == '\u{7f}' => out += &format!("\\u{:04X}", ch as u32),
            ch => out.push(ch),
        }
    }
    out + "\""
}

fn failing(s: &mut Src, c: &mut Case) -> Res {
    let a = load(&World::seed(), &c.scratch)?;
    let dir = overlay_dir(c);
    let (what, text) = match s.draw(8) {
        0 => (
            "syntax",
            s.pick(&["{", "{ name: }", "", "}", "{ a: 1 b: 2 }", "{ name: \"x }", "local x = 1;", "{ 'a': 1, 'a': 2 }", "\u{0}", "{ name: 'x' } }", "/* {}"]).to_string(),
        ),
        1 => ("error", s.pick(&["error 'no'", "{ name: error 'no' }", "{ assert false }", "{ name: 1 / 0 }", "{ name: 'a' + undefined }", "assert 1 == 2; {}", "{ name: {}.x }", "{ name: [][0] }", "{ name: std.nope() }"]).to_string()),
        2 => (
            "type",
            s.pick(&[
                "{ name: 1 }",
                "{ name: null }",
                "{ name: {} }",
                "{ positions: [] }",
                "{ sectors: { X: 1 } }",
                "{ volumes+: { NEW: { id: 'NEW' } } }",
                "{ settings+: { coopans: 'yes' } }",
                "{ settings+: { coopans: 1 } }",
                "{ settings: {} }",
                "{ airlines+: { DLH: {} } }",
                "{ line_styles: 'x' }",
                "{ colours: null }",
                "{ aircraft: false }",
                "{ settings+: { coordination+: { act_time: '5' } } }",
                "{ settings+: { asr_files: 'x' } }",
                "{ volumes+: { NEW: { id: 'NEW', lower_level: -1, upper_level: 2, lateral_border: { exterior: [], interiors: [] }, private: null } } }",
                "{ settings+: { track: null } }",
                "{ departure_constraints: 5 }",
            ])
            .to_string(),
        ),
        3 => ("hidden", s.pick(&["{ name:: 'x' }", "{ settings:: {} }", "{ sectors:: super.sectors }"]).to_string()),
        4 => ("no object", s.pick(&["1", "true", "null", "[]", "[{}]", "'text'", "function(x) {}", "1.5"]).to_string()),
        5 => ("endless", s.pick(&["{ name: self.name }", "local f(x) = f(x + 1); { name: f(0) }", "{ a: self.b, b: self.a, name: self.a }", "local x = x; { name: x }", "{ settings+: { track: $.settings } }"]).to_string()),
        6 => ("import", "import 'nowhere.libsonnet'".to_string()),
        _ => ("itself", String::new()),
    };
    c.label(what);
    c.input = format!("{what}: {text}\n");
    let mut paths: Vec<PathBuf> = vec![];
    let before = s.us(0, 2);
    let after = s.us(0, 2);
    for i in 0..before {
        paths.push(overlay_path(s, c, &dir, i, "{ settings+: { coopans: true } }"));
    }
    let bad = match what {
        "itself" => {
            let p = dir.join("self.jsonnet");
            std::fs::write(&p, "(import 'self.jsonnet') + { name: 'x' }").expect("scratch");
            p
        }
        "import" => match s.draw(4) {
            0 => dir.join("missing.jsonnet"),
            1 => dir.join("sub"),
            2 => {
                let p = dir.join("bytes.jsonnet");
                std::fs::write(&p, [0xff, 0xfe, 0x7b]).expect("scratch");
                p
            }
            _ => overlay_path(s, c, &dir, 9, &text),
        },
        _ => overlay_path(s, c, &dir, 9, &text),
    };
    paths.push(bad);
    for i in 0..after {
        paths.push(overlay_path(s, c, &dir, 20 + i, "{ airlines+: {} }"));
    }
    c.input += &format!("{before} before, {after} after, {:?}", paths[before]);
    c.nontrivial = true;
    match apply(&a, &paths)? {
        Ok(_) => Err(Fail::from(format!("a failing overlay ({what}) is accepted: {text}"))),
        Err(e) => {
            ensure!(!e.trim().is_empty(), "an error that says nothing");
            Ok(())
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C24",
        rule: "the adaptation holds at least five fixes, positions, sectors, map folders and airlines (roundtrip, twice, identity); the overlays change something (overlay); at least two overlays are listed (sequence); always (fields, failing)",
        assumptions: &[
            "numbers in the files are finite, and numbers are compared to one part in 10^12 because serde_json reads them that exactly",
            "the order of maps and sets is not judged, nor the spatial index except by its answers",
            "what an overlay makes of the adaptation is what merging its objects by hand makes of the exported JSON; whether the result is an adaptation is asked of the same import that roundtrip judges",
        ],
        subs: vec![
            Sub { name: "roundtrip", quick: 2_500, thorough: 80_000, f: roundtrip },
            Sub { name: "unusual", quick: 4_000, thorough: 200_000, f: unusual },
            Sub { name: "twice", quick: 1_500, thorough: 40_000, f: twice },
            Sub { name: "identity", quick: 800, thorough: 20_000, f: identity },
            Sub { name: "sequence", quick: 1_000, thorough: 30_000, f: sequence },
            Sub { name: "overlay", quick: 2_000, thorough: 60_000, f: overlay },
            Sub { name: "fields", quick: 800, thorough: 20_000, f: fields },
            Sub { name: "failing", quick: 800, thorough: 20_000, f: failing },
        ],
        probes: vec![],
    }
}
