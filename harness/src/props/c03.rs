use crate::engine::*;
use crate::ensure;
use crate::gen_sct::*;
use serde_json::{json, Value};
use vatsim_parser::sct::Sct;

/// Coordinates as whole thousandths of a second, records of a section in any order.
fn canon(s: &Sct) -> Value {
    fn ms(v: &Value) -> Value {
        match v {
            Value::Number(n) => json!((n.as_f64().unwrap() * 3_600_000.0).round() as i64),
            Value::Array(a) => Value::Array(a.iter().map(ms).collect()),
            Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), ms(v))).collect()),
            v => v.clone(),
        }
    }
    let v = serde_json::to_value(s).unwrap();
    let mut out = serde_json::Map::new();
    for (k, v) in v.as_object().unwrap() {
        let v = match k.as_str() {
            "colours" => v.clone(),
            "info" => {
                let mut i = v.clone();
                i["centre_point"] = ms(&i["centre_point"]);
                i
            }
            _ => {
                let mut a: Vec<Value> = v.as_array().unwrap().iter().map(ms).collect();
                a.sort_by_key(Value::to_string);
                Value::Array(a)
            }
        };
        out.insert(k.clone(), v);
    }
    Value::Object(out)
}

fn diff(a: &Value, b: &Value) -> String {
    for (k, v) in a.as_object().unwrap() {
        if b[k] != *v {
            if let (Some(x), Some(y)) = (v.as_array(), b[k].as_array()) {
                let lost: Vec<String> = x.iter().filter(|e| !y.contains(e)).map(Value::to_string).collect();
                let new: Vec<String> = y.iter().filter(|e| !x.contains(e)).map(Value::to_string).collect();
                return format!("{k}: {} records became {}\n  lost: {}\n  new:  {}", x.len(), y.len(), lost.join(" "), new.join(" "));
            }
            return format!("{k}: {v} became {}", b[k]);
        }
    }
    "".into()
}

fn round_trip(a: &Sct, c: &mut Case) -> Res {
    let text = no_panic("Sct to text", || a.to_string())?;
    c.input.push_str("\n====== written\n");
    c.input.push_str(&text);
    let b = no_panic("Sct::parse", || Sct::parse(text.as_bytes()))?;
    let b = b.map_err(|e| Fail::from(format!("the written text is rejected: {e}")))?;
    let (x, y) = (canon(a), canon(&b));
    ensure!(x == y, "{}", diff(&x, &y));
    // a line for each record and nothing besides
    let regions = a.regions.iter().map(|r| 1 + r.polygon.len()).sum();
    for (head, n) in [
        ("[VOR]", a.vors.len()), ("[NDB]", a.ndbs.len()), ("[FIXES]", a.fixes.len()), ("[AIRPORT]", a.airports.len()),
        ("[RUNWAY]", a.runways.len()), ("[LABELS]", a.labels.len()), ("[REGIONS]", regions),
    ] {
        let of = text.lines().skip_while(|l| *l != head).skip(1).take_while(|l| !l.starts_with('['));
        let of: Vec<&str> = of.filter(|l| !l.trim().is_empty()).collect();
        ensure!(of.len() == n, "{head} has {} lines for {n}: {of:?}", of.len());
    }
    let again = b.to_string();
    ensure!(again == text, "written again it differs:\n{again}");
    Ok(())
}

fn size(a: &Sct) -> usize {
    a.airports.len() + a.fixes.len() + a.ndbs.len() + a.vors.len() + a.runways.len() + a.sids.len()
        + a.stars.len() + a.artccs.len() + a.artccs_high.len() + a.artccs_low.len() + a.geo.len()
        + a.regions.len() + a.labels.len() + a.high_airways.len() + a.low_airways.len()
}

fn stats(a: &Sct, c: &mut Case) {
    c.nontrivial = size(a) >= 3;
    let groups = a.geo.iter().map(|g| &g.line_groups)
        .chain(a.sids.iter().map(|g| &g.line_groups))
        .chain(a.stars.iter().map(|g| &g.line_groups))
        .chain(a.artccs.iter().chain(&a.artccs_low).chain(&a.artccs_high).map(|g| &g.line_groups));
    for g in groups {
        if g.len() > 1 {
            c.label("several colours in a drawing");
        }
        if g.iter().any(|l| l.lines.len() > 1) {
            c.label("several lines of a colour");
        }
        if g.iter().any(|l| l.lines.iter().any(|l| l.points.len() == 1)) {
            c.label("line without length");
        }
    }
    if a.info.name.is_empty() {
        c.label("no INFO");
    }
}

fn files(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts::default());
    let text = m.render(s);
    c.input = text.clone();
    let a = Sct::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?;
    stats(&a, c);
    round_trip(&a, c)
}

fn one_section(s: &mut Src, c: &mut Case) -> Res {
    let k = *s.pick(&KINDS);
    let o = Opts::default();
    let mut m = model(s, &Opts { max_recs: 0, ..Opts::default() });
    m.parts.retain(|p| matches!(p, Part::Info(_)));
    let recs = s.vec(1, 10, |s| rec(s, k, &o));
    m.parts.push(Part::Section(k, recs));
    let text = m.render(s);
    c.input = text.clone();
    let a = Sct::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?;
    stats(&a, c);
    round_trip(&a, c)
}

fn long(s: &mut Src, c: &mut Case) -> Res {
    let (n, len) = *s.pick(&[(1, 400), (5, 100), (40, 20), (200, 2)]);
    let m = model(s, &Opts { max_recs: n, max_len: len, ..Opts::default() });
    let text = m.render(s);
    c.input = text.clone();
    let a = Sct::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?;
    stats(&a, c);
    round_trip(&a, c)
}

/// Coordinates between the thousandths of a second a file can carry.
fn fine_coordinates(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts { max_recs: 4, ..Opts::default() });
    let text = m.render(s);
    let mut a = Sct::parse(text.as_bytes()).map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let mut shift = |p: &mut geo::Point| {
        let d = |s: &mut Src| (s.int(-999, 999) as f64) * 1e-11;
        *p = geo::Point::new(p.x() + d(s), p.y() + d(s));
    };
    a.fixes.iter_mut().for_each(|f| shift(&mut f.coordinate));
    a.vors.iter_mut().for_each(|f| shift(&mut f.coordinate));
    a.ndbs.iter_mut().for_each(|f| shift(&mut f.coordinate));
    a.airports.iter_mut().for_each(|f| shift(&mut f.coordinate));
    for r in &mut a.runways {
        shift(&mut r.location.0);
        shift(&mut r.location.1);
    }
    shift(&mut a.info.centre_point);
    c.input = format!("{a:?}");
    stats(&a, c);
    if a.info.name.is_empty() {
        return Ok(());
    }
    round_trip(&a, c)
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "parsed random sector files (the C02 model: every section, drawings with several colours, lines without length, files without INFO), and ones with coordinates between thousandths of a second; non-trivial: at least 3 records. Oracle: parse(write(x)) has the same records (order within a section free, coordinates as integer arc-milliseconds) and write(parse(write(x))) is the same text",
        assumptions: &["the order of records within a section is not part of the property (the writer sorts)"],
        subs: vec![
            Sub { name: "files", quick: 10_000, thorough: 300_000, f: files },
            Sub { name: "one_section", quick: 15_000, thorough: 400_000, f: one_section },
            Sub { name: "long", quick: 120, thorough: 4_000, f: long },
            Sub { name: "fine_coordinates", quick: 8_000, thorough: 200_000, f: fine_coordinates },
        ],
        probes: vec![],
    }
}
