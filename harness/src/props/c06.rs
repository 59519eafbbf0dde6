use crate::engine::*;
use crate::ensure;
use crate::gen::json_close;
use crate::gen_ese::*;
use vatsim_parser::ese::Ese;

fn compare(text: &str, m: &EseModel) -> Res {
    let got = no_panic("Ese::parse", || Ese::parse(text.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    json_close(&serde_json::to_value(&got).unwrap(), &serde_json::to_value(m.expected()).unwrap(), "ese").map_err(Fail::from)
}

fn stats(m: &EseModel, c: &mut Case) {
    let mut n = 0;
    let mut kinds = vec![];
    for x in &m.sections {
        let k = match x {
            Section::Positions(p) => {
                n += p.len();
                for p in p {
                    c.label(format!(
                        "position {} {} points",
                        match p.squawk {
                            Squawk::Range(..) => "with squawks",
                            Squawk::Empty => "without squawks",
                            Squawk::Huge => "with unfit squawks",
                        },
                        p.points.len()
                    ));
                }
                0
            }
            Section::Airspace(a) => {
                n += a.len();
                for a in a {
                    c.label(match a {
                        Air::Line { .. } => "sectorline",
                        Air::Circle { .. } => "circle",
                        Air::DisplayLine(_) => "display_sectorline",
                        Air::Sector { .. } => "sector",
                        Air::Cop { fir: false, .. } => "cop",
                        Air::Cop { .. } => "fir cop",
                        Air::Msaw { .. } => "msaw",
                    });
                }
                1
            }
            Section::SidsStars(p) => {
                n += p.len();
                c.label("procedures");
                2
            }
            Section::Other(..) => {
                c.label("other section");
                3
            }
        };
        if k < 3 && kinds.contains(&k) {
            c.label("repeated section");
        }
        kinds.push(k);
    }
    if m.expected().sectors.values().any(|s| s.border.len() > 1) {
        c.label("sector with resolved borders");
    }
    c.nontrivial = n >= 3;
}

fn fidelity(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts::default());
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// One section with more records.
fn one_section(s: &mut Src, c: &mut Case) -> Res {
    let o = Opts::default();
    let section = match s.draw(4) {
        0 => Section::Positions(s.vec(1, 12, |s| position(s, &o))),
        1 => Section::SidsStars(s.vec(1, 12, |s| procedure(s, &o))),
        2 => Section::Airspace(s.vec(1, 12, |s| air(s, &o))),
        _ => Section::Airspace(s.vec(1, 12, |s| Air::Cop { fir: s.bool(), c: constraint(s, &o) })),
    };
    let m = EseModel { sections: vec![section] };
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// Sectors and the lines they are made of, spread over sections in any order.
fn borders(s: &mut Src, c: &mut Case) -> Res {
    let o = Opts::default();
    let mut sections = vec![Section::Airspace(vec![]); s.us(1, 3)];
    for _ in 0..s.us(2, 10) {
        let a = if s.bool() {
            Air::Line { id: s.int(1, 5).to_string(), points: s.vec(0, 4, pt), displays: vec![] }
        } else {
            let mut settings = vec![Setting::Border(s.vec(1, 6, |s| s.int(1, 6).to_string()))];
            for _ in 0..s.us(0, 3) {
                settings.push(setting(s, &o));
            }
            s.shuffle(&mut settings);
            Air::Sector { id: sector_id(s), bottom: level(s), top: level(s), settings }
        };
        let i = s.idx(sections.len());
        if let Section::Airspace(v) = &mut sections[i] {
            v.push(a);
        }
    }
    let m = EseModel { sections };
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// Records and sections of real size.
fn long(s: &mut Src, c: &mut Case) -> Res {
    let (n, len) = *s.pick(&[(2, 600), (8, 120), (40, 30), (400, 4)]);
    let m = model(s, &Opts { max_recs: n, max_len: len, ..Opts::default() });
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// Comments, blank lines, indentation, line endings and ignored records change nothing.
fn layout_independent(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts::default());
    let plain = EseModel {
        sections: m
            .sections
            .iter()
            .filter_map(|x| match x {
                Section::Other(..) => None,
                Section::Airspace(a) => Some(Section::Airspace(
                    a.iter()
                        .filter(|a| !matches!(a, Air::Circle { .. } | Air::DisplayLine(_) | Air::Msaw { .. }))
                        .cloned()
                        .collect(),
                )),
                x => Some(x.clone()),
            })
            .collect(),
    };
    if plain.sections.is_empty() {
        return Ok(());
    }
    let plain = plain.render_with(s, &crate::gen::Layout { nl: "\n", comment: &[";"], noise: 0 });
    let noisy = m.render_with(s, &crate::gen::Layout { nl: "\r\n", comment: &[";"], noise: 3 });
    c.input = format!("{plain}\n======\n{noisy}");
    stats(&m, c);
    let a = Ese::parse(plain.as_bytes()).map_err(|e| Fail::from(format!("plain rejected: {e}")))?;
    let b = Ese::parse(noisy.as_bytes()).map_err(|e| Fail::from(format!("noisy rejected: {e}")))?;
    ensure!(a == b, "layout changed the result\n{a:?}\n{b:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "random ese files built from a record model (positions with and without squawk ranges and with 0-4 visibility points in either notation, sector lines with display lines, circles, sectors with every subsetting in any order and repetition, agreements with wildcards, MSAW, SIDs/STARs, unknown and repeated sections, comments behind any record, blank lines, indentation, LF/CRLF, missing final line break; sections of up to 800 records, lists of up to 600 names or points); non-trivial: at least 3 records. Oracle: the model's records as the expected Ese, floats to 1e-9",
        assumptions: &["texts contain no colon, semicolon, line break or surrounding blanks (they delimit fields)", "of repeated definitions (one identifier of a position, one sector id, one line id) the last counts; of repeated sector subsettings the first, except ACTIVE which accumulates"],
        subs: vec![
            Sub { name: "fidelity", quick: 14_000, thorough: 500_000, f: fidelity },
            Sub { name: "one_section", quick: 20_000, thorough: 700_000, f: one_section },
            Sub { name: "borders", quick: 10_000, thorough: 300_000, f: borders },
            Sub { name: "long", quick: 150, thorough: 5_000, f: long },
            Sub { name: "layout", quick: 8_000, thorough: 200_000, f: layout_independent },
        ],
        probes: vec![],
    }
}
