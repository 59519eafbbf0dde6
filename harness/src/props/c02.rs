use crate::engine::*;
use crate::gen::json_close;
use crate::gen_sct::*;
use crate::ensure;
use vatsim_parser::sct::Sct;

fn compare(text: &str, m: &SctModel) -> Res {
    let got = no_panic("Sct::parse", || Sct::parse(text.as_bytes()))?;
    let got = got.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let want = m.expected();
    json_close(&serde_json::to_value(&got).unwrap(), &serde_json::to_value(&want).unwrap(), "sct")
        .map_err(Fail::from)
}

fn stats(m: &SctModel, c: &mut Case) {
    let mut n = 0;
    let mut seen = vec![];
    for p in &m.parts {
        match p {
            Part::Section(k, r) => {
                n += r.len();
                if seen.contains(k) {
                    c.label("repeated-section");
                }
                seen.push(*k);
                for r in r {
                    c.label(match r {
                        Rec::Vor(..) => "vor",
                        Rec::Ndb(..) => "ndb",
                        Rec::Fix(..) => "fix",
                        Rec::Broken(..) => "broken",
                        Rec::Airport(..) => "airport",
                        Rec::Runway { .. } => "runway",
                        Rec::Airway(..) => "airway",
                        Rec::Drawing(..) => "drawing",
                        Rec::Region(..) => "region",
                        Rec::Label(..) => "label",
                        Rec::Colour(..) => "colour-in-section",
                    });
                }
            }
            Part::Info(_) => c.label("info"),
            Part::Colour(..) => c.label("colour"),
        }
    }
    c.nontrivial = n >= 3;
}

fn fidelity(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts::default());
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// One section only, more records: finds interactions between neighbouring records.
fn one_section(s: &mut Src, c: &mut Case) -> Res {
    let k = *s.pick(&KINDS);
    let o = Opts::default();
    let recs = s.vec(1, 12, |s| {
        if s.chance(1, 10) {
            Rec::Colour(colour_name(s), s.int(0, 0xff_ffff))
        } else {
            rec(s, k, &o)
        }
    });
    let m = SctModel { parts: vec![Part::Section(k, recs)] };
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// Records and sections of real size.
fn long(s: &mut Src, c: &mut Case) -> Res {
    let (n, len) = *s.pick(&[(1, 600), (5, 120), (40, 30), (400, 2)]);
    let m = model(s, &Opts { max_recs: n, max_len: len, ..Opts::default() });
    let text = m.render(s);
    c.input = text.clone();
    stats(&m, c);
    compare(&text, &m)
}

/// Inserting comment lines, blank lines and indentation changes nothing.
fn layout_independent(s: &mut Src, c: &mut Case) -> Res {
    let m = model(s, &Opts::default());
    let plain = m.render_with(s, &crate::gen::Layout { nl: "\n", comment: &[";"], noise: 0 });
    let noisy = m.render_with(s, &crate::gen::Layout { nl: "\n", comment: &[";", "//"], noise: 3 });
    c.input = format!("{plain}\n======\n{noisy}");
    stats(&m, c);
    let a = Sct::parse(plain.as_bytes()).map_err(|e| Fail::from(format!("plain rejected: {e}")))?;
    let b = Sct::parse(noisy.as_bytes()).map_err(|e| Fail::from(format!("noisy rejected: {e}")))?;
    ensure!(a == b, "layout changed the result\n{a:?}\n{b:?}");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "random sector files built from a record model (15 section kinds in any order, repeats, colour definitions anywhere, broken fix/NDB lines, comments, blank lines, LF/CRLF, BOM; sections of up to 400 records, drawings of up to 600 lines); non-trivial: at least 3 records. Oracle: the model's records as the expected Sct, floats to 1e-9",
        assumptions: &["free-text names avoid brackets, newlines, comment starts and a word that repeats the word before it (ambiguous in the format)"],
        subs: vec![
            Sub { name: "fidelity", quick: 12_000, thorough: 400_000, f: fidelity },
            Sub { name: "one_section", quick: 20_000, thorough: 600_000, f: one_section },
            Sub { name: "long", quick: 150, thorough: 5_000, f: long },
            Sub { name: "layout", quick: 6_000, thorough: 150_000, f: layout_independent },
        ],
        probes: vec![],
    }
}
