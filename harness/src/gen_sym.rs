//! Symbol drawing scripts shared by symbology and TopSky files.
use crate::engine::Src;
use vatsim_parser::adaptation::symbols::SymbolRule;

/// A decimal number as a file may write it, and its value.
pub fn number(s: &mut Src) -> (String, f64) {
    let t = match s.weighted(&[6, 3, 1, 1, 1]) {
        0 => format!("{}", s.int(-20, 20)),
        1 => format!("{}.{}", s.int(-20, 20), s.word(1, 3, "0123456789")),
        2 => format!(".{}", s.word(1, 3, "0123456789")),
        3 => format!("+{:02}", s.int(0, 99)),
        _ => s.pick(&["-0", "0.0", "-0.5", "-.25", "007.50", "1000000"]).to_string(),
    };
    let v = t.parse().expect("number");
    (t, v)
}

pub fn angle(s: &mut Src) -> (String, i64) {
    let t = match s.weighted(&[4, 4, 1]) {
        0 => format!("{}", s.int(-360, 360)),
        1 => s.pick(&["0", "360", "-360", "90", "720", "+45", "-450", "0090", "359"]).to_string(),
        _ => s.word(8, 22, "0123456789"),
    };
    let v: i128 = t.parse().expect("angle");
    (t, (v % 360) as i64)
}

/// One drawing command: the words of its line and the rule it stands for.
fn command(s: &mut Src) -> (Vec<String>, SymbolRule) {
    let mut w: Vec<String> = vec![];
    let kind = s.weighted(&[4, 5, 2, 2, 2, 2, 2, 1, 1, 2, 2]);
    let num = |s: &mut Src, w: &mut Vec<String>| {
        let (t, v) = number(s);
        w.push(t);
        v
    };
    let ang = |s: &mut Src, w: &mut Vec<String>| {
        let (t, v) = angle(s);
        w.push(t);
        v
    };
    w.push(
        ["MOVETO", "LINETO", "SETPIXEL", "ARC", "ARC", "FILLARC", "FILLARC", "ELLIPSE", "ELLIPSE", "FILLRECT", "POLYGON"]
            [kind]
            .to_string(),
    );
    let p = (num(s, &mut w), num(s, &mut w));
    let rule = match kind {
        0 => SymbolRule::Move(p),
        1 => SymbolRule::Line(p),
        2 => SymbolRule::Pixel(p),
        3 => SymbolRule::Arc(p, num(s, &mut w), ang(s, &mut w), ang(s, &mut w)),
        4 | 6 => {
            let rx = num(s, &mut w);
            let ry = if s.chance(1, 4) {
                let t = w.last().unwrap().clone();
                w.push(t);
                rx
            } else {
                num(s, &mut w)
            };
            let (a, b) = (ang(s, &mut w), ang(s, &mut w));
            match (kind, rx == ry) {
                (4, true) => SymbolRule::Arc(p, rx, a, b),
                (4, false) => SymbolRule::EllipticArc(p, rx, ry, a, b),
                (_, true) => SymbolRule::FilledArc(p, rx, a, b),
                (_, false) => SymbolRule::FilledEllipticArc(p, rx, ry, a, b),
            }
        }
        5 => SymbolRule::FilledArc(p, num(s, &mut w), ang(s, &mut w), ang(s, &mut w)),
        7 => SymbolRule::FilledArc(p, num(s, &mut w), 0, 0),
        8 => SymbolRule::FilledEllipticArc(p, num(s, &mut w), num(s, &mut w), 0, 0),
        9 => {
            let q = (num(s, &mut w), num(s, &mut w));
            SymbolRule::Polygon(vec![p, (q.0, p.1), q, (p.0, q.1)])
        }
        _ => {
            let mut v = vec![p];
            for _ in 0..s.int(0, 5) {
                let q = (num(s, &mut w), num(s, &mut w));
                v.push(q);
            }
            SymbolRule::Polygon(v)
        }
    };
    (w, rule)
}

/// A script: its lines (without prefix) and the rules it stands for.
pub fn script(s: &mut Src, max: usize) -> (Vec<String>, Vec<SymbolRule>) {
    let mut lines = vec![];
    let mut rules = vec![];
    for _ in 0..s.int(1, max as i64) {
        let (w, r) = command(s);
        let style = s.idx(3);
        let mut l = String::new();
        for (i, t) in w.iter().enumerate() {
            if i > 0 {
                l.push(match style {
                    0 => ':',
                    1 => ' ',
                    _ => *s.pick(&[':', ' ']),
                });
            }
            l.push_str(t);
        }
        lines.push(l);
        rules.push(r);
    }
    (lines, rules)
}

/// Scripts are equal if the values are (0 and -0 too).
pub fn same(a: &[SymbolRule], b: &[SymbolRule]) -> bool {
    a == b
}
