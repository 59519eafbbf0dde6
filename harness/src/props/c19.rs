//! TopSky folders parse to exactly the definitions they contain.
use crate::engine::*;
use crate::gen_sky::*;
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use vatsim_parser::topsky::Topsky;

fn write(sky: &Sky, c: &Case) -> std::path::PathBuf {
    let dir = c.scratch.join("topsky");
    std::fs::remove_dir_all(&dir).ok();
    std::fs::create_dir_all(&dir).expect("mkdir");
    std::fs::write(dir.join("TopSkyMaps.txt"), &sky.maps_text).expect("write");
    std::fs::write(dir.join("TopSkySettings.txt"), &sky.settings_text).expect("write");
    if let Some(t) = &sky.symbols_text {
        std::fs::write(dir.join("TopSkySymbols.txt"), t).expect("write");
    }
    dir
}

fn folder(s: &mut Src, c: &mut Case) -> Res {
    let rules = *s.pick(&[3, 10, 25]);
    let cfg = Cfg { rules, ..Cfg::default() };
    let sky = sky(s, &cfg);
    c.input = format!(
        "{}\n-- TopSkySettings.txt\n{}\n-- TopSkySymbols.txt\n{}",
        sky.maps_text,
        sky.settings_text,
        sky.symbols_text.as_deref().unwrap_or("(missing)")
    );
    c.nontrivial = sky.records >= 3;
    for (_, r) in &sky.maps {
        for l in canon(r) {
            let k = l.split([' ', '(']).next().unwrap_or("").to_string();
            c.label(k);
        }
    }
    let dir = write(&sky, c);
    let t = no_panic("Topsky::parse", || Topsky::parse(&dir))?.map_err(|e| Fail::from(format!("rejected: {e}")))?;

    let got: BTreeMap<_, _> = t.colours.iter().map(|(k, v)| (k.clone(), v.colour)).collect();
    ensure_eq!(got, sky.colours, "colours");
    for (k, v) in &t.colours {
        ensure_eq!(&v.name, k, "name of a colour");
    }
    let got: BTreeMap<_, _> = t.settings.0.clone().into_iter().collect();
    ensure_eq!(got, sky.settings, "settings");
    for (n, r) in &sky.symbols {
        let g = t.symbols.get(n).map(|x| &x.rules);
        ensure!(g == Some(r), "symbol {n} is {g:?}, written {r:?}");
    }
    ensure_eq!(t.symbols.len(), sky.symbols.len(), "number of symbols");
    for (k, v) in &t.symbols {
        ensure_eq!(&v.name, k, "name of a symbol");
    }
    let got: BTreeMap<_, _> = t
        .line_styles
        .iter()
        .map(|(k, v)| (k.clone(), (v.brush.clone(), v.hatch.clone(), v.dash_lengths.clone())))
        .collect();
    ensure_eq!(got, sky.line_styles, "line styles");
    ensure_eq!(t.overrides, sky.overrides, "overrides");
    let got: Vec<_> = t.maps.iter().map(|m| m.name.clone()).collect();
    let want: Vec<_> = sky.maps.iter().map(|m| m.0.clone()).collect();
    ensure_eq!(got, want, "maps");
    for (g, (n, w)) in t.maps.iter().zip(&sky.maps) {
        ensure_eq!(canon(&g.rules), canon(w), "rules of map {n}");
    }
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "the folder has at least three records",
        assumptions: &[
            "records the library recognises but does not represent (CIRCLE, FONTSTYLE, TEXTALIGN, SCTDATA, COORD_AF/HM/PBD, alignment suffixes, the dates of schedules) count as read when the rest is right",
            "comments stand on their own line or after a number, keyword or text element: a name runs to the end of its line",
            "overrides of the sector file stand before the first map",
        ],
        subs: vec![Sub { name: "folder", quick: 60_000, thorough: 1_500_000, f: folder }],
        probes: vec![],
    }
}
