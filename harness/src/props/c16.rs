use crate::engine::*;
use crate::world::*;
use crate::{ensure, ensure_eq};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use vatsim_parser::adaptation::{Adaptation, AdaptationError, AdaptationSetup};
use vatsim_parser::prf::{Prf, PrfError};

/// Settings a profile refers to files with.
const REQUIRED: [(&str, &str); 7] = [
    ("sector", SCT_F),
    ("airways", AIRWAY_F),
    ("airportcoords", NAVDATA_F),
    ("airlines", AIRLINES_F),
    ("aircraft", AIRCRAFT_F),
    ("airports", AIRPORTS_F),
    ("SettingsfileSYMBOLOGY", SYMBOLOGY_F),
];

fn segment(s: &mut Src) -> String {
    match s.weighted(&[5, 2, 1]) {
        0 => s.pick(&["EDMM", "Settings", "NavData", "My Sector Files", "iCAS 2", "x", "ICAO", "Plugins", "TopSky"]).to_string(),
        1 => format!("a{}x", s.word(0, 6, "abcXYZ019_-.()& ")),
        _ => format!("ü{}", s.word(1, 4, "äöß·aA1")),
    }
}
fn file(s: &mut Src) -> String {
    let stem = segment(s);
    match s.weighted(&[5, 1, 1]) {
        0 => format!("{stem}.{}", s.pick(&["sct", "txt", "SCT", "asr"])),
        1 => format!("{stem}.2024-01.txt"),
        _ => stem,
    }
}

/// A path as profiles write it, and the same with plain separators.
fn written(s: &mut Src, name: Option<String>) -> (String, String, bool) {
    let mut segs: Vec<String> = vec![];
    let n = s.us(0, 4);
    for _ in 0..n {
        segs.push(match s.weighted(&[6, 1, 1]) {
            0 => segment(s),
            1 => "..".into(),
            _ => ".".into(),
        });
    }
    segs.push(match name {
        Some(n) => n,
        None => file(s),
    });
    let lead = s.chance(2, 3);
    let mut text = String::new();
    for (i, g) in segs.iter().enumerate() {
        if i > 0 || lead {
            text.push_str(if s.chance(1, 6) { "/" } else { "\\" });
        }
        text.push_str(g);
    }
    if s.chance(1, 8) {
        text.push_str(s.pick(&[" ", "\t", "  "]));
    }
    (text, segs.join("/"), lead)
}

#[derive(Clone, Debug)]
struct Entry {
    category: String,
    key: String,
    text: String,
    plain: String,
    lead: bool,
}

fn render(s: &mut Src, list: &[Entry]) -> String {
    let nl = if s.chance(1, 4) { "\r\n" } else { "\n" };
    let mut out = String::new();
    while s.chance(1, 10) {
        out.push_str(nl);
    }
    for (i, e) in list.iter().enumerate() {
        let sep = |s: &mut Src| *s.pick(&["\t", "\t", " ", "\t\t", "  "]);
        let (a, b) = (sep(s), sep(s));
        out += &format!("{}{a}{}{b}{}", e.category, e.key, e.text);
        if i + 1 < list.len() || s.chance(7, 8) {
            out += nl;
        }
        while s.chance(1, 12) {
            out += nl;
        }
    }
    out
}

/// Where an entry leads.
fn target(parent: &Path, e: &Entry) -> PathBuf {
    let base = if e.lead { parent.to_path_buf() } else { std::env::current_dir().unwrap() };
    PathBuf::from(format!("{}/{}", base.display(), e.plain))
}

fn paths(s: &mut Src, c: &mut Case) -> Res {
    // the profile's own folder
    let mut dir = c.scratch.clone();
    for _ in 0..s.us(0, 2) {
        dir.push(segment(s));
    }
    std::fs::create_dir_all(&dir).expect("scratch");
    let parent = dir.canonicalize().expect("scratch");
    let name = format!("{}.prf", s.pick(&["x", "iCAS 2", "a.b"]));
    let at = parent.join(&name);
    let mut list: Vec<Entry> = vec![];
    let add = |s: &mut Src, list: &mut Vec<Entry>, category: &str, key: &str, name: Option<String>| {
        let (text, plain, lead) = written(s, name);
        list.push(Entry { category: category.into(), key: key.into(), text, plain, lead });
    };
    for (k, _) in REQUIRED {
        if s.chance(5, 6) {
            add(s, &mut list, "Settings", k, None);
        }
        if s.chance(1, 8) {
            add(s, &mut list, "Settings", k, None);
        }
        // the same key elsewhere is another setting
        if s.chance(1, 12) {
            let category = *s.pick(&["LastSession", "Setting", "RecentFiles", "Settingsx"]);
            add(s, &mut list, category, k, None);
        }
    }
    for i in 0..s.draw(4) {
        let dll = match s.weighted(&[3, 3, 1, 1]) {
            0 => "TopSky.dll",
            1 => "Squawks.dll",
            2 => s.pick(&["TopSkyX.dll", "MyTopSky.dll", "TopSky.dll2", "topsky.dll", "TOPSKY.DLL", "TopSky", "TopSky.dll.bak"]),
            _ => s.pick(&["VCH.dll", "NoSquawks.dll", "squawks.dll", "Squawks.dl", "Squawks.dll.txt"]),
        };
        add(s, &mut list, "Plugins", &format!("Plugin{i}"), Some(dll.into()));
        if s.chance(1, 4) {
            list.push(Entry {
                category: "Plugins".into(),
                key: format!("Plugin{i}Display0"),
                text: "Standard ES radar screen".into(),
                plain: "Standard ES radar screen".into(),
                lead: false,
            });
        }
    }
    for _ in 0..s.draw(4) {
        let k = format!("Recent{}", s.pick(&[0, 1, 2, 3, 9, 10, 255]));
        add(s, &mut list, "RecentFiles", &k, None);
    }
    for _ in 0..s.draw(3) {
        let text = s.pick(&["EDMM_OBS", "1", "Max Mustermann", "", "129.100", "a=b;c", "x # y"]).to_string();
        list.push(Entry {
            category: s.pick(&["LastSession", "Settings", "TeamSpeakVccs", "Größe"]).to_string(),
            key: s.pick(&["callsign", "realname", "Ts3NickName", "proxy_1", "_x", "Höhe_2"]).to_string(),
            plain: text.clone(),
            text,
            lead: false,
        });
    }
    s.shuffle(&mut list);
    if list.is_empty() {
        return Ok(());
    }
    let text = render(s, &list);
    c.input = format!("{}\n{text}", at.strip_prefix(c.scratch.canonicalize().unwrap()).unwrap().display());
    std::fs::write(&at, &text).expect("scratch");
    // the profile may be named by a detour
    let by = match s.draw(3) {
        0 => at.clone(),
        1 => parent.join(".").join("..").join(parent.file_name().unwrap()).join(&name),
        _ => {
            let link = c.scratch.join("link.prf");
            std::fs::remove_file(&link).ok();
            std::os::unix::fs::symlink(&at, &link).expect("scratch");
            link
        }
    };
    let prf = no_panic("Prf::parse", || Prf::parse(&by, text.as_bytes()))?;
    let prf = prf.map_err(|e| Fail::from(format!("rejected: {e}")))?;
    let mut last: BTreeMap<(String, String), Entry> = BTreeMap::new();
    for e in &list {
        last.insert((e.category.clone(), e.key.clone()), e.clone());
    }
    if last.len() < list.len() {
        c.label("repeated entry");
    }
    // each entry is there with its value as written
    let json = serde_json::to_value(&prf).expect("JSON");
    let kept = json["settings"].as_object().ok_or_else(|| Fail::from("no settings in the profile's JSON"))?;
    for e in last.values() {
        let k = format!("{}:{}", e.category, e.key);
        let got = kept.get(&k).and_then(|v| v.as_str()).map(str::trim);
        ensure!(got == Some(e.text.trim()), "setting {k} is {got:?}, written {:?}", e.text);
    }
    ensure_eq!(kept.len(), last.len(), "number of settings");
    let of = |k: &str| last.get(&("Settings".to_string(), k.to_string())).map(|e| target(&parent, e));
    type Get = fn(&Prf) -> PathBuf;
    let getters: [(&str, Get); 9] = [
        ("sector", Prf::sct_path),
        ("sector ", Prf::ese_path),
        ("airways", Prf::airways_path),
        ("airways ", Prf::isec_path),
        ("airportcoords", Prf::navdata_airports_path),
        ("airlines", Prf::airlines_path),
        ("aircraft", Prf::aircraft_path),
        ("airports", Prf::airports_path),
        ("SettingsfileSYMBOLOGY", Prf::symbology_path),
    ];
    let mut n = 0;
    for (k, get) in getters {
        let Some(mut want) = of(k.trim_end()) else { continue };
        if k == "sector " {
            let name = want.file_name().unwrap().to_str().unwrap().to_string();
            let stem = name.rfind('.').filter(|i| *i > 0).map_or(name.as_str(), |i| &name[..i]);
            want = want.parent().unwrap().join(format!("{stem}.ese"));
        } else if k == "airways " {
            want = want.parent().unwrap().join("isec.txt");
        }
        let got = no_panic(k, || get(&prf))?;
        ensure!(got == want, "{k} leads to {got:?}, expected {want:?}");
        n += 1;
    }
    for i in 0..=255u8 {
        let want = last.get(&("RecentFiles".to_string(), format!("Recent{i}"))).map(|e| target(&parent, e));
        let got = no_panic("recent_path", || prf.recent_path(i))?;
        ensure!(got == want, "Recent{i} leads to {got:?}, expected {want:?}");
    }
    // plugin folders
    type Find = fn(&Prf) -> Option<PathBuf>;
    let plugins: [(&str, &str, Find); 2] =
        [("TopSky.dll", "", Prf::topsky_path), ("Squawks.dll", "squawks.json", Prf::squawks_path)];
    for (dll, f, get) in plugins {
        let want: Vec<PathBuf> = last
            .values()
            .filter(|e| e.plain.rsplit('/').next() == Some(dll))
            .map(|e| {
                let d = target(&parent, e).parent().unwrap().to_path_buf();
                if f.is_empty() {
                    d
                } else {
                    d.join(f)
                }
            })
            .collect();
        let got = no_panic(dll, || get(&prf))?;
        match &got {
            None => ensure!(want.is_empty(), "{dll} not found, it is at {want:?}"),
            Some(p) => ensure!(want.contains(p), "{dll} found at {p:?}, it is at {want:?}"),
        }
        match want.len() {
            0 => {}
            1 => c.label("plugin"),
            _ => {
                c.label("several plugins of one name");
                for _ in 0..6 {
                    let again = Prf::parse(&by, text.as_bytes()).map_err(|e| Fail::from(e.to_string()))?;
                    ensure_eq!(get(&again), got, "{dll} at another reading");
                }
            }
        }
    }
    c.nontrivial = n >= 3;
    Ok(())
}

/// The seed adaptation spread over folders, all of its files found through the profile.
fn layout(s: &mut Src, c: &mut Case) -> Res {
    let seed = World::seed();
    let root = c.scratch.join("layout");
    std::fs::remove_dir_all(&root).ok();
    let folder = |s: &mut Src| -> String {
        let n = s.us(0, 3);
        s.vec(n, n, segment).join("/")
    };
    let home = root.join("h").join(folder(s));
    std::fs::create_dir_all(&home).expect("scratch");
    let parent = home.canonicalize().unwrap();
    let cwd = std::env::current_dir().unwrap();
    let up = "../".repeat(cwd.components().count() - 1);
    let mut entries: Vec<(String, String, String)> = vec![];
    let mut used: Vec<PathBuf> = vec![];
    let place = |s: &mut Src, used: &mut Vec<PathBuf>, name: &str| loop {
        // below the profile, beside it, or relative to the working directory
        let d = folder(s);
        let rel = if s.chance(1, 4) { format!("../side/{d}/{name}") } else { format!("{d}/{name}") };
        let rel = rel.replace("//", "/").trim_start_matches('/').to_string();
        let (rel, text) = if s.chance(1, 4) {
            let abs = parent.join(&rel);
            (abs.clone(), format!("{up}{}", abs.to_str().unwrap().trim_start_matches('/')))
        } else {
            (parent.join(&rel), format!("/{}", rel.trim_start_matches('/')))
        };
        if !used.contains(&rel) {
            used.push(rel.clone());
            return (rel, text.replace("//", "/"));
        }
    };
    let put = |p: &Path, f: &str| {
        std::fs::create_dir_all(p.parent().unwrap()).expect("scratch");
        std::fs::write(p, &seed.files[f]).expect("scratch");
    };
    for (k, f) in REQUIRED {
        let name = if s.bool() { Path::new(f).file_name().unwrap().to_str().unwrap().to_string() } else { format!("{k}{}.txt", s.int(0, 9)) };
        let (p, text) = place(s, &mut used, &name);
        put(&p, f);
        if k == "sector" {
            put(&p.with_extension("ese"), ESE_F);
        }
        entries.push(("Settings".into(), k.into(), text));
    }
    let dll = |s: &mut Src, used: &mut Vec<PathBuf>, i: u64, name: &str, files: &[&str], entries: &mut Vec<_>| {
        let (p, text) = place(s, used, name);
        for f in files {
            put(&p.with_file_name(Path::new(f).file_name().unwrap()), f);
        }
        entries.push(("Plugins".to_string(), format!("Plugin{i}"), text));
    };
    dll(s, &mut used, 0, "TopSky.dll", &[MAPS_F, TSYMBOLS_F, TSETTINGS_F], &mut entries);
    dll(s, &mut used, 1, "Squawks.dll", &[SQUAWKS_F], &mut entries);
    // other plugins, with files that are not theirs to give
    for (i, name) in [(7, "MyTopSky.dll"), (8, "NoSquawks.dll"), (9, "TopSky.dll.bak")] {
        if s.chance(1, 3) {
            c.label("plugin of a similar name");
            let i = if s.bool() { i } else { i + 10 };
            dll(s, &mut used, i, name, &[], &mut entries);
        }
    }
    let mut asr = vec![];
    for i in 1..10u8 {
        if s.chance(1, 4) {
            let (p, text) = place(s, &mut used, "x.asr");
            // as written
            asr.push(if text.starts_with("..") { cwd.join(&text) } else { p });
            entries.push(("RecentFiles".into(), format!("Recent{i}"), text));
        }
    }
    s.shuffle(&mut entries);
    let missing = if s.chance(1, 4) { Some(s.pick(&REQUIRED).0) } else { None };
    let text: String = entries
        .iter()
        .filter(|e| Some(e.1.as_str()) != missing)
        .map(|(a, b, p)| format!("{a}\t{b}\t{}\n", p.replace('/', "\\")))
        .collect();
    let at = parent.join("x.prf");
    std::fs::write(&at, &text).expect("scratch");
    c.input = text.clone();
    c.nontrivial = true;
    let prf = Prf::parse(&at, text.as_bytes()).map_err(|e| Fail::from(format!("profile: {e}")))?;
    let a = no_panic("from_prf", || Adaptation::from_prf(&prf))?;
    if let Some(k) = missing {
        c.label("missing setting");
        match a {
            Err(AdaptationError::Prf(PrfError::MissingSetting(m))) if m == k => return Ok(()),
            x => return Err(Fail::from(format!("without {k}: {:?}", x.map(|_| ())))),
        }
    }
    let a = a.map_err(|e| Fail::from(format!("not loaded: {e}")))?;
    // through an adaptation description
    let mut over = vec![];
    let mut want_name = a.name.clone();
    let toml_dir = root.join("t").join(folder(s));
    std::fs::create_dir_all(&toml_dir).expect("scratch");
    let toml_dir = toml_dir.canonicalize().unwrap();
    let rel = |s: &mut Src, to: &Path| -> String {
        if s.chance(1, 4) {
            return to.to_str().unwrap().into();
        }
        let ups = "../".repeat(toml_dir.components().count() - 1);
        let dot = if s.chance(1, 4) { "./" } else { "" };
        format!("{dot}{ups}{}", to.to_str().unwrap().trim_start_matches('/'))
    };
    let n = s.us(0, 2);
    for i in 0..n {
        let d = if s.bool() { toml_dir.clone() } else { root.join("o").join(folder(s)) };
        std::fs::create_dir_all(&d).expect("scratch");
        let p = d.canonicalize().unwrap().join(format!("o{i}.jsonnet"));
        want_name = format!("name {i}");
        std::fs::write(&p, format!("{{ name: '{want_name}' }}")).expect("scratch");
        over.push(p.clone());
    }
    let quoted: Vec<String> = over
        .iter()
        .map(|p| {
            let near = p.parent() == Some(toml_dir.as_path()) && s.bool();
            let t = if near { p.file_name().unwrap().to_str().unwrap().to_string() } else { rel(s, p) };
            format!("{t:?}")
        })
        .collect();
    let prf_t = rel(s, &at);
    let toml = format!("prf = {prf_t:?}\noverlays = [{}]\n", quoted.join(", "));
    c.input.push_str(&toml);
    let tp = toml_dir.join("adaptation.toml");
    std::fs::write(&tp, &toml).expect("scratch");
    // the description itself by an absolute path or one relative to the working directory
    let tp = if s.bool() { tp } else { PathBuf::from(format!("{up}{}", tp.to_str().unwrap().trim_start_matches('/'))) };
    let setup = no_panic("AdaptationSetup::parse", || AdaptationSetup::parse(&tp))?;
    let setup = setup.map_err(|e| Fail::from(format!("description: {e}")))?;
    ensure_eq!(setup.prf, at, "profile of the description");
    ensure_eq!(setup.overlays, over, "overlays of the description");
    let mut b = Adaptation::from_adaptation_toml(&tp).map_err(|e| Fail::from(format!("description not loaded: {e}")))?;
    ensure_eq!(b.name, want_name, "name after overlays");
    b.name = a.name.clone();
    // all files were the seed's
    let mut w = load(&seed, &c.scratch)?;
    w.name = a.name.clone();
    let v = adaptation_json;
    ensure!(a.settings.asr_files == asr, "asr files {:?}, expected {asr:?}", a.settings.asr_files);
    let (va, mut vb, mut vw) = (v(&a), v(&b), v(&w));
    vw["settings"]["asr_files"] = va["settings"]["asr_files"].clone();
    ensure_eq!(vb["settings"]["asr_files"], va["settings"]["asr_files"], "asr files through the description");
    vb["name"] = va["name"].clone();
    crate::gen::json_close_tol(&va, &vw, "from elsewhere", 0.0).map_err(Fail::from)?;
    crate::gen::json_close(&vb, &vw, "through the description").map_err(Fail::from)?;
    ensure!(!a.maps.is_empty(), "TopSky maps not found");
    ensure!(!a.settings.ssr.special_use_codes.is_empty(), "squawks not found");
    Ok(())
}

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "profiles of arbitrary subsets, orders and repetitions of entries (paths with either separator, with and without a leading one, . and .., blanks, umlauts, several dots; equal keys in other categories; plugins repeated; CRLF) in nested folders reached directly, by detours and by links; complete adaptations with every file in a random folder loaded through profile and description; non-trivial: at least three paths judged. Oracle: path composition from the entry's segments; equality with the adaptation in its usual layout",
        assumptions: &["values do not start with two separators", "of several plugins of one name any may count, but always the same"],
        subs: vec![
            Sub { name: "paths", quick: 10_000, thorough: 300_000, f: paths },
            Sub { name: "layout", quick: 500, thorough: 20_000, f: layout },
        ],
        probes: vec![],
    }
}
