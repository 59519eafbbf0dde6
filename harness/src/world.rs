//! A complete adaptation on disk: profile plus everything it refers to.
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

use crate::engine::{no_panic, Fail};
use crate::seeds::*;
use vatsim_parser::adaptation::Adaptation;
use vatsim_parser::prf::Prf;

#[derive(Clone)]
pub struct World {
    /// relative path -> content
    pub files: BTreeMap<String, Vec<u8>>,
}

pub const SCT_F: &str = "EDMM.sct";
pub const ESE_F: &str = "EDMM.ese";
pub const PRF_F: &str = "x.prf";
pub const TOML_F: &str = "adaptation.toml";
pub const OVERLAY_F: &str = "o.jsonnet";
pub const AIRWAY_F: &str = "NavData/airway.txt";
pub const ISEC_F: &str = "NavData/isec.txt";
pub const NAVDATA_F: &str = "NavData/icao.txt";
pub const AIRCRAFT_F: &str = "ICAO/ICAO_Aircraft.txt";
pub const AIRLINES_F: &str = "ICAO/ICAO_Airlines.txt";
pub const AIRPORTS_F: &str = "ICAO/ICAO_Airports.txt";
pub const SYMBOLOGY_F: &str = "Settings/Symbology.txt";
pub const MAPS_F: &str = "Plugins/TopSky/TopSkyMaps.txt";
pub const TSYMBOLS_F: &str = "Plugins/TopSky/TopSkySymbols.txt";
pub const TSETTINGS_F: &str = "Plugins/TopSky/TopSkySettings.txt";
pub const SQUAWKS_F: &str = "Plugins/Squawks/squawks.json";
pub const ASR_F: &str = "ASR/EDDM_APP.asr";

impl World {
    pub fn seed() -> World {
        let mut w = World { files: BTreeMap::new() };
        for (f, t) in [
            (SCT_F, SCT),
            (ESE_F, ESE),
            (PRF_F, PRF),
            (TOML_F, "prf = 'x.prf'\noverlays = ['o.jsonnet']\n"),
            (OVERLAY_F, OVERLAY),
            (AIRWAY_F, AIRWAY),
            (ISEC_F, ISEC),
            (NAVDATA_F, NAVDATA),
            (AIRCRAFT_F, AIRCRAFT),
            (AIRLINES_F, AIRLINES),
            (AIRPORTS_F, AIRPORTS),
            (SYMBOLOGY_F, SYMBOLOGY),
            (MAPS_F, MAPS),
            (TSYMBOLS_F, TSYMBOLS),
            (TSETTINGS_F, TSETTINGS),
            (SQUAWKS_F, SQUAWKS),
            (ASR_F, ASR),
        ] {
            w.files.insert(f.to_string(), t.as_bytes().to_vec());
        }
        w
    }
    pub fn set(&mut self, f: &str, content: impl Into<Vec<u8>>) {
        self.files.insert(f.to_string(), content.into());
    }
    /// Writes everything below a fresh directory of the case's scratch directory.
    pub fn write(&self, scratch: &Path) -> PathBuf {
        let dir = scratch.join("world");
        std::fs::remove_dir_all(&dir).ok();
        for (f, c) in &self.files {
            let p = dir.join(f);
            std::fs::create_dir_all(p.parent().unwrap()).expect("mkdir");
            std::fs::write(&p, c).expect("write");
        }
        dir
    }
}

/// Writes the world and loads its profile.
pub fn load(w: &World, scratch: &Path) -> Result<Adaptation, Fail> {
    let dir = w.write(scratch);
    let p = dir.join(PRF_F);
    let prf = Prf::parse(&p, &std::fs::read(&p).expect("profile")).map_err(|e| Fail::from(format!("profile: {e}")))?;
    no_panic("Adaptation::from_prf", || Adaptation::from_prf(&prf))?.map_err(|e| Fail::from(format!("not loaded: {e}")))
}

/// An adaptation as JSON, with its sets in order.
pub fn adaptation_json(a: &Adaptation) -> serde_json::Value {
    let mut v = serde_json::to_value(a).expect("JSON");
    if let Some(m) = v["sectors"].as_object_mut() {
        for x in m.values_mut() {
            for k in ["volumes", "departure_aerodromes", "arrival_aerodromes"] {
                if let Some(l) = x[k].as_array_mut() {
                    l.sort_by_key(|x| x.to_string());
                }
            }
        }
    }
    v
}
